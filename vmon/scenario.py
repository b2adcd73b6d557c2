"""Full resolution scenarios: index, provider plugins, user configuration and environment,
together with what the properties say must come out."""
from __future__ import annotations

import copy
import json
import os
import pathlib
import re

from vmon import env, gen, model

ABI = "abi_dependency"


def toml_value(v):
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f'"{k}" = {toml_value(x)}' for k, x in v.items()) + "}"
    return '"' + v + '"'


def user_toml(conf):
    return "".join(f"{k} = {toml_value(v)}\n" for k, v in conf.items())


class Scenario:
    def __init__(self, c, *, kind="index", plugins=True, config=True, abi=True, max_ns=4,
                 max_variants=6, optional=True, markers=True, aot=True, empty_supported=True,
                 min_ns=0, reference_by_requires=True, multi=True, wide=False,
                 kinds=None):
        rng = self.rng = c.rng
        self.c = c
        self.kind = kind
        tag = re.sub(r"[^a-z0-9]", "", f"{c.pid}{c.wl}{c.i}".lower()) + "x%x" % rng.randrange(1 << 24)
        self.world = env.PluginWorld(c.tmp / "plugins", tag).activate()
        cwd = c.tmp / "cwd"
        cwd.mkdir(exist_ok=True)
        os.chdir(cwd)
        self.cwd = cwd
        self.space = gen.Space(rng, max_ns=max_ns, min_ns=min_ns,
                               **({"max_feat": 5, "max_val": 6} if wide else {}))
        self.prov = {}
        for ns, feats in self.space.tree.items():
            if rng.random() < 0.08 and min_ns == 0:
                continue   # a namespace nobody provides
            kinds_ = ["static"]
            if plugins:
                kinds_ += ["install", "install", "install"] + (["aot", "aot"] if aot else [])
            kinds_ = kinds or kinds_
            p = self.prov[ns] = {"kind": rng.choice(kinds_), "optional": False, "marker": None,
                                 "marker_true": True, "mod": None, "api": None, "requires": []}
            p["all"] = [(f, list(vs), multi and rng.random() < 0.5 and p["kind"] != "aot")
                        for f, vs in gen.shuffled(rng, feats.items())]
            r = rng.random()
            if r < 0.5:
                sup = [(f, vs, m) for f, vs, m in p["all"]]
            else:
                sup = []
                for f, vs, m in gen.some(rng, p["all"]):
                    sup.append((f, gen.some(rng, vs, lo=1), m))
                if not sup and not (empty_supported and p["kind"] == "install"):
                    sup = list(p["all"])
            p["supported"] = gen.shuffled(rng, sup)
            if p["kind"] != "static":
                style = rng.choice(env.STYLES)
                by_req = reference_by_requires and style == "module" and rng.random() < 0.6
                aot_flag = True if p["kind"] == "aot" else rng.choice([None, None, False, True])
                p["mod"], p["api"] = self.world.add(
                    ns, p["all"], p["supported"], style=style, aot=aot_flag, kind=rng.randrange(3))
                if by_req:
                    name = p["mod"].replace("_", rng.choice(["_", "-"]))
                    p["requires"] = [name + rng.choice(["", ">=1", " >= 1.0, <3", "[extra]",
                                                        " ; python_version >= '3'",
                                                        " @ https://example.com/x.whl"])]
                    p["api_given"] = None
                else:
                    p["requires"] = [rng.choice(gen.REQUIRES)]
                    p["api_given"] = p["api"].replace(":", rng.choice([":", " : ", ": "]))
                if rng.random() < 0.4:
                    p["requires"].append("other-package>=2")
            else:
                p["api_given"] = rng.choice([None, None, "unused.module:attr"])
            if optional and rng.random() < 0.3:
                p["optional"] = True
            if markers and rng.random() < 0.35:
                p["marker_true"] = rng.random() < 0.6
                p["marker"] = rng.choice(gen.MARKERS_TRUE if p["marker_true"] else gen.MARKERS_FALSE)
        self._document(max_variants, abi)
        self.config = {}
        if config and rng.random() < 0.6:
            self._user_config()
        self.abi_env = None
        self.abi = {}
        if abi:
            self.abi = env.abi_props()
            if rng.random() < 0.5:
                self._abi_env()

    # -- construction --------------------------------------------------------
    def _document(self, max_variants, abi):
        rng = self.rng
        provs, static = {}, {}
        feat = gen.feat_prios(rng, self.space)
        for ns, p in self.prov.items():
            d = provs[ns] = {}
            if p["requires"]:
                d["requires"] = list(p["requires"])
            if p["api_given"] is not None:
                d["plugin-api"] = p["api_given"]
            if p["optional"]:
                d["optional"] = True
            if p["marker"]:
                d["enable-if"] = p["marker"]
            p["static"] = None
            if p["kind"] != "install":
                d["install-time"] = False
                if self.kind != "pyproject" or p["kind"] == "static":
                    tree = self.space.tree[ns]
                    st = {f: gen.some(rng, vs, lo=1) for f, vs in gen.some(rng, tree.items(), lo=1)}
                    p["static"] = static[ns] = st
                    if len(st) > 1:
                        lst = feat.setdefault(ns, [])
                        for f in st:
                            if f not in lst:
                                lst.insert(rng.randint(0, len(lst)), f)
        self.doc = {"default-priorities": {"namespace": gen.shuffled(rng, provs), "feature": feat,
                                           "property": gen.prop_prios(rng, self.space)},
                    "providers": provs, "static-properties": static}
        self.abi_space = []
        if self.kind != "pyproject":
            if abi:
                inst = env.abi_props()
                names = rng.sample(sorted(inst), min(3, len(inst)))
                self.abi_space = [(ABI, n, v) for n in names for v in inst[n] + ["0.999"]]
            descs = self.space.descs(rng.randint(0, max_variants), null=0.08)
            out = []
            for d in descs:
                if self.abi_space and rng.random() < 0.35:
                    d = tuple(sorted(set(d) | set(gen.some(rng, self.abi_space, hi=2))))
                if d not in out:
                    out.append(d)
            self.variants = {}
            for d in out:
                self.variants["null" if not d else gen._fresh(rng, self.variants)] = d
            self.doc["variants"] = {lab: _nest(rng, d) for lab, d in self.variants.items()}

    def _user_config(self):
        rng = self.rng
        conf = {}
        nss = list(self.prov) + [ABI] + ["zz_unknown"]
        if rng.random() < 0.7:
            conf["namespace_priorities"] = gen.some(rng, nss)
        abi_feats = sorted({f for _, f, _ in self.abi_space})
        if rng.random() < 0.6:
            fp = gen.feat_prios(rng, self.space)
            if abi_feats and rng.random() < 0.4:
                fp[ABI] = gen.some(rng, abi_feats, lo=1)
            conf["feature_priorities"] = fp
        if rng.random() < 0.6:
            pp = gen.prop_prios(rng, self.space)
            if self.abi_space and rng.random() < 0.4:
                _, f, v = rng.choice(self.abi_space)
                pp[ABI] = {f: [v]}
            conf["property_priorities"] = pp
        self.config = conf
        (self.cwd / "variants.toml").write_text(user_toml(conf))
        env.reset_caches()

    def _abi_env(self):
        rng = self.rng
        items = []
        names = sorted({f for _, f, _ in self.abi_space}) or ["torch"]
        for _ in range(rng.randint(1, 4)):
            n = rng.choice(names + ["torch", "Some.Pkg", "a-b_c"])
            v = rng.choice(["1", "2.1", "3.4.5", "1.2.3.4", "2!1.5", "1.0rc1", "7.8.9+local"])
            items.append((n, v))
        self.abi_env = ",".join(f"{n}=={v}" for n, v in items)
        os.environ["VARIANT_ABI_DEPENDENCY"] = self.abi_env
        for n, v in items:
            self.abi[re.sub(r"[-_.]+", "_", n).lower()] = abi_values(v)
        self.abi = dict(sorted(self.abi.items()))

    # -- expectations --------------------------------------------------------
    def enabled(self, ns, optional=False, filter_=None, aot=False):
        """Is the plugin of the namespace consulted?"""
        p = self.prov[ns]
        if p["kind"] == "static" or (p["kind"] == "aot" and not aot):
            return False
        if filter_ is not None and ns not in filter_:
            return False
        if p["optional"] and not (optional is True or (optional is not False and ns in optional)):
            return False
        return p["marker_true"]

    def enabled_set(self, **kw):
        return {ns for ns in self.prov if self.enabled(ns, **kw)}

    def configs(self, which="supported", **kw):
        """namespace -> [(feature, values, multi)] as a loader must answer."""
        out = {}
        for ns, p in self.prov.items():
            if self.enabled(ns, **kw):
                if p[which]:
                    out[ns] = [(f, list(v), m) for f, v, m in p[which]]
            elif p["static"]:
                out[ns] = [(f, list(v), False) for f, v in p["static"].items()]
        return out

    def supported(self, optional=False):
        out = [(ns, f, v) for ns, cfg in self.configs("supported", optional=optional).items()
               for f, vs, _ in cfg for v in vs]
        return out + [(ABI, f, v) for f, vs in self.abi.items() for v in vs]

    def priorities(self):
        pr, conf = self.doc["default-priorities"], self.config
        return (model.union(conf.get("namespace_priorities"), pr["namespace"], [ABI]),
                model.union_dict(conf.get("feature_priorities"), pr["feature"]),
                model.union_dict2(conf.get("property_priorities"), pr["property"]))

    def expected_descs(self, optional=False):
        return model.select(list(self.variants.values()), self.supported(optional),
                            *self.priorities())

    def expected_labels(self, optional=False):
        by = {v: lab for lab, v in self.variants.items()}
        by.setdefault((), "null")
        return [by[v] for v in self.expected_descs(optional)]

    def ran(self):
        """namespaces whose plugin was imported, and (namespace -> calls) since the last call"""
        evs = self.world.events()
        mods = {p["mod"]: ns for ns, p in self.prov.items() if p["mod"]}
        imported = {mods.get(e[2], e[2]) for e in evs if e[3] == "import"}
        calls = {}
        for e in evs:
            if e[3] != "import":
                calls.setdefault(mods.get(e[2], e[2]), []).append(e[3])
        return imported, calls, {e[0] for e in evs}

    def optional_option(self):
        rng = self.rng
        return rng.choice([False, False, True, gen.some(rng, list(self.prov) + ["zz"])])

    def optional_kw(self, opt):
        """Optional providers are disabled unless asked for: leave the default to the library half the time."""
        return {} if opt is False and self.rng.random() < 0.5 else {"enable_optional_plugins": opt}


def abi_values(v):
    from packaging.version import Version
    rel = list(Version(v).release) + [0, 0]
    return [f"{rel[0]}", f"{rel[0]}.{rel[1]}", f"{rel[0]}.{rel[1]}.{rel[2]}"]


def _nest(rng, d):
    out = {}
    for n, f, v in gen.shuffled(rng, d):
        out.setdefault(n, {}).setdefault(f, []).append(v)
    return out


def wheel_metadata(sc, base, d, faulty=(), expand=True):
    """What a wheel's document must say: (content, reasons to refuse). `base`: common content."""
    want = copy.deepcopy(base)
    want.pop("variants", None)
    used = [n for n, p in sc.prov.items()
            if expand and p["kind"] == "aot" and any(x[0] == n for x in d)]
    reasons = set()
    for n in used:
        if not sc.prov[n]["marker_true"]:
            continue
        sup = sc.prov[n]["supported"]
        if n in faulty:
            reasons.add(faulty[n])
        want["static_properties"].pop(n, None)
        if sup:
            want["static_properties"][n] = {f: list(v) for f, v, _ in sup}
            if len(sup) > 1:
                want["feature_priorities"][n] = model.union(
                    want["feature_priorities"].get(n), [f for f, _, _ in sup])
    for n, f, v in d:
        if n in used and v not in want["static_properties"].get(n, {}).get(f, []):
            reasons.add("unsupported")
    want["variants"] = None
    return want, reasons


def judge_document(c, sc, want, label, d, what):
    """A function judging the bytes of a wheel's metadata document."""
    def judge(data):
        doc = json.loads(data)
        missing = [n for n, p in sc.prov.items()
                   if p["kind"] != "install" and n not in want["static_properties"]]
        for n in missing:   # unreadable for that reason alone: recorded under V21
            st = doc.setdefault("static-properties", {})
            c.check(n not in st, f"properties of {n} recorded in {what}")
            st[n] = {"f": ["v"]}
        got = model.read_document(doc, "wheel", label)
        for n in missing:
            del got["static_properties"][n]
        c.eq(got, {**want, "variants": {label: d}}, f"metadata document of {what}")
    return judge


def verdicts(sc, d):
    """Reasons for which validation refuses the variant."""
    cfg = {n: {f: (vs, m) for f, vs, m in fs} for n, fs in sc.configs(
        "all", optional=True, filter_={p[0] for p in d}, aot=True).items()}
    out = set()
    for n, f, v in d:
        if n not in cfg:
            out.add("unknown")
        elif v not in cfg[n].get(f, ((), 0))[0]:
            out.add("invalid")
        elif not cfg[n][f][1] and len({x for x in d if x[:2] == (n, f)}) > 1:
            out.add("multi_value")
    return out
