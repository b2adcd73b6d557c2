"""V21 the metadata document of a wheel against a reference built from the plugins' answers."""
import copy
import json

from vmon import env, gen, model
from vmon.core import Workload
from vmon.lib import VD, content, read, td
from vmon.scenario import Scenario, _nest
from variantlib.api import make_variant_dist_info
from variantlib.errors import PluginError, ValidationError
from variantlib.models.variant_info import VariantInfo
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

RULE = ("scenarios with ahead-of-time plugins (module, class, instance; with and without earlier "
        "recorded properties), static and install-time providers times variants whose properties "
        "those plugins support, list only as known, or do not know; faulty plugins (multi-value, not "
        "declared ahead-of-time safe, failing); custom labels; distinct by scenario and variant")
REQUIRED = ("accepted", "recorded", "priorities_added", "refused_unsupported", "refused_multi",
            "refused_not_aot", "refused_label", "custom_label", "null", "from_pyproject",
            "from_index", "without_info", "not_expanded", "stale_replaced", "single_feature",
            "empty_answer")
KNOWN = "aot-unused-provider"


def style_of(api):
    _, _, attr = api.partition(":")
    return {"": "module", "Plug": "class", "the_plugin": "instance"}.get(attr, "nested")


def build(c):
    rng = c.rng
    kind = rng.choice(["index", "pyproject"])
    sc = Scenario(c, kind=kind, max_ns=4, min_ns=1, config=False, abi=False,
                  kinds=["aot", "aot", "aot", "static", "install"])
    aots = [n for n, p in sc.prov.items() if p["kind"] == "aot"]
    faulty = {}
    for ns in aots:
        p = sc.prov[ns]
        r = rng.random()
        sup, flag = p["supported"], True
        if r < 0.10:
            sup = [(f, v, rng.random() < 0.7) for f, v, _ in sup]
            if any(m for *_, m in sup):
                faulty[ns] = "multi"
        elif r < 0.2:
            flag = rng.choice([None, False])
            faulty[ns] = "not_aot"
        elif r < 0.27:
            sup = []
        if r < 0.27:
            p["supported"] = sup
            sc.world.add(ns, p["all"], sup, style=style_of(p["api"]), aot=flag, name=p["mod"])
            env.reset_caches()
    base = read(sc.doc, kind)
    info = base
    if rng.random() < 0.3:
        info = VariantInfo(**base.copy_as_kwargs())
    elif kind == "index" and rng.random() < 0.2:
        info = VariantPyProjectToml(base)
    empty = content(VariantInfo())
    if rng.random() < 0.05:
        info = None
    c.obs("without_info" if info is None else "from_" + kind)
    before = content(info) if info is not None else None
    for _ in range(3):
        d = set()
        for ns, p in sc.prov.items():
            r = rng.random()
            tree = {f: list(vs) for f, vs, _ in p["supported"]} if p["kind"] == "aot" else sc.space.tree[ns]
            if r < 0.5:
                for f in gen.some(rng, tree, lo=min(1, len(tree))):
                    d |= {(ns, f, v) for v in gen.some(rng, tree[f], lo=1, hi=2)}
            if r < 0.1 or (not tree and r < 0.3):
                f = rng.choice(list(sc.space.tree[ns]))
                d.add((ns, f, rng.choice(sc.space.tree[ns][f])))
            elif r < 0.14:
                d.add((ns, gen.feat(rng), gen.val(rng)))
        if rng.random() < 0.1:
            d = set()
        d = tuple(sorted(d))
        lab = None
        lab_ok = True
        if rng.random() < 0.4:
            if rng.random() < 0.8:
                lab = "null" if not d else gen.label(rng)
            else:
                lab = rng.choice(["x" if not d else "null", "", "UPPER", "a-b", "a" * 17, "a b"])
                lab_ok = False
        expand = rng.random() < 0.9
        ctx = (f"variant {d} label {lab!r} expand {expand} info {type(info).__name__} "
               f"{json.dumps(sc.doc)} plugins " + str(
                   {n: (p["kind"], p["supported"], p["marker_true"]) for n, p in sc.prov.items()}))
        c.distinct(d, ctx)
        c.obs("null", not d)
        consulted = [] if info is None or not expand else [
            n for n in aots if any(p[0] == n for p in d) and sc.prov[n]["marker_true"]]
        used = [] if info is None or not expand else [n for n in aots if any(p[0] == n for p in d)]
        want = copy.deepcopy(before) if info is not None else copy.deepcopy(empty)
        for k in ("variants",):
            want.pop(k, None)
        reasons = set()
        if not lab_ok:
            reasons.add("label")
        for n in consulted:
            sup = sc.prov[n]["supported"]
            if faulty.get(n):
                reasons.add(faulty[n])
            old = want["static_properties"].pop(n, None)
            c.obs("stale_replaced", old is not None and bool(sup) and old != {f: v for f, v, _ in sup})
            c.obs("empty_answer", not sup)
            if sup:
                want["static_properties"][n] = {f: list(v) for f, v, _ in sup}
                if len(sup) > 1:
                    lst = want["feature_priorities"].setdefault(n, [])
                    for f, _, _ in sup:
                        if f not in lst:
                            c.obs("priorities_added")
                            lst.append(f)
                else:
                    c.obs("single_feature")
        for n, f, v in d:
            if n in used and v not in want["static_properties"].get(n, {}).get(f, []):
                reasons.add("unsupported")
        kw = {} if expand else {"expand_aot_plugin_properties": False}
        if info is not None or rng.random() < 0.5:
            kw["variant_info"] = info
        if lab is not None or rng.random() < 0.5:
            kw["variant_label"] = lab

        def call():
            return make_variant_dist_info(VD(d), **kw)
        if reasons:
            for r in reasons:
                c.obs("refused_" + r)
            exc = (ValidationError, PluginError) if "not_aot" in reasons else ValidationError
            c.raises(exc, call, f"{sorted(reasons)}: {ctx}")
            continue
        text = call()
        c.check(type(text) is str, f"{type(text)}; {ctx}")
        label = lab if lab is not None else model.default_label(d)
        c.obs("accepted")
        c.obs("custom_label", lab is not None)
        c.obs("recorded", len(consulted))
        c.obs("not_expanded", not expand)
        want["variants"] = {label: d}
        doc = json.loads(text)
        c.check(isinstance(doc, dict), f"{text}; {ctx}")
        # what the document says, by the reference reader ...
        missing = [n for n in aots if info is not None and n not in want["static_properties"]]
        doc2 = doc
        if missing:
            # not readable because of providers the variant does not use: compare the rest
            c.obs("known_condition")
            doc2 = copy.deepcopy(doc)
            st = doc2.setdefault("static-properties", {})
            for n in missing:
                c.check(n not in st, f"properties of {n} recorded; {ctx}")
                st[n] = {"f": ["v"]}
        got = model.read_document(doc2, "wheel", label)
        for n in missing:
            del got["static_properties"][n]
        c.eq({k: tuple(v) if isinstance(v, tuple) else v for k, v in got.items()}, want,
             f"document {text}; {ctx}")
        # ... and by the library
        if not missing:
            back = VariantDistInfo(text, label)
            c.eq(content(back), want, f"document read back {text}; {ctx}")
            c.eq(td(back.variant_desc), d, f"variant read back; {ctx}")
            c.eq(back.variant_label, label, f"label read back; {ctx}")
            c.eq(content(VariantDistInfo(text.encode())), want, f"document read back from bytes; {ctx}")
        if info is not None:
            c.eq(content(info), before, f"metadata given; {ctx}")
            c.eq(json.loads(make_variant_dist_info(VD(reversed(d)), **kw)), doc, f"built again; {ctx}")
        c.sample({"variant": d, "document": doc})


def unused_provider(c):
    """Recorded finding: ahead-of-time providers the variant does not use."""
    rng = c.rng
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}").activate()
    ns, f, v = gen.ns(rng), gen.feat(rng), gen.val(rng)
    _, api = w.add(ns, [(f, [v], False)], [(f, [v], False)], aot=True)
    doc = {"default-priorities": {"namespace": [ns]},
           "providers": {ns: {"requires": ["x"], "plugin-api": api, "install-time": False}}}
    used = read(doc, "pyproject")
    # the variant using it is fine
    text = make_variant_dist_info(VD([(ns, f, v)]), used)
    c.eq(content(VariantDistInfo(text))["static_properties"], {ns: {f: [v]}}, f"recorded; {text}")
    d = rng.choice([(), ((ns + "x", f, v),)])
    text = make_variant_dist_info(VD(d), used)
    c.distinct(d, text)
    try:
        back = VariantDistInfo(text)
    except ValidationError as e:
        c.check("AoT" in str(e) or "static" in str(e), f"reading back {text}: {e}")
        c.known_finding(KNOWN, f"document for {d}, which does not use the ahead-of-time provider {ns}, "
                               f"is not readable: {e}; {text}")
    else:
        c.eq(td(back.variant_desc), d, f"{text}")


WORKLOADS = [Workload(build, 1400, 12000), Workload(unused_provider, 8, 40)]
