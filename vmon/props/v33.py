"""V33 building in an isolated environment: what is installed, who answers, what is left behind."""
import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile
import zipfile

from packaging.requirements import Requirement

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.lib import content, read
from vmon.props.v22 import old_document, text_form  # noqa: F401
from variantlib.models.variant_info import VariantInfo

RULE = ("make-variant creating real isolated environments (pip and uv installing from a local package "
        "index, nothing simulated), for providers of several namespaces whose packages have dependencies "
        "of their own, with properties that are valid, invalid, of unknown namespaces, or violate "
        "multi-value; uninstallable requirements; runs that need no environment; get_provider_requires over "
        "generated metadata; distinct by metadata, properties and options")
REQUIRED = ("environments", "installs", "refused_invalid", "refused_unknown", "refused_multi",
            "install_failures", "no_environment", "consulted", "multi_provider", "uv", "pip", "aot",
            "unused_providers", "requires_all", "requires_some", "requires_without_aot", "already_variant")


UV = shutil.which("uv")
if not UV:
    REQUIRED = tuple(x for x in REQUIRED if x != "uv")

PLUGIN = '''\
import importlib.metadata as _m
_log("dists " + ",".join(sorted(d.name + "==" + d.version for d in _m.distributions())))
from collections import namedtuple as _nt
_F = _nt("_F", "name values multi_value")
namespace = {ns!r}
is_aot_plugin = {aot}


def get_all_configs():
    _log("get_all_configs")
    return [_F(*f) for f in {all_!r}]


def get_supported_configs():
    _log("get_supported_configs")
    return [_F(*f) for f in {supported!r}]
'''


class Index:
    """A local index of tiny wheels."""

    def __init__(self, directory):
        self.dir = pathlib.Path(directory)
        self.dir.mkdir()
        self.world = env.PluginWorld(self.dir.parent / "src", "x")

    def add(self, name, version, files=(), requires=()):
        base = re.sub(r"[-_.]+", "_", name).lower()
        di = f"{base}-{version}.dist-info"
        meta = f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n" + "".join(
            f"Requires-Dist: {r}\n" for r in requires) + "Provides-Extra: more\n"
        files = [*files, (f"{di}/METADATA", meta.encode()),
                 (f"{di}/WHEEL", b"Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n")]
        with zipfile.ZipFile(self.dir / f"{base}-{version}-py3-none-any.whl", "w") as z:
            for n, b in files:
                z.writestr(n, b)
            z.writestr(f"{di}/RECORD", "".join(f"{n},{wheels.digest(b)},{len(b)}\n" for n, b in files)
                       + f"{di}/RECORD,,\n")

    def plugin(self, ns, mod, aot, all_, supported):
        self.world.add_source(PLUGIN.format(ns=ns, aot=aot, all_=all_, supported=supported), name=mod)
        p = self.world.dir / f"{mod}.py"
        data = p.read_bytes()
        p.unlink()
        return data


class Commands:
    """Environments created and requirements handed to installers, seen from audit events."""

    _hooked = False
    active = None

    def __init__(self):
        self.installed, self.installers, self.python = set(), set(), []

    @staticmethod
    def hook(name, args):
        self = Commands.active
        if self is None or name != "subprocess.Popen":
            return
        argv = [os.fsdecode(a) if isinstance(a, (bytes, os.PathLike)) else str(a)
                for a in (args[1] if isinstance(args[1], (list, tuple)) else [args[1]])]
        if "install" not in argv:
            self.python.append(argv[0])
            return
        i = argv.index("install")
        self.installers.add("uv" if os.path.basename(argv[0]) == "uv" else "pip")
        rest = argv[i + 1:]
        while rest:
            a = rest.pop(0)
            if a in ("-r", "--requirement"):
                text = pathlib.Path(rest.pop(0)).read_text()
                self.installed |= {x.strip() for x in text.splitlines() if x.strip()}
            elif a == "--python":
                rest.pop(0)
            elif not a.startswith("-"):
                self.installed.add(a)

    def __enter__(self):
        if not Commands._hooked:
            import sys
            sys.addaudithook(Commands.hook)
            Commands._hooked = True
        Commands.active = self
        return self

    def __exit__(self, *exc):
        Commands.active = None


def build(c):
    rng = c.rng
    os.environ.pop("PYTHONPATH", None)
    index = Index(c.tmp / "index")
    tmp = c.tmp / "tmp"
    tmp.mkdir()
    os.environ.update({
        "TMPDIR": str(tmp), "PIP_FIND_LINKS": str(index.dir), "PIP_NO_INDEX": "1",
        "UV_FIND_LINKS": str(index.dir), "UV_NO_INDEX": "1", "UV_OFFLINE": "1",
        "UV_CACHE_DIR": str(c.tmp / "uvcache"), "PIP_CACHE_DIR": str(c.tmp / "pipcache")})
    tag = f"{c.i}x{rng.randrange(1 << 20):x}"
    index.add(f"helper-{tag}", "1.5")
    index.add(f"other-{tag}", "0.9")
    prov, provs = {}, {}
    mode = ["isolated"] * 6 + ["null", "skip"]
    mode = mode[c.i % len(mode)]
    kinds = ["install", "install", "aot", "static"] if mode == "isolated" else ["install", "static"]
    for k, ns in enumerate(gen.distinct(rng, gen.ns, rng.randint(2, 4))):
        kind = rng.choice([x for x in kinds if k or x != "static"])
        feats = gen.distinct(rng, gen.feat, rng.randint(1, 2))
        all_ = [(f, gen.distinct(rng, gen.val, 3), kind == "install" and rng.random() < 0.5) for f in feats]
        supported = [(f, v[:2], m) for f, v, m in all_]
        p = prov[ns] = {"kind": kind, "all": all_, "supported": supported, "requires": [], "dists": set()}
        d = provs[ns] = {}
        if kind == "static":
            d["install-time"] = False
            continue
        mod = f"vmi_{tag}_{k}"
        dist = mod.replace("_", rng.choice(["_", "-"]))
        dep = rng.choice([[], [f"helper-{tag}"], [f"helper-{tag}", f"other-{tag} ; extra == 'more'"]])
        index.add(dist, "1.2", [(f"{mod}.py", index.plugin(ns, mod, kind == "aot", all_, supported))], dep)
        if rng.random() < 0.3:
            index.add(dist, "3.0", [(f"{mod}.py", b"raise RuntimeError('wrong version')\n")], [])
            spec = rng.choice([" <3", "==1.2", " >=1, !=3.0"])
        else:
            spec = rng.choice(["", " >=1", "[more]", " ; python_version >= '3'"])
        p["requires"] = [dist + spec]
        p["dists"] = {f"{dist}==1.2"} | ({f"helper-{tag}==1.5"} if dep else set()) | (
            {f"other-{tag}==0.9"} if spec == "[more]" and len(dep) == 2 else set())
        if rng.random() < 0.3:
            p["requires"].append(f"other-{tag}")
            p["dists"].add(f"other-{tag}==0.9")
        d["requires"] = list(p["requires"])
        if kind == "aot":
            d["install-time"] = False
        if rng.random() < 0.5:
            d["plugin-api"] = mod
        if rng.random() < 0.3:
            d["optional"] = True
    feat = {ns: [f for f, *_ in p["all"]] for ns, p in prov.items()
            if p["kind"] == "static" and len(p["all"]) > 1}
    static = {ns: {f: list(v) for f, v, _ in p["supported"]} for ns, p in prov.items() if p["kind"] == "static"}
    doc = {"default-priorities": {"namespace": gen.shuffled(rng, provs), "feature": feat},
           "providers": provs, "static-properties": static}
    # -- the properties -------------------------------------------------------
    used = gen.some(rng, prov, lo=1, hi=3)
    # ahead-of-time providers left out make unreadable documents (recorded finding of V21)
    used = [n for n in prov if n in used or prov[n]["kind"] == "aot"]
    props = set()
    for ns in used:
        for f, vs, m in gen.some(rng, prov[ns]["supported"], lo=1):
            props |= {(ns, f, v) for v in (vs if m and rng.random() < 0.5 else [rng.choice(vs)])}
    bad = rng.choice([None, None, None, "invalid", "unknown", "multi", "install"])
    target = rng.choice(used)
    p = prov[target]
    if bad == "invalid":
        f, vs, _ = rng.choice(p["all"])
        props = {q for q in props if q[:2] != (target, f)} | {(target, f, vs[2] + "x")}
        if len(p["all"]) > 1:
            props = {q for q in props if q[0] != target or q[1] == f}
    elif bad == "unknown":
        props.add((gen.ns(rng) + "zz", gen.feat(rng), gen.val(rng)))
    elif bad == "multi":
        single = [(n, f, vs) for n in used for f, vs, m in prov[n]["supported"] if not m]
        if single:
            n, f, vs = rng.choice(single)
            props |= {(n, f, v) for v in vs[:2]}
        else:
            bad = None
    elif bad == "install":
        n = rng.choice([n for n in used if prov[n]["requires"]] or [None])
        if n is None:
            bad = None
        else:
            provs[n]["requires"].append(f"missing-{tag} >=1")
            prov[n]["requires"].append(f"missing-{tag} >=1")
    props = tuple(sorted(props))
    installer = rng.choice([None, None, "pip", "uv" if UV else "pip"])
    pt = c.tmp / "pyproject.toml"
    pt.write_text(wheels.toml({"project": {"name": "x"}, "variant": doc}))
    out = c.tmp / "out"
    out.mkdir()
    old = rng.choice([None, None, "null", "old.label"])
    parts = wheels.name_parts(rng)
    w = wheels.make(rng, c.tmp, parts, label=old, doc=old_document(rng, old) if old else None, simple=True, nfiles=2)
    c.obs("already_variant", old is not None)
    orig = wheels.load(w)
    args = ["make-variant", "-f", w, "-o", out, "--pyproject-toml", pt]
    if installer:
        args += ["--installer", installer]
    if mode == "null":
        args += ["--null-variant"]
    else:
        args += [x for q in gen.shuffled(rng, props) for x in ("-p", text_form(rng, q))]
        if mode == "skip":
            args += ["--skip-plugin-validation"]
    ctx = f"{mode}, {bad}: {[str(a) for a in args[5:]]} {json.dumps(doc)}"
    c.distinct(props, json.dumps(doc), mode, bad, installer)
    tempfile.tempdir = str(tmp)
    before = sorted(x.name for x in tmp.iterdir())
    inputs = (w.read_bytes(), pt.read_bytes())
    try:
        with Commands() as cmds:
            res = env.cli(*args)
    finally:
        tempfile.tempdir = None
    ctx += f"; {res}"
    events = index.world.events()
    c.check(sorted(x.name for x in tmp.iterdir()) == before, f"left behind {os.listdir(tmp)}; {ctx}")
    c.eq((w.read_bytes(), pt.read_bytes()), inputs, f"inputs; {ctx}")
    outs = sorted(x.name for x in out.iterdir())
    if mode != "isolated":
        c.obs("no_environment")
        c.eq((cmds.installed, events), (set(), []), f"environment used although not needed; {ctx}")
        c.check(res.ok, f"refused; {ctx}")
        d = () if mode == "null" else props
        c.eq(outs, [wheels.join(parts, model.default_label(d))], f"files written; {ctx}")
        return
    # exactly the requirements of the providers in use, with the installer asked for
    named = {q[0] for q in props}
    want = {r for n in named if n in prov for r in prov[n]["requires"]}
    c.obs("environments")
    c.obs("unused_providers", any(prov[n]["requires"] for n in prov if n not in named))
    c.obs("multi_provider", sum(bool(prov[n]["requires"]) for n in named if n in prov) > 1)
    c.eq({str(Requirement(r)) for r in cmds.installed}, {str(Requirement(r)) for r in want},
         f"requirements installed; {ctx}")
    if want:
        c.obs("installs")
        c.obs(installer or "pip")
        c.eq(cmds.installers, {installer or "pip"}, f"installer; {ctx}")
    if bad == "install":
        c.obs("install_failures")
        c.check(isinstance(res.exc, subprocess.CalledProcessError), f"failing installation; {ctx}")
        c.check(f"missing-{tag}" in res.err, f"installer's message is lost; {ctx}")
        c.eq((outs, events), ([], []), f"after a failing installation; {ctx}")
        return
    # everybody asked ran in the environment just created, which holds nothing else
    dists = set().union(*[prov[n]["dists"] for n in named if n in prov])
    norm = {re.sub(r"[-_.]+", "-", x).lower() for x in dists}
    asked = {}
    for _pid, prefix, name, ev in events:
        c.check(prefix.startswith(str(tmp) + os.sep), f"plugin {name} ran in {prefix}; {ctx}")
        asked.setdefault(name, []).append(ev)
        if ev.startswith("dists "):
            got = {re.sub(r"[-_.]+", "-", x).lower() for x in ev[6:].split(",") if x}
            c.eq(got, norm, f"packages of the environment; {ctx}")
    c.check(len({e[1] for e in events}) <= 1, f"several environments; {ctx}")
    mods = {f"vmi_{tag}_{k}": n for k, n in enumerate(prov)}
    c.eq({mods[m] for m in asked}, {n for n in named if n in prov and prov[n]["kind"] != "static"},
         f"plugins consulted; {ctx}")
    c.obs("consulted", len(asked))
    if bad in ("invalid", "unknown", "multi"):
        # a value missing from the recorded list of a provider without a plugin is just as invalid
        c.obs("refused_" + bad)
        c.check(not res.ok, f"accepted; {ctx}")
        c.eq(outs, [], f"files after refusing; {ctx}")
        return
    c.check(res.ok, f"refused; {ctx}")
    lab = model.vhash(props)
    c.eq(outs, [wheels.join(parts, lab)], f"files written; {ctx}")

    def judge(data):
        got = model.read_document(json.loads(data), "wheel", lab)
        c.eq(got["variants"], {lab: props}, f"variant recorded; {ctx}")
        st = dict(static)
        for n in named:
            if prov[n]["kind"] == "aot":
                c.obs("aot")
                st[n] = {f: list(v) for f, v, _ in prov[n]["supported"]}
        c.eq(got["static_properties"], st, f"properties recorded; {ctx}")
        for n in prov:
            c.eq(set(got["providers"][n][0]), set(prov[n]["requires"]), f"requires of {n}; {ctx}")
    wheels.same_but_doc(c, wheels.load(out / outs[0]), orig, ctx, judge)
    c.sample({"properties": props, "installed": sorted(cmds.installed)})


def requires(c):
    """get_provider_requires() is the exact union over the namespaces asked for."""
    rng = c.rng
    kind = rng.choice(["index", "pyproject"])
    doc, _ = gen.document(rng, kind)
    info = read(doc, kind)
    if rng.random() < 0.3:
        info = VariantInfo(**info.copy_as_kwargs())
    before = content(info)
    provs = doc.get("providers", {})
    for _ in range(4):
        some = None if rng.random() < 0.25 else set(gen.some(rng, provs))
        aot = rng.random() < 0.6
        args = [[], [some]][some is not None or rng.random() < 0.5]
        kw = {} if aot and rng.random() < 0.5 else {"include_aot_plugins": aot}
        if args and rng.random() < 0.3:
            kw["namespaces"] = args.pop()
        keep = None if some is None else set(some)
        got = info.get_provider_requires(*args, **kw)
        names = provs if some is None else some
        want = set()
        for n in names:
            if provs[n].get("install-time", True) or aot:
                want |= set(provs[n].get("requires", []))
        c.obs("requires_all" if some is None else "requires_some")
        c.obs("requires_without_aot", not aot and any(not provs[n].get("install-time", True) and
                                                     provs[n].get("requires") for n in names))
        c.distinct(json.dumps(doc), str(sorted(some) if some is not None else None), aot)
        c.eq(set(got), want, f"get_provider_requires({some}, {aot}) of {json.dumps(provs)}")
        c.check(len(got) == len(set(got)), f"duplicates {got}")
        c.eq(some, keep, "namespaces given")
        got.clear()
        c.eq(content(info), before, "metadata")


WORKLOADS = [Workload(build, 96, 700), Workload(requires, 1200, 6000)]
