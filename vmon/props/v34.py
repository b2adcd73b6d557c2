"""V34 the same answers, output and files under every ambient setting of the process."""
import copy
import json
import os
import pathlib
import shutil
import subprocess
import sys
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.lib import read
from vmon.scenario import Scenario

RULE = ("a plan of library calls and commands over random documents (with text outside ASCII), real plugins, "
        "wheels, indexes and settings is run in a fresh process of a plain environment, and again under "
        "ambient settings (hash seeds, locales and text encodings, optimisation, safe path, development "
        "and tracing modes, signals, closed or unrelated standard input, umask, time zone, terminal, limits, "
        "temporary directory, unrelated variables, and combinations of them); results, exit statuses, "
        "printed text and files compared item by item; distinct by setting and plan")
REQUIRED = ("plans", "steps", "steps_ok", "steps_refused", "settings", "combined_settings", "non_ascii_documents",
            "files_compared", "archives_compared", "noisy_plugins", "faulty_plugins", "commands", "plugin_answers")
ASSUMPTIONS = ["file names outside ASCII are not combined with locales of another encoding: the interpreter "
               "cannot round-trip all of them",
               "the plain environment (C.UTF-8, no flags) gives the reference; whether its answers are right is "
               "decided by the other checks"]
HERE = pathlib.Path(__file__).resolve().parent.parent
LOCALES = {}


def prepare(scratch):
    """Locales with other encodings, where the system can build them."""
    d = os.path.join(scratch, "locales")
    os.makedirs(d, exist_ok=True)
    for lang, charset in (("en_US", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("ja_JP", "EUC-JP")):
        name = f"{lang}.{charset}"
        try:
            subprocess.run(["localedef", "-i", lang, "-f", charset, os.path.join(d, name)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if os.path.isdir(os.path.join(d, name)):
            LOCALES[name] = {"LOCPATH": d, "LC_ALL": name, "PYTHONUTF8": "0"}


# name -> (variables, interpreter flags, shell prefix)
SETTINGS = {
    "hash seed 1": ({"PYTHONHASHSEED": "1"}, [], ""),
    "hash seed 2": ({"PYTHONHASHSEED": "20231"}, [], ""),
    "hash seed random": ({"PYTHONHASHSEED": "random"}, [], ""),
    "ascii": ({"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, [], ""),
    "posix": ({"LC_ALL": "POSIX"}, [], ""),
    "utf-8 mode": ({"LC_ALL": "C", "PYTHONUTF8": "1"}, [], ""),
    "output ascii": ({"PYTHONIOENCODING": "ascii"}, [], ""),
    "output cp1252": ({"PYTHONIOENCODING": "cp1252"}, [], ""),
    "output latin-1": ({"PYTHONIOENCODING": "latin-1:replace"}, [], ""),
    "optimised": ({}, ["-O"], ""),
    "optimised twice": ({"PYTHONOPTIMIZE": "2"}, [], ""),
    "safe path": ({"PYTHONSAFEPATH": "1"}, [], ""),
    "development mode": ({}, ["-X", "dev"], ""),
    "inherited development mode": ({"PYTHONDEVMODE": "1"}, [], ""),
    "no bytecode": ({"PYTHONDONTWRITEBYTECODE": "1"}, [], ""),
    "unbuffered": ({"PYTHONUNBUFFERED": "1"}, [], ""),
    "verbose": ({"PYTHONVERBOSE": "1"}, [], ""),
    "import times": ({"PYTHONPROFILEIMPORTTIME": "1"}, [], ""),
    "all warnings": ({"PYTHONWARNINGS": "always"}, [], ""),
    "tracing memory": ({"PYTHONTRACEMALLOC": "3"}, [], ""),
    "no user site": ({"PYTHONNOUSERSITE": "1"}, [], ""),
    "time zone": ({"TZ": "Pacific/Kiritimati"}, [], ""),
    "odd time zone": ({"TZ": "XYZ+23:59:59"}, [], ""),
    "terminal": ({"COLUMNS": "20", "LINES": "3", "TERM": "dumb", "NO_COLOR": "1"}, [], ""),
    "coloured terminal": ({"FORCE_COLOR": "1", "TERM": "xterm-256color", "CLICOLOR_FORCE": "1"}, [], ""),
    "private umask": ({}, [], "umask 077; "),
    "open umask": ({}, [], "umask 000; "),
    "children ignored": ({}, [], "trap '' CHLD; "),
    "signals ignored": ({}, [], "trap '' HUP PIPE USR1; "),
    "closed input": ({}, [], "exec <&-; "),
    "other input": ({}, [], "exec </etc/passwd; "),
    "few descriptors": ({}, [], "ulimit -n 96; "),
    "nice": ({}, ["-s", "-B", "-X", "faulthandler"], ""),
    "temporary directory": ({"TMPDIR": "tmp dir 'é日"}, [], ""),
    "unrelated variables": ({"VIRTUAL_ENV": "/nonexistent", "CONDA_PREFIX": "/nonexistent", "PYTHONBREAKPOINT": "0",
                             "SOURCE_DATE_EPOCH": "1", "PIP_TARGET": "/nonexistent", "UV_OFFLINE": "1",
                             "VARIANT": "x", "VARIANTS": "a :: b :: c", "VARIANT_LABEL": "null",
                             "NAMESPACE": "q", "PYTHONINTMAXSTRDIGITS": "700", "DEBUG": "1", "CI": "1"}, [], ""),
}


def settings():
    out = dict(SETTINGS)
    for name, variables in LOCALES.items():
        out[f"locale {name}"] = (variables, [], "")
    return out


# the whole plugin fails or, where the module is the plugin, one part of it is wrong
FAULTS = ["", "", "\n1 / 0\n", "\nraise SystemExit('é日')\n", "\nraise Exception('é日')\n"]
MODULE_FAULTS = [
    "\ndel get_supported_configs\n", "\ndel get_all_configs\n", "\ndel namespace\n", "\nnamespace = 'other'\n",
    "\nnamespace = 'NOT valid'\n", "\ndef get_supported_configs():\n    return None\n",
    "\ndef get_supported_configs():\n    return [1]\n", "\ndef get_all_configs():\n    return {'a': 1}\n",
    "\ndef get_all_configs():\n    raise ValueError('é日')\n", "\ndef get_supported_configs():\n    return ()\n",
    "\n_bad = lambda n, v, m=False: type('C', (), {'name': n, 'values': v, 'multi_value': m})\n"
    "def get_all_configs():\n    return [_bad('f', ['v', 'v'])]\n",
    "\n_bad = lambda n, v, m=False: type('C', (), {'name': n, 'values': v, 'multi_value': m})\n"
    "def get_supported_configs():\n    return [_bad('f', ['v']), _bad('f', ['w'])]\n",
    "\n_bad = lambda n, v, m=False: type('C', (), {'name': n, 'values': v, 'multi_value': m})\n"
    "def get_supported_configs():\n    return [_bad('F', ['é'])]\n"]
SOUND = """
class _C:
    def __init__(self, name, values, multi_value=False):
        self.name, self.values, self.multi_value = name, values, multi_value

namespace = "sound"
is_aot_plugin = False

def get_all_configs():
    return [_C("f", ["v", "w"])]

def get_supported_configs():
    return [_C("f", ["w"])]
"""
TEXTS = ["", "a", "A", "a :: b", "a :: b :: c", "a::b::c ", "a :: b ::", "é", "null", "x" * 16, "x" * 17, "a.b", "a\n",
         "日本 :: b :: c", "a :: B :: c", "a_1 :: _ :: 1.0", "ı", "İ", "ß", "٣", "a :: i :: I"]


def plan(c, root):
    """Files below `root` and what to do with them."""
    rng = c.rng
    sc = Scenario(c, max_ns=4, min_ns=1, max_variants=5, reference_by_requires=False)
    doc = copy.deepcopy(sc.doc)
    plain = rng.random() < 0.3
    if not plain and sc.prov:
        c.obs("non_ascii_documents")
        for p in gen.some(rng, list(doc["providers"].values()), lo=1):
            if not p.get("requires"):
                continue
            p["requires"].append(rng.choice(["other ; extra == 'é日'", "x @ https://example.com/ü", "y ; os_name == '日本'"]))
    info = read(doc, "index")
    site = root / "site"
    site.mkdir(parents=True)
    faulty = rng.choice([0, 0, 1, 2, 9, 9, 9, 9])
    for i, (ns, p) in enumerate(sc.prov.items()):
        if p["mod"]:
            source = (sc.world.dir / f"{p['mod']}.py").read_text()
            r = rng.random()
            if r < 0.4:
                c.obs("noisy_plugins")
                source += rng.choice([
                    "\n_os.write(2, 'détecté 日本\\n'.encode())\n", "\n_os.write(2, b'\\xff\\xfe\\x80 \\n')\n",
                    "\n_os.write(1, 'trouvé 日本\\n'.encode())\n", "\n_sys.stdout.write('found\\n')\n",
                    "\nprint('found', file=_sys.stderr, flush=True)\n"])
            if faulty == i:
                c.obs("faulty_plugins")
                attr = p["api"].partition(":")[2] or None
                source += rng.choice(FAULTS)
                if attr is None:
                    source += rng.choice(MODULE_FAULTS)
            (site / f"{p['mod']}.py").write_text(source, encoding="utf8")
            env.fake_dist(site, f"dist-{i}", f"1.{i}", [(f"e{i}", p["api"].removesuffix(":"))])
    broken = []
    for i in range(4):
        k = (c.i * 4 + i) % len(MODULE_FAULTS)
        broken.append(f"broken_{c.i}_{i}")
        (site / f"{broken[-1]}.py").write_text(SOUND + MODULE_FAULTS[k], encoding="utf8")
    cwd = root / "cwd"
    cwd.mkdir()
    if (sc.cwd / "variants.toml").exists():
        (cwd / "variants.toml").write_text("# é日\n" + (sc.cwd / "variants.toml").read_text(), encoding="utf8")
    esc = rng.random() < 0.3
    (cwd / "doc.json").write_text(json.dumps(doc, ensure_ascii=esc), encoding="utf8")
    common = {k: v for k, v in doc.items() if k != "variants"}
    pp = copy.deepcopy(common)
    for ns, p in sc.prov.items():
        if p["kind"] == "aot":
            pp["static-properties"].pop(ns, None)
    text = "# ünï\n[project]\nname = \"é日\"\n" + wheels.toml({"variant": pp})
    (cwd / "pyproject.toml").write_text(text, encoding="utf8")
    nss = list(sc.prov)
    props = [list(x) for x in sc.space.desc(null=0.05)]
    out = []

    def add(op, *args, **kw):
        out.append((op, list(args), kw))

    add("select", "doc.json", enable_optional_plugins=rng.choice([False, True, gen.some(rng, nss)]))
    add("configs", "doc.json", "index", rng.choice(["get_supported_configs", "get_all_configs"]),
        include_aot_plugins=True, enable_optional_plugins=True)
    add("configs", "pyproject.toml", "pyproject", "get_supported_configs",
        include_aot_plugins=True, filter_plugins=gen.some(rng, nss))
    add("validate", "doc.json", props)
    add("check", "doc.json", props, enable_optional_plugins=True)
    add("hash", props)
    add("rewrite", "doc.json")
    add("environment", rng.choice(["lab", None]), props, None)
    add("requires", "doc.json")
    add("config")
    bad = [gen.corrupt(rng, doc, rng.randint(1, 2)) for _ in range(3)]
    good, _ = gen.document(rng, rng.choice(["index", "wheel", "pyproject"]))
    add("parse", gen.some(rng, TEXTS, lo=4, hi=8), [*[b[0] if isinstance(b, tuple) else b for b in bad], good])
    add("installed")
    add("listed", broken)
    # wheels and their index
    d = cwd / "wheels"
    d.mkdir()
    names = []
    shared = wheels.name_parts(rng)[:2]
    for lab, desc in gen.some(rng, sc.variants.items(), lo=1, hi=3):
        parts = (*shared, *wheels.name_parts(rng)[2:])
        w = wheels.make(rng, d, parts, lab, json.dumps(
            {**common, "variants": {lab: doc["variants"][lab]}}, ensure_ascii=esc))
        names.append((w.name, lab))
    (cwd / "out").mkdir()
    (cwd / "made").mkdir()
    add("cli", "generate-index-json", "-d", "wheels")
    for n, lab in names:
        add("cli", "analyze-wheel", "-i", f"wheels/{n}")
    add("cli", "analyze-wheel", "-i", "wheels/absent-1-py3-none-any.whl")
    if names:
        first = "-".join(shared)
        others = {k: v for k, v in doc["variants"].items() if k != names[0][1]}
        (cwd / "out" / f"{first}-variants.json").write_text(
            json.dumps({**common, "variants": others}, ensure_ascii=esc), encoding="utf8")
        add("cli", "add-wheel-to-index-json", "-f", f"wheels/{names[0][0]}", "-i",
            f"out/{first}-variants.json", "-o", "made")
        add("cli", "unmake-variant", "-f", f"wheels/{names[0][0]}", "-o", "made")
    base = wheels.make(rng, cwd, wheels.name_parts(rng))
    for _ in range(2):
        desc = [" :: ".join(p) for p in sc.space.desc(null=0, foreign=0)]
        add("cli", "make-variant", "-f", base.name, "-o", "made", "--no-isolation",
            *[x for p in desc for x in ("-p", p)], *(["--skip-plugin-validation"] if rng.random() < 0.5 else []))
    add("cli", "get-variant-hash", *[x for p in props for x in ("-p", " :: ".join(p))])
    add("cli", "plugins", "list")
    add("cli", "plugins", "get-configs", rng.choice(["-a", "-s"]))
    add("cli", "analyze-platform")
    add("cli", "config", "show")
    add("cli", "config", "list-paths")
    (cwd / "edit.toml").write_text(text, encoding="utf8", newline=rng.choice(["\n", "\r\n"]))
    add("cli", "update-pyproject-toml", "-f", "edit.toml",
        *[x for n in gen.some(rng, [n for n, p in sc.prov.items() if p["mod"]], lo=1, hi=2) for x in ("-a", n)],
        *[x for n in gen.some(rng, nss, hi=2) for x in ("-d", n)])
    if sc.abi_env and rng.random() < 0.7:
        extra = {"VARIANT_ABI_DEPENDENCY": sc.abi_env}
    else:
        extra = {}
    os.environ.pop("VARIANT_ABI_DEPENDENCY", None)
    tail = gen.shuffled(rng, out)
    c.distinct("plan", json.dumps(doc), str(tail)[:500])
    return tail, extra, info


def files(root):
    out = {}
    for p in sorted(root.rglob("*")):
        rel = str(p.relative_to(root))
        if p.is_dir() or "__pycache__" in rel:
            continue
        if rel.endswith(".whl"):
            try:
                with zipfile.ZipFile(p) as z:
                    out[rel] = [(i.filename, z.read(i)) for i in z.infolist()]
                continue
            except zipfile.BadZipFile:
                pass
        out[rel] = p.read_bytes()
    return out


def run(c, root, pristine, steps, extra, names, table):
    variables, flags, prefix = dict(extra), [], ""
    for n in names:
        v, f, p = table[n]
        variables.update(v)
        flags += f
        prefix += p
    if root.exists():
        shutil.rmtree(root)
    shutil.copytree(pristine, root)
    name = variables.pop("TMPDIR", "tmp")
    if "LOCPATH" in variables:
        # (the interpreter itself cannot give every file name back in a multi-byte encoding)
        name = name.encode("ascii", "replace").decode().replace("?", "x")
    tmp = c.tmp / name
    tmp.mkdir(exist_ok=True)
    result = c.tmp / "result.json"
    result.unlink(missing_ok=True)
    job = c.tmp / "plan.json"
    job.write_text(json.dumps({"plan": steps, "path": [env.REPO]}))
    e = {"PATH": os.environ["PATH"], "HOME": str(c.tmp), "LC_ALL": "C.UTF-8", "PYTHONPATH": str(root / "site"),
         "XDG_CONFIG_HOME": str(c.tmp / "xdg"), "XDG_CONFIG_DIRS": str(c.tmp / "xdgg"), "TMPDIR": str(tmp),
         "PYTHONHASHSEED": "0", "COLUMNS": "200", **variables}
    cmd = [sys.executable, *flags, str(HERE / "ambientdriver.py"), str(job), str(result)]
    if prefix:
        cmd = ["/bin/sh", "-c", prefix + 'exec "$@"', "sh", *cmd]
    p = subprocess.run(cmd, env=e, cwd=root / "cwd", stdin=subprocess.DEVNULL, capture_output=True)
    c.check(result.exists(), "the process failed under {}: {}", names, p.stderr[-1500:].decode("utf8", "replace"))
    out = json.loads(result.read_bytes())
    left = sorted(os.listdir(tmp))
    return out["results"], files(root), out["stdout"], left


def ambient(c):
    rng = c.rng
    pristine, root = c.tmp / "pristine", c.tmp / "work"
    steps, extra, _ = plan(c, pristine)
    table = settings()
    order = sorted(table)
    want, want_files, _, left = run(c, root, pristine, steps, extra, [], table)
    c.obs("plans")
    c.obs("steps", len(steps))
    c.eq(left, [], "temporary files left")
    for (op, args, kw), r in zip(steps, want):
        good = r[0] == "ok" and (op != "cli" or r[1][0] == 0)
        c.obs("steps_ok" if good else "steps_refused")
        c.obs("commands", op == "cli")
        c.obs("plugin_answers", good and op in ("select", "configs", "installed", "validate"))
    pure = order[c.i % len(order)]
    runs = [[pure], [order[(c.i * 7 + 3) % len(order)]], ["optimised twice"]]
    pick = gen.some(rng, order, lo=2, hi=3)
    while sum(1 for n in pick if "LC_ALL" in table[n][0]) > 1 or sum(1 for n in pick if "input" in n) > 1:
        pick = gen.some(rng, order, lo=2, hi=3)
    runs.append(pick)
    c.obs("combined_settings")
    for names in runs:
        got, got_files, enc, left = run(c, root, pristine, steps, extra, names, table)
        c.obs("settings")
        c.distinct("setting", *sorted(names))
        for (op, args, kw), r, w in zip(steps, got, want):
            if op == "cli" and w[0] == "ok":
                try:
                    w[1][1].encode(*enc)
                except UnicodeEncodeError:
                    continue     # cannot be printed at all
                if enc[1] == "replace":
                    w = [w[0], [w[1][0], w[1][1].encode(*enc).decode(enc[0])]]
            c.eq(r, w, f"{op} {args} {kw} under {names} (plain environment: second)")
        c.eq(left, [], f"temporary files left under {names}")
        c.eq(sorted(got_files), sorted(want_files), f"files under {names}")
        for rel, data in want_files.items():
            c.obs("files_compared")
            c.obs("archives_compared", isinstance(data, list))
            c.eq(got_files[rel], data, f"content of {rel} under {names}")
    if c.i < 2:
        c.sample({"plan": steps[:6], "settings": runs, "results": want[:3]})


WORKLOADS = [Workload(ambient, 40, 450)]
