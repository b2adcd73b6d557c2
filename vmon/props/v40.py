"""V40 what a command does depends on the meaning of its arguments only; wrong ones are refused before anything is done."""
import contextlib
import copy
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys

from vmon import env, gen, wheels
from vmon.core import Workload
from vmon.lib import VD
from vmon.scenario import Scenario

RULE = ("every command over random worlds, run with its arguments in the plain form and again in other forms of the same "
        "meaning (short, long, attached and joined options, any order, lists split over repeated options, defaults given "
        "or left out, other spellings of the paths): same outcome, output and files; wrong arguments (a required one "
        "missing, unknown options, values or commands, an excess or missing value, exclusive options, ill-formed "
        "properties and labels) refused with status 2 and usage, nothing printed, written or consulted; help and version; "
        "exit statuses of real processes; distinct by command and arguments")
COMMANDS = ("make-variant", "unmake-variant", "generate-index-json", "add-wheel-to-index-json", "analyze-wheel",
            "get-variant-hash", "analyze-platform", "plugins list", "plugins get-configs", "config show", "config list-paths",
            "update-pyproject-toml")
REQUIRED = ("forms", "succeeded", "failed_alike", "wrong", "wrong_required", "wrong_unknown", "wrong_excess", "wrong_value",
            "wrong_exclusive", "wrong_choice", "help", "version", "hopeless", "statuses", "status_ok", "status_failed", "status_usage",
            "split_lists", "defaults", "unconsulted", *("ran " + x for x in COMMANDS))

# every option: (names, kind); kinds: path, text, list, flag, choice
OPTIONS = {
    "make-variant": {"file": ("-f", "--file"), "out": ("-o", "--output-directory"), "noiso": ("--no-isolation",),
                     "installer": ("--installer",), "prop": ("-p", "--property"), "null": ("--null-variant",),
                     "skip": ("--skip-plugin-validation",), "pp": ("--pyproject-toml",), "label": ("--variant-label",)},
    "unmake-variant": {"file": ("-f", "--file"), "out": ("-o", "--output-directory")},
    "generate-index-json": {"dir": ("-d", "--directory")},
    "add-wheel-to-index-json": {"file": ("-f", "--wheel-file"), "in": ("-i", "--input-json-file"),
                                "out": ("-o", "--output-directory"), "over": ("-w", "--overwrite")},
    "analyze-wheel": {"file": ("-i", "--input_file")},
    "get-variant-hash": {"prop": ("-p", "--property")},
    "analyze-platform": {},
    "plugins list": {},
    "plugins get-configs": {"all": ("-a", "--all"), "sup": ("-s", "--supported"), "ns": ("-n", "--namespace"),
                            "feat": ("-f", "--feature")},
    "config show": {},
    "config list-paths": {"verbose": ("-v", "--verbose")},
    "update-pyproject-toml": {"file": ("-f", "--file"), "add": ("-a", "--add"), "delete": ("-d", "--delete")},
}


class World:
    """A directory with everything the commands work on, and plugins that are installed."""

    def __init__(self, c, plugins=True):
        rng = c.rng
        self.c, self.sc = c, Scenario(c, plugins=plugins, max_ns=3, min_ns=1, max_variants=4, config=False)
        sc = self.sc
        self.base = c.tmp / "base"
        for n in ("src", "out", "other"):
            (self.base / n).mkdir(parents=True)
        src = self.base / "src"
        self.plain = wheels.make(rng, src, simple=True).name
        doc, _ = gen.document(rng, "wheel")
        self.label = next(iter(doc["variants"]))
        self.parts = wheels.name_parts(rng)
        self.variant = wheels.make(rng, src, self.parts, self.label, json.dumps(doc), simple=True).name
        common = {k: v for k, v in copy.deepcopy(sc.doc).items() if k != "variants"}
        (self.base / "pyproject.toml").write_text(wheels.toml({"project": {"name": "x"}, "variant": common}), encoding="utf8")
        shutil.copy(self.base / "pyproject.toml", self.base / "other" / "pp.toml")
        (self.base / "index.json").write_text(json.dumps({**doc, "variants": {}}))
        (self.base / "broken.json").write_text("{")
        (self.base / "src" / "noise.txt").write_text("x")
        # settings of other directories, which nobody mentions
        for n in ("src", "out", "other"):
            if rng.random() < 0.7:
                (self.base / n / "pyproject.toml").write_text("[variant.providers.astray]\nrequires = ['astray']\n"
                                                              "[variant.default-priorities]\nnamespace = ['astray']\n")
        self.entries = []
        site = c.tmp / "site"
        site.mkdir()
        for i, (ns, p) in enumerate(sc.prov.items()):
            if p["mod"]:
                env.fake_dist(site, f"dist-{i}", "1", [(f"e{i}", p["api"].removesuffix(":"))])
                self.entries.append(ns)
        sys.path.insert(0, str(site))
        self.runs = 0

    def run(self, command, argv, real=False):
        """Outcome in a copy of the directory: (status, output, files)."""
        self.runs += 1
        env.reset_caches()
        d = self.c.tmp / f"run{self.runs}"
        shutil.copytree(self.base, d)
        old = os.getcwd()
        os.chdir(d)
        try:
            args = [*command.split(), *(a.replace("\0", str(d)) for a in argv)]
            if real:
                p = subprocess.run([sys.executable, "-c", "from variantlib.commands.main import main; main()", *args],
                                   capture_output=True, text=True, stdin=subprocess.DEVNULL)
                status, out, err = p.returncode, p.stdout, p.stderr
            else:
                r = env.cli(*args)
                status = (0 if r.ok else r.exc.code if isinstance(r.exc, SystemExit) else type(r.exc).__name__)
                out, err = r.out, r.err
        finally:
            os.chdir(old)
        files = content(d)
        shutil.rmtree(d)
        return status, out.replace(str(d), "."), err, files


def content(d):
    out = {}
    for root, dn, fn in os.walk(d):
        for n in [*dn, *fn]:
            p = os.path.join(root, n)
            k = os.path.relpath(p, d)
            if "__pycache__" in k:
                continue
            if os.path.isdir(p):
                out[k] = None
            elif n.endswith(".whl"):
                # the time stamp of the document written is not the same twice
                try:
                    out[k] = [(m[0], m[2]) for m in wheels.load(p)]
                except Exception:  # noqa: BLE001
                    out[k] = pathlib.Path(p).read_bytes()
            else:
                out[k] = pathlib.Path(p).read_bytes()
    return out


def paths(rng, p, plain):
    """Another spelling of a relative path."""
    if plain:
        return p
    return rng.choice([p, f"./{p}", f"\0/{p}", f"src/../{p}", f"out//..//{p}"])


def invocation(w, command):
    """[(option key, values)] with paths marked; the meaning of the call. Positional arguments have key None."""
    rng, sc = w.c.rng, w.sc
    P = lambda p: ("path", p)  # noqa: E731
    T = lambda t: ("text", t)  # noqa: E731
    if command == "make-variant":
        out = [("file", [P(f"src/{w.plain}")]), ("out", [P("out")]), ("noiso", [])]
        props = [" :: ".join(p) for p in sc.space.desc(null=0.1)]
        if rng.random() < 0.3:
            out.append(("installer", [T(rng.choice(["pip", "uv"]))]))
        if props and rng.random() < 0.85:
            out.append(("prop", [T(p) for p in props]))
            if rng.random() < 0.3:
                out.append(("label", [T(rng.choice(["lab", "x86_64.v3", "1"]))]))
        else:
            out.append(("null", []))
        if rng.random() < 0.5:
            out.append(("skip", []))
        if rng.random() < 0.5:
            out.append(("pp", [P(rng.choice(["pyproject.toml", "other/pp.toml"]))]))
        return out
    if command == "unmake-variant":
        return [("file", [P(f"src/{rng.choice([w.variant, w.variant, w.plain])}")]), ("out", [P(rng.choice(["out", "other"]))])]
    if command == "generate-index-json":
        return [("dir", [P(rng.choice(["src", "src", "out", "missing"]))])]
    if command == "add-wheel-to-index-json":
        out = [("file", [P(f"src/{w.variant}")]), ("out", [P(rng.choice(["out", "src", "nowhere"]))])]
        if rng.random() < 0.6:
            out.append(("in", [P(rng.choice(["index.json", "index.json", "broken.json"]))]))
        if rng.random() < 0.5:
            out.append(("over", []))
        return out
    if command == "analyze-wheel":
        return [("file", [P(f"src/{rng.choice([w.variant, w.variant, w.plain, 'none.whl', 'noise.txt'])}")])]
    if command == "get-variant-hash":
        props = [" :: ".join(p) for p in sc.space.desc(null=0.2)]
        return [("prop", [T(p) for p in props])] if props else []
    if command == "plugins get-configs":
        out = [(rng.choice(["all", "sup"]), [])]
        if rng.random() < 0.5:
            out.append(("ns", [T(rng.choice([*w.entries, "none"]))]))
        if rng.random() < 0.5:
            out.append(("feat", [T(rng.choice([f for fs in sc.space.tree.values() for f in fs] or ["f"]))]))
        return out
    if command == "config show":
        return [(None, [T(rng.choice(["LOCAL", "USER", "GLOBAL", "VIRTUALENV"]))])] if rng.random() < 0.4 else []
    if command == "config list-paths":
        return [("verbose", [])] if rng.random() < 0.4 else []
    if command == "update-pyproject-toml":
        out = [("file", [P(rng.choice(["pyproject.toml", "pyproject.toml", "other/pp.toml"]))])]
        declared = list(sc.doc.get("providers", {}))
        adds = gen.some(rng, w.entries, hi=2)
        dels = [n for n in gen.some(rng, declared, hi=2) if n not in adds]
        if adds:
            out.append(("add", [T(a) for a in adds]))
        if dels or not adds:
            out.append(("delete", [T(a) for a in dels or ["absent"]]))
        return out
    return []


LISTS = {"prop", "add", "delete"}
DEFAULTS = {("make-variant", "pp"): "pyproject.toml", ("update-pyproject-toml", "file"): "pyproject.toml"}


def render(c, command, call, plain):
    """The arguments in the plain form (long options in the given order) or another form of the same meaning."""
    rng = c.rng
    names = OPTIONS[command]
    call = list(call)
    if not plain:
        for (cmd, key), default in DEFAULTS.items():
            if cmd != command:
                continue
            given = next((x for x in call if x[0] == key), None)
            if given is None and rng.random() < 0.5:
                call.append((key, [("path", default)]))
                c.obs("defaults")
            elif given and given[1][0][1] == default and rng.random() < 0.5:
                call.remove(given)
                c.obs("defaults")
        rng.shuffle(call)
        # a list takes everything up to the next option
        call.sort(key=lambda x: x[0] is not None)
    out = []
    groups = []
    for key, values in call:
        vals = [paths(rng, v, plain) if k == "path" else v for k, v in values]
        if key in LISTS and not plain and len(vals) > 1 and rng.random() < 0.6:
            cut = rng.randint(1, len(vals) - 1)
            groups += [(key, vals[:cut]), (key, vals[cut:])]
            c.obs("split_lists")
        else:
            groups.append((key, vals))
    # parts of one list stay in their order, but other options may come in between
    for key, vals in groups:
        if key is None:
            out += vals
            continue
        name = names[key][-1] if plain else rng.choice(names[key])
        if plain or not vals:
            out += [name, *vals]
        elif len(vals) == 1 and rng.random() < 0.5:
            out.append(f"{name}={vals[0]}" if name.startswith("--") else f"{name}{vals[0]}")
        else:
            out += [name, *vals]
    return out


def forms(c):
    rng = c.rng
    w = World(c)
    for _ in range(3):
        command = rng.choice(COMMANDS)
        call = invocation(w, command)
        argv = render(c, command, call, True)
        w.sc.world.events()
        want = w.run(command, argv)
        c.obs("ran " + command)
        c.obs("succeeded" if want[0] == 0 else "failed_alike")
        for _ in range(3):
            other = render(c, command, call, False)
            got = w.run(command, other)
            c.obs("forms")
            what = f"{command} {other} against {argv}"
            c.eq(got[0], want[0], f"status of {what}: {got[2][-400:]} / {want[2][-400:]}")
            if command == "update-pyproject-toml":      # repeats the path as given
                c.eq(got[1].split(" to ")[0], want[1].split(" to ")[0], f"output of {what}")
            else:
                c.eq(got[1], want[1], f"output of {what}")
            c.eq({k: v for k, v in got[3].items() if want[3].get(k, 0) != v}, {}, f"files after {what}")
            c.eq(set(got[3]), set(want[3]), f"names of files after {what}")
            c.distinct(command, tuple(a.replace("\0", "") for a in other))
    w.sc.world.events()


def spoiled(c, w, command):
    """Arguments that are wrong: (arguments, kind)."""
    rng = c.rng
    call = invocation(w, command)
    names = OPTIONS[command]
    required = {"make-variant": ["file", "out", "prop null"], "unmake-variant": ["file", "out"], "generate-index-json": ["dir"],
                "add-wheel-to-index-json": ["file", "out"], "analyze-wheel": ["file"], "plugins get-configs": ["all sup"],
                "update-pyproject-toml": ["add delete"]}.get(command, [])
    kinds = ["unknown", "excess"]
    kinds += ["required"] * 2 * bool(required)
    if any(v for _, v in call):
        kinds += ["value"] * 2
    kinds += {"make-variant": ["exclusive", "choice", "text", "label"], "plugins get-configs": ["exclusive"],
              "get-variant-hash": ["text"], "config show": ["choice"]}.get(command, []) * 2
    kind = rng.choice(kinds)
    if kind == "required":
        gone = rng.choice(required).split()
        call = [x for x in call if x[0] not in gone]
        if command == "make-variant" and "prop" in gone:
            call = [x for x in call if x[0] != "label"]
    argv = render(c, command, call, rng.random() < 0.5)
    if kind == "unknown":
        argv.insert(rng.choice([0, len(argv)]), rng.choice(["--bogus", "--bogus=1", "-Z", "--dry-run"]))
    elif kind == "excess":
        # lists take what follows them, so it comes first
        argv = [*rng.choice([["stray"], ["a.whl", "b.whl"]]), *argv] if command != "config show" else ["LOCAL", "USER"]
    elif kind == "value":
        key = rng.choice([k for k, v in call if v and k] or [None])
        if key is None:
            argv, kind = ["--bogus"], "unknown"
        else:
            argv = [*render(c, command, [x for x in call if x[0] != key], True), rng.choice(names[key])]
    elif kind == "exclusive":
        if command == "make-variant":
            argv = render(c, command, [x for x in call if x[0] not in ("prop", "null", "label")], True)
            argv += gen.shuffled(rng, [("--null-variant",), ("-p", "a :: b :: c")])[0]
            argv += ["--null-variant"] if "-p" in argv else ["-p", "a :: b :: c"]
        else:
            argv = [*argv, "-a", "-s"]
    elif kind == "choice":
        argv = ["local"] if command == "config show" else [*[a for a in argv if not a.startswith("--installer")],
                                                           f"--installer={rng.choice(['conda', 'PIP', ''])}"]
        argv = [a for a in argv if a not in ("pip", "uv")]
    elif kind == "text":
        if command == "make-variant":
            argv = render(c, command, [x for x in call if x[0] not in ("prop", "null", "label")], True)
        argv = [*argv, "-p", *gen.shuffled(rng, ["a :: b :: c", rng.choice(["a :: b", "A :: b :: c", "a :: b :: c :: d", "", "a:b:c",
                                                                           "a :: b :: c\u00e9"])])]
    elif kind == "label":
        argv = render(c, command, [x for x in call if x[0] not in ("prop", "null", "label")], True)
        if rng.random() < 0.3:
            argv += ["--null-variant", "--variant-label", rng.choice(["lab", "null"])]
        else:
            argv += ["-p", "a :: b :: c", "--variant-label",
                     rng.choice(["null", "UPPER", "x" * 17, "", "a-b", "a b", "lab\n", "\u00e9"])]
    return argv, kind


WRONG = {"required": "wrong_required", "unknown": "wrong_unknown", "excess": "wrong_excess", "value": "wrong_value",
         "exclusive": "wrong_exclusive", "choice": "wrong_choice", "text": "wrong_text", "label": "wrong_label"}


def wrong(c):
    rng = c.rng
    w = World(c)
    before = content(w.base)
    for _ in range(5):
        command = rng.choice(COMMANDS)
        argv, kind = spoiled(c, w, command)
        w.sc.world.events()
        status, out, err, files = w.run(command, argv)
        what = f"{command} {argv} ({kind})"
        c.eq(status, 2, f"status of {what}: {err[-300:]}")
        c.eq(out, "", f"output of {what}")
        c.check("usage" in err.lower(), "no usage shown by {}: {}", what, err)
        c.eq(files, before, f"files after {what}")
        if not command.startswith("plugins"):       # these load the plugins before looking further
            c.eq([e for e in w.sc.world.events()], [], f"plugins consulted by {what}")
            c.obs("unconsulted")
        w.sc.world.events()
        c.obs("wrong")
        c.obs(WRONG[kind])
        c.distinct(command, kind, tuple(argv))


def told(c):
    """Help and version."""
    rng = c.rng
    w = World(c, plugins=False)
    before = content(w.base)
    command = COMMANDS[c.i % len(COMMANDS)]
    call = invocation(w, command)
    argv = [*(render(c, command, call, True) if rng.random() < 0.3 else []), rng.choice(["-h", "--help"])]
    status, out, err, files = w.run(command, argv)
    c.eq((status, files == before), (0, True), f"{command} {argv}: {err}")
    for names in OPTIONS[command].values():
        for n in names:
            c.check(re.search(rf"(?<![\w-]){re.escape(n)}(?![\w-])", out), "{} not mentioned by the help of {}: {}", n, command, out)
    c.obs("help")
    import variantlib
    for argv in (["--version"], ["-v"]):
        status, out, err, files = w.run("", argv)
        c.eq((status, files == before), (0, True), f"{argv}: {err}")
        c.check(variantlib.__version__ in out, "version {} not in {}", variantlib.__version__, out)
        c.obs("version")
    for top, subs in (("", [x.split()[0] for x in COMMANDS]), ("plugins", ["list", "get-configs"]), ("config", ["show", "list-paths"])):
        status, out, err, files = w.run(top, ["--help"])
        c.eq((status, files == before), (0, True), f"{top} --help")
        c.eq([s for s in subs if s not in out], [], f"commands not mentioned by {top} --help")
        for bad in (["bogus"], [], [rng.choice(subs).upper()]):
            status, out, err, files = w.run(top, bad)
            c.eq((status, out, files == before), (2, "", True), f"{top} {bad}: {err}")
            c.check("usage" in err.lower(), "no usage shown by {} {}: {}", top, bad, err)
            c.obs("wrong_command")
    c.distinct(command, tuple(argv))


def statuses(c):
    """Processes of their own."""
    rng = c.rng
    w = World(c, plugins=False)
    command = rng.choice([x for x in COMMANDS if x not in ("analyze-platform", "plugins list", "plugins get-configs")])
    call = invocation(w, command)
    argv = render(c, command, call, False)
    want = w.run(command, argv)
    got = w.run(command, argv, real=True)
    if want[0] == 0:
        c.eq(got[0], 0, f"status of {command} {argv}: {got[2][-500:]}")
        c.obs("status_ok")
    else:
        c.check(got[0] != 0, "{} {} failed with status 0", command, argv)
        c.check(got[2].strip(), "{} {} failed without a message", command, argv)
        c.obs("status_usage" if want[0] == 2 else "status_failed")
    c.eq(got[1], want[1], f"output of {command} {argv}")
    c.eq(got[3], want[3], f"files after {command} {argv}")
    argv, kind = spoiled(c, w, command)
    got = w.run(command, argv, real=True)
    c.eq((got[0], got[1]), (2, ""), f"{command} {argv}: {got[2][-300:]}")
    c.obs("status_usage")
    c.obs("statuses")
    c.distinct("status", command, tuple(argv))


def hopeless(c):
    """What cannot be done fails: a status other than 0, a message, nothing done."""
    rng = c.rng
    w = World(c, plugins=False)
    before = content(w.base)
    v, pl = f"src/{w.variant}", f"src/{w.plain}"
    make = ["--no-isolation", "--null-variant"]
    cases = [
        ("generate-index-json", ["-d", "missing"]), ("generate-index-json", ["-d", "src/noise.txt"]), ("generate-index-json", ["-d", pl]),
        ("analyze-wheel", ["-i", "src/none-1-py3-none-any-lab.whl"]), ("analyze-wheel", ["-i", "src/noise.txt"]), ("analyze-wheel", ["-i", "src"]),
        ("make-variant", ["-f", "src/none-1-py3-none-any.whl", "-o", "out", *make]),
        ("make-variant", ["-f", "src/noise.txt", "-o", "out", *make]),
        ("make-variant", ["-f", "src", "-o", "out", *make]),
        ("make-variant", ["-f", pl, "-o", "missing", *make]), ("make-variant", ["-f", pl, "-o", "src/noise.txt", *make]),
        ("make-variant", ["-f", pl, "-o", "out", "--pyproject-toml", "missing.toml", *make]),
        ("make-variant", ["-f", pl, "-o", "out", "--pyproject-toml", "broken.json", *make]),
        ("make-variant", ["-f", pl, "-o", "out", "--no-isolation", "-p", "nowhere :: known :: x"]),
        ("unmake-variant", ["-f", "src/none-1-py3-none-any-lab.whl", "-o", "out"]),
        ("unmake-variant", ["-f", "src/noise.txt", "-o", "out"]), ("unmake-variant", ["-f", "src", "-o", "out"]),
        ("unmake-variant", ["-f", v, "-o", "missing"]), ("unmake-variant", ["-f", v, "-o", "src/noise.txt"]),
        ("add-wheel-to-index-json", ["-f", "src/none-1-py3-none-any-lab.whl", "-o", "out"]),
        ("add-wheel-to-index-json", ["-f", pl, "-o", "out"]), ("add-wheel-to-index-json", ["-f", "src/noise.txt", "-o", "out"]),
        ("add-wheel-to-index-json", ["-f", v, "-o", "missing"]), ("add-wheel-to-index-json", ["-f", v, "-o", "src/noise.txt"]),
        ("add-wheel-to-index-json", ["-f", v, "-o", "out", "-i", "missing.json"]),
        ("add-wheel-to-index-json", ["-f", v, "-o", "out", "-i", "broken.json"]),
        ("add-wheel-to-index-json", ["-f", v, "-o", "out", "-i", "src"]),
        ("update-pyproject-toml", ["-f", "missing.toml", "-a", "x"]), ("update-pyproject-toml", ["-f", "broken.json", "-d", "x"]),
        ("update-pyproject-toml", ["-f", "src", "-d", "x"]),
        ("update-pyproject-toml", ["-a", "no_such_namespace_installed"]),
        ("config show", ["NOWHERE"]), ("plugins bogus", []), ("config bogus", []), ("bogus", []),
    ]
    for k, (command, argv) in enumerate(gen.some(rng, cases, lo=9, hi=9)):
        real = k < 2
        status, out, err, files = w.run(command, argv, real=real)
        what = f"{command} {argv}"
        c.check(status != 0, "{} ended with status 0: {} {}", what, out[-300:], err[-300:])
        c.eq(out, "", f"output of {what}")
        c.check(err.strip() or not real and isinstance(status, str), "no message from {}", what)
        c.eq(files, before, f"files after {what}")
        c.obs("hopeless")
        c.distinct("hopeless", command, tuple(argv))


WORKLOADS = [Workload(forms, 110, 1800), Workload(wrong, 110, 2200), Workload(told, 12, 60), Workload(statuses, 24, 300),
             Workload(hopeless, 40, 400)]
