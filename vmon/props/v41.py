"""V41 commands at work at the same time, in processes of their own, do not disturb one another."""
import contextlib
import itertools
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import time
import warnings
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Workload

RULE = ("two to six commands started at the same moment on one directory, each in a process of its own with random delays at "
        "its lines and file operations: wheels made from one wheel, to different or to the same names, made and turned back "
        "while the directory is indexed, indexes extended by several, settings edited by several while wheels are made from "
        "them; a watcher reads every wheel, index and settings file over and over meanwhile; every state seen, every output "
        "and the final files compared with those of the commands run one after another (all of them, or a part in any order "
        "where several replace one file); distinct by commands and states seen")
REQUIRED = ("together", "processes", "states_seen", "intermediate_states", "independent", "same_output", "indexes",
            "index_subsets", "added", "settings", "settings_read", "read_while_replaced", "overlaps", "real_processes",
            "created_once")
HERE = {}


def prepare(scratch):
    import variantlib
    HERE["lib"] = os.path.dirname(os.path.realpath(variantlib.__file__)) + os.sep


def content(p):
    """What a file holds (without time stamps of wheels); None: there is none."""
    p = str(p)
    try:
        if not p.endswith(".whl"):
            with open(p, "rb") as f:
                return f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return tuple((m[0], m[2]) for m in wheels.load(p))
    except FileNotFoundError:
        return None
    except (zipfile.BadZipFile, EOFError, OSError, ValueError) as e:
        return f"unreadable: {e!r}"


def watched(name):
    return name.endswith((".whl", ".json", ".toml"))


def files(d):
    out = {}
    for root, dn, fn in os.walk(d):
        dn[:] = [x for x in dn if x != "__pycache__"]
        for n in fn:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = content(p)
    return out


def here(d, argv):
    """The command in the directory: (whether it succeeded, output)."""
    old = os.getcwd()
    os.chdir(d)
    try:
        env.reset_caches()
        r = env.cli(*argv)
    finally:
        os.chdir(old)
    return r.ok, r.out, r.err + repr(r.exc)


class Alone:
    """Results of commands run one after another, remembered."""

    def __init__(self, c, base):
        self.c, self.base, self.known = c, base, {}

    def __call__(self, *seq, without=()):
        key = (tuple(map(tuple, seq)), tuple(without))
        if key not in self.known:
            d = self.c.tmp / f"alone{len(self.known)}"
            shutil.copytree(self.base, d)
            for w in without:
                (d / w).unlink()
            res = [here(d, argv) for argv in seq]
            self.known[key] = (res, files(d))
            shutil.rmtree(d)
        return self.known[key]

    def chains(self, seq, name):
        """Contents of the file after any of the commands, in any order."""
        out = {content(self.base / name): ()}
        for n in range(1, len(seq) + 1):
            for part in itertools.permutations(seq, n):
                out.setdefault(self(*part)[1].get(name), part)
        return out


def child(d, argv, seed, gate, result, delays):
    """In a forked process."""
    rng = random.Random(seed)
    lib = HERE["lib"]
    budget = [0.4 if delays else 0.0]
    chance = rng.choice([0.02, 0.1, 0.3])
    places = (lib, os.path.dirname(pathlib.__file__) + os.sep + "pathlib", zipfile.__file__, shutil.__file__)

    def pause(_frame, event, _arg):
        if event == "line" and budget[0] > 0 and rng.random() < chance:
            t = rng.choice([0.0005, 0.002, 0.01])
            budget[0] -= t
            time.sleep(t)
        return pause

    def tracer(frame, _event, _arg):
        return pause if frame.f_code.co_filename.startswith(places) else None

    try:
        os.read(gate, 1)
        t0 = time.monotonic()
        if delays:
            sys.settrace(tracer)
        try:
            out = here(d, argv)
        finally:
            sys.settrace(None)
        text = json.dumps([*out, t0, time.monotonic()])
    except BaseException as e:  # noqa: BLE001
        text = json.dumps([False, "", f"harness: {e!r}", 0, 0])
    with open(result + ".part", "w", encoding="utf8") as f:
        f.write(text)
    os.rename(result + ".part", result)
    os._exit(0)


def together(c, d, commands):
    """Runs the commands at once. ([(succeeded, output, messages)], {file: states seen})"""
    rng = c.rng
    gate, opener = os.pipe()
    pids, results, procs = [], [], {}
    for k, argv in enumerate(commands):
        result = str(c.tmp / f"result{k}")
        results.append(result)
        if rng.random() < 0.06:
            code = ("import os, sys; os.read(int(sys.argv.pop(1)), 1); from variantlib.commands.main import main; main()")
            p = subprocess.Popen([sys.executable, "-c", code, str(gate), *argv], cwd=d, pass_fds=[gate],
                                 stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            procs[k] = p
            c.obs("real_processes")
            continue
        seed, delays = rng.random(), rng.random() < 0.85
        pid = os.fork()
        if pid == 0:
            os.close(opener)
            child(d, argv, seed, gate, result, delays)
        pids.append(pid)
    seen, stamps = {}, {}

    def look():
        for root, _, fn in os.walk(d):
            for n in fn:
                if not watched(n):
                    continue
                p = os.path.join(root, n)
                k = os.path.relpath(p, d)
                try:
                    st = os.stat(p)
                except FileNotFoundError:
                    seen.setdefault(k, []).append("gone")
                    continue
                stamp = (st.st_ino, st.st_mtime_ns, st.st_size)
                if stamps.get(k) == stamp:
                    continue
                stamps[k] = stamp
                v = content(p)
                v = "gone" if v is None else v
                if v not in seen.setdefault(k, []):
                    seen[k].append(v)
        for k in list(seen):
            if not os.path.exists(os.path.join(d, k)):
                seen[k].append("gone")

    look()
    os.write(opener, b"x" * len(commands))
    os.close(opener)
    waiting, polls = set(pids), 0
    while waiting or any(p.poll() is None for p in procs.values()):
        look()
        polls += 1
        for pid in list(waiting):
            if os.waitpid(pid, os.WNOHANG)[0]:
                waiting.discard(pid)
        time.sleep(0.0005)
    look()
    os.close(gate)
    c.obs("watches", polls)
    out, spans = [], []
    for k, r in enumerate(results):
        if k in procs:
            o, e = procs[k].communicate()
            out.append((procs[k].returncode == 0, o, e))
            continue
        with open(r, encoding="utf8") as f:
            ok, o, e, t0, t1 = json.load(f)
        if e.startswith("harness:"):
            raise RuntimeError(e)
        os.unlink(r)
        out.append((ok, o, e))
        spans.append((t0, t1))
    c.obs("overlaps", sum(1 for (a, b), (x, y) in itertools.combinations(spans, 2) if a < y and x < b))
    c.obs("together")
    c.obs("processes", len(commands))
    c.obs("states_seen", sum(map(len, seen.values())))
    c.obs("intermediate_states", sum(max(0, len(v) - 1) for v in seen.values()))
    return out, seen


def show(v):
    return v if v is None or isinstance(v, str) else repr(v)[:600]


class Setting:
    def __init__(self, c):
        rng = c.rng
        self.c = c
        self.base = c.tmp / "base"
        for n in ("src", "out"):
            (self.base / n).mkdir(parents=True)
        for _ in range(8):
            self.doc, _ = gen.document(rng, "pyproject")
            if len(self.doc.get("providers", {})) > 1:
                break
        for p in self.doc.get("providers", {}).values():
            # plugins that need not be there
            p.pop("install-time", None)
            p["requires"] = p.get("requires") or ["plg"]
        self.doc.pop("static-properties", None)
        self.parts = wheels.name_parts(rng)
        self.plain = wheels.make(rng, self.base / "src", self.parts, simple=rng.random() < 0.7).name
        (self.base / "pyproject.toml").write_text(wheels.toml({"project": {"name": "x"}, "variant": self.doc}), encoding="utf8")
        self.alone = Alone(c, self.base)
        self.sp = gen.Space(rng, max_ns=2, max_feat=2, max_val=3, min_ns=1)
        # properties of declared providers only
        nss = list(self.doc.get("providers", {}))
        self.props = [(n, f, v) for n in nss for f in ("f1", "f2") for v in ("a", "b", "c")]

    def desc(self):
        rng = self.c.rng
        return tuple(sorted({p[:2]: p for p in gen.some(rng, self.props, lo=min(1, len(self.props)), hi=3)}.values()))

    def make(self, out="out", label=None, pp="pyproject.toml", desc=None):
        desc = self.desc() if desc is None else desc
        args = ["make-variant", "-f", f"src/{self.plain}", "-o", out, "--no-isolation", "--skip-plugin-validation",
                "--pyproject-toml", pp]
        args += ["-p", *(" :: ".join(p) for p in desc)] if desc else ["--null-variant"]
        return args + (["--variant-label", label] if label and desc else [])

    def do(self, argv, what="preparing"):
        ok, o, e = here(self.base, argv)
        self.c.check(ok, "{} failed: {} {} {}", what, argv, o, e)

    def begin(self):
        self.alone.known.clear()
        self.d = self.c.tmp / "work"
        shutil.copytree(self.base, self.d)
        return self.d


def agree(c, alone, commands, got, ctx):
    """Outcome and output as alone."""
    for argv, (ok, o, e) in zip(commands, got):
        (want_ok, want_o, want_e), = alone(argv)[0]
        c.check(ok == want_ok, "{} {} ({}), alone {} ({}); {}", argv, ok, e[-400:], want_ok, want_e[-300:], ctx)
        c.eq(o, want_o, f"output of {argv}; {ctx}")


def in_states(c, seen, allowed, ctx):
    """allowed: file -> contents it may have."""
    for k, states in seen.items():
        c.check(k in allowed, "file {} turned up; {}", k, ctx)
        for v in states:
            c.check(v in allowed[k], "{} was seen as {}; {}", k, show(v), ctx)


def independent(c):
    """Wheels made and turned back, each to a name of its own; the directory indexed meanwhile."""
    rng = c.rng
    s = Setting(c)
    n = rng.randint(2, 4)
    labels = gen.some(rng, ["a", "b", "lab", "x86_64", "v3.1", "zz"], lo=n, hi=n)
    descs = list(dict.fromkeys(s.desc() for _ in range(n)))
    makes = [s.make(label=lab if rng.random() < 0.8 else None, desc=dd) for lab, dd in zip(labels, descs)]
    if s.props and rng.random() < 0.3:
        # made beforehand
        s.do(s.make(label="old", desc=rng.choice([(p,) for p in s.props if (p,) not in descs] or [descs[0]])))
    olds = [p.name for p in (s.base / "out").iterdir()]
    unmakes = []
    if olds and rng.random() < 0.5:
        unmakes.append(["unmake-variant", "-f", f"out/{olds[0]}", "-o", "out"])
    indexers = [["generate-index-json", "-d", "out"] for _ in range(rng.choice([0, 1, 1, 2]))]
    readers = [["analyze-wheel", "-i", f"out/{w}"] for w in olds if rng.random() < 0.5]
    readers += [["analyze-wheel", "-i", f"src/{s.plain}"]] * (rng.random() < 0.3)
    work = s.begin()
    commands = gen.shuffled(rng, makes + unmakes + readers + indexers)
    ctx = f"together: {commands}"
    allowed = {k: [v] for k, v in files(s.base).items()}
    final = {k: v for k, v in files(s.base).items()}
    for argv in makes + unmakes:
        _, after = s.alone(argv)
        for k, v in after.items():
            if allowed.get(k) != [v]:
                allowed[k] = [v]
                final[k] = v
    key = "-".join(s.parts[:2])
    index = f"out/{key}-variants.json"
    if indexers:
        # of any part of the wheels
        subsets = []
        for k in range(len(makes) + 1):
            for part in itertools.combinations(makes, k):
                subsets.append(s.alone(*part, indexers[0])[1].get(index))
        allowed[index] = [x for x in subsets if x is not None]
    got, seen = together(c, work, commands)
    agree(c, s.alone, commands, got, ctx)
    in_states(c, seen, allowed, ctx)
    after = files(work)
    if indexers:
        c.obs("indexes", len(indexers))
        x = after.pop(index, None)
        c.check(x is None or x in allowed[index], "index {}; {}", show(x), ctx)
        c.check(x is not None or not olds, "no index though {} were there; {}", olds, ctx)
        if x is not None:
            labs = json.loads(x)["variants"]
            c.obs("index_subsets", len(labs) < len(makes) + len(olds))
            c.distinct("index", len(makes), tuple(labs))
        final.pop(index, None)
    c.eq(after, final, f"files after {ctx}")
    c.obs("independent")
    c.distinct("independent", tuple(map(tuple, commands)), tuple(sorted((k, len(v)) for k, v in seen.items())))


def same_output(c):
    """Several replace one wheel; others read it."""
    rng = c.rng
    s = Setting(c)
    if not s.props:
        return
    turn = rng.random() < 0.4
    n = rng.randint(2, 3)
    descs = [(p,) for p in gen.some(rng, s.props, lo=n, hi=n)]
    if turn:
        # different wheels turned back to the same name
        for k, dd in enumerate(descs):
            s.do(s.make("src", f"w{k}", desc=dd))
        plain = pathlib.Path(s.plain)
        # distinguishable: another wheel of the same name under each
        for k in range(len(descs)):
            t = next(p for p in (s.base / "src").iterdir() if p.name.endswith(f"-w{k}.whl"))
            with zipfile.ZipFile(t, "a") as z:
                z.writestr(f"extra{k}.txt", wheels.blob(rng) * rng.choice([1, 1, 40]))
        writers = [["unmake-variant", "-f", f"src/{p.name}", "-o", "out"]
                   for p in sorted((s.base / "src").iterdir()) if p.name != plain.name]
        target = f"out/{s.plain}"
    else:
        writers = [s.make(label="lab", desc=dd) for dd in descs]
        target = f"out/{s.plain[:-4]}-lab.whl"
    if rng.random() < 0.6:
        s.do(rng.choice(writers))
    there = (s.base / target).exists()
    s.alone.known.clear()
    readers = [["analyze-wheel", "-i", target] for _ in range(rng.randint(0, 2))] if there else []
    if there and not turn and rng.random() < 0.6:
        readers.append(["unmake-variant", "-f", target, "-o", "src"])
        # another name than the source
        (s.base / "back").mkdir()
        readers[-1][-1] = "back"
    work = s.begin()
    commands = gen.shuffled(rng, writers + readers)
    ctx = f"together: {commands}"
    before = files(s.base)
    results = {s.alone(w)[1][target]: w for w in writers}
    allowed = {k: [v] for k, v in before.items()}
    allowed[target] = [*allowed.get(target, []), *results]
    got, seen = together(c, work, commands)
    for argv, (ok, o, e) in zip(commands, got):
        c.check(ok, "{} failed: {} {}; {}", argv, o, e[-500:], ctx)
        if argv in readers:
            outs = [s.alone(argv)] + [s.alone(w, argv) for w in writers]
            c.check(o in [r[0][-1][1] for r in outs], "{} printed {}; {}", argv, o, ctx)
            c.obs("read_while_replaced")
            if argv[0] == "unmake-variant":
                back = f"back/{s.plain}"
                allowed[back] = [r[1][back] for r in outs]
    in_states(c, seen, allowed, ctx)
    after = files(work)
    c.check(after.get(target) in results, "{} is {} in the end; {}", target, show(after.get(target)), ctx)
    c.eq(sorted(after), sorted({*before, target, *(k for k in allowed if k.startswith("back/"))}), f"files after {ctx}")
    for k, v in after.items():
        c.check(v in allowed[k], "{} is {} in the end; {}", k, show(v), ctx)
    c.obs("same_output")
    c.distinct("same", turn, tuple(map(tuple, commands)), len(seen.get(target, ())))


def added(c):
    """Several wheels added to one index."""
    rng = c.rng
    s = Setting(c)
    if not s.props:
        return
    n = rng.randint(2, 3)
    descs = [(p,) for p in gen.some(rng, s.props, lo=n + 1, hi=n + 1)]
    for k, dd in enumerate(descs):
        s.do(s.make("src", f"w{k}", desc=dd))
    names = sorted(p.name for p in (s.base / "src").iterdir() if p.name != s.plain)
    key = "-".join(s.parts[:2])
    index = f"out/{key}-variants.json"
    fresh = rng.random() < 0.35
    if fresh:
        # only one may create it, unless they meet in between
        adds = [["add-wheel-to-index-json", "-f", f"src/{w}", "-o", "out"] for w in names[1:]]
    else:
        s.do(["add-wheel-to-index-json", "-f", f"src/{names[0]}", "-o", "out"])
        adds = [["add-wheel-to-index-json", "-f", f"src/{w}", "-o", "out", "-i", index, "-w"] for w in names[1:]]
        if rng.random() < 0.3:
            adds.append(["add-wheel-to-index-json", "-f", f"src/{names[0]}", "-o", "out", "-w"])
    work = s.begin()
    ctx = f"together: {adds}"
    before = files(s.base)
    if fresh:
        for a in adds:
            c.check(s.alone(a)[0][0][0], "{} fails alone: {}", a, s.alone(a)[0])
        states = {s.alone(a)[1][index] for a in adds}
    else:
        states = set(s.alone.chains(adds, index))
    allowed = {k: [v] for k, v in before.items()}
    allowed[index] = [*allowed.get(index, []), *states]
    commands = gen.shuffled(rng, adds)
    got, seen = together(c, work, commands)
    for argv, (ok, o, e) in zip(commands, got):
        if fresh:
            c.check(ok or "exists" in e, "{} failed: {}; {}", argv, e[-400:], ctx)
        else:
            c.check(ok, "{} failed: {} {}; {}", argv, o, e[-500:], ctx)
    c.check(any(g[0] for g in got), "none of {} created it: {}", adds, got)
    c.obs("created_once", fresh)
    in_states(c, seen, allowed, ctx)
    after = files(work)
    c.check(after.get(index) in states, "{} is {} in the end; {}", index, show(after.get(index)), ctx)
    after.pop(index)
    before.pop(index, None)
    c.eq(after, before, f"other files after {ctx}")
    c.obs("added")
    c.distinct("added", fresh, tuple(map(tuple, commands)), len(seen.get(index, ())))


def settings(c):
    """Several edit one pyproject.toml; wheels are made from it meanwhile."""
    rng = c.rng
    s = Setting(c)
    nss = list(s.doc.get("providers", {}))
    if len(nss) < 2:
        return
    n = rng.randint(2, min(3, len(nss)))
    edits = [["update-pyproject-toml", "-d", x] for x in gen.some(rng, nss, lo=n, hi=n)]
    makes = [s.make(label=f"m{k}", desc=s.desc()) for k in range(rng.randint(0, 2))] if s.props else []
    work = s.begin()
    commands = gen.shuffled(rng, edits + makes)
    ctx = f"together: {commands}"
    before = files(s.base)
    name = "pyproject.toml"
    chains = s.alone.chains(edits, name)
    if not all(r[0] for r in s.alone(*edits)[0]):
        return
    allowed = {k: [v] for k, v in before.items()}
    allowed[name] = list(chains)
    for m in makes:
        for part in chains.values():
            for k, v in s.alone(*part, m)[1].items():
                if k not in before:
                    allowed.setdefault(k, []).append(v)
    got, seen = together(c, work, commands)
    for argv, (ok, o, e) in zip(commands, got):
        if argv in makes:
            outcomes = [s.alone(*part, argv)[0][-1][:2] for part in chains.values()]
            c.check((ok, o) in outcomes, "{} {} {} {}; {}", argv, ok, o, e[-400:], ctx)
            c.obs("settings_read")
        else:
            c.check(ok, "{} failed: {} {}; {}", argv, o, e[-500:], ctx)
    in_states(c, seen, allowed, ctx)
    after = files(work)
    c.check(after[name] in [v for v in chains if chains[v]], "{} is {} in the end; {}", name, show(after[name]), ctx)
    for k, v in after.items():
        c.check(k in allowed and v in allowed[k], "{} is {} in the end; {}", k, show(v), ctx)
    c.check(set(before) <= set(after), "files removed by {}", ctx)
    c.obs("settings")
    c.distinct("settings", tuple(map(tuple, commands)), len(seen[name]))


WORKLOADS = [Workload(independent, 90, 1600), Workload(same_output, 90, 1600), Workload(added, 80, 1400),
             Workload(settings, 70, 1200)]
