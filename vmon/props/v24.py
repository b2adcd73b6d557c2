"""V24 faults at every file operation of a conversion; hostile inputs."""
import errno
import json
import os
import pathlib
import shutil
import subprocess
import sys
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Inconclusive, Workload
from vmon.props.v22 import old_document, prop_args

RULE = ("making, remaking and unmaking wheels (to another directory, in place, over existing files) with "
        "a fault at every file operation in turn: error, disk full from then on, kill, kill in the middle "
        "of a write, interrupt, short read or write (injected below the interpreter by a preloaded "
        "library); corrupted and truncated wheels, failing plugins; distinct by scenario, operation and fault")
REQUIRED = ("runs", "faults_fired", "killed", "failed_cleanly", "succeeded", "old_output_survived",
            "complete_outputs", "in_place", "make", "unmake", "remake", "corrupt_refused",
            "corrupt_converted", "plugin_failures")
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["a kill stops the process only: what it wrote reaches the disk (no power loss)"]

HERE = pathlib.Path(__file__).resolve().parent.parent
LIB = None
MODES = {"quick": [("fail", [errno.EIO]), ("fail_writes_from", [errno.ENOSPC]), ("kill", [0]),
                   ("torn_kill", [0]), ("sigint", [0]), ("short", [0])],
         "thorough": [("fail", [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EINTR]),
                      ("fail_writes_from", [errno.ENOSPC, errno.EDQUOT]),
                      ("kill", [0]), ("torn_kill", [0]), ("sigint", [0]), ("short", [0])]}


def prepare(scratch):
    global LIB
    LIB = os.path.join(scratch, "faultio.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", LIB, str(HERE / "native/faultio.c"), "-ldl"],
                   check=True)


def wheel_files(files):
    return {n: h for n, h in files.items() if n.endswith(".whl")}


def faults(c):
    rng = c.rng
    if LIB is None:
        prepare(str(c.tmp))
    pristine, keep = c.tmp / "pristine", c.tmp / "keep"
    keep.mkdir()
    for d in (pristine, pristine / "in", pristine / "out"):
        d.mkdir()
    (pristine / "pyproject.toml").write_text("[project]\nname = 'x'\n")
    op = ("make", "unmake", "remake")[c.i % 3]
    parts = wheels.name_parts(rng)
    old = None if op == "make" else rng.choice(["null", gen.label(rng)])
    w = wheels.make(rng, pristine / "in", parts, old, old_document(rng, old) if old else None,
                    simple=rng.random() < 0.5, nfiles=rng.randint(0, 4))
    orig = wheels.load(w)
    d = label = None
    if op != "unmake":
        d = gen.Space(rng, min_ns=1).desc(null=0.2)
        label = model.default_label(d)
        if d and rng.random() < 0.4:
            label = gen.label(rng)
    dest = rng.choice(["out", "in"])
    if op == "remake" and c.i % 2:
        # in place: the output is the input itself
        dest, label = "in", old
        d = () if old == "null" else gen.Space(rng, min_ns=1).desc(null=0)
    target = wheels.join(parts, label)
    tpath = f"{dest}/{target}"
    existing = rng.choice([None, "junk", "wheel"])
    if not (pristine / tpath).exists() and existing:
        (pristine / tpath).write_bytes(b"junk" * 300)
        if existing == "wheel":
            wheels.write(pristine / tpath, wheels.contents(rng, parts, old_document(rng, label) if label else None))
    if rng.random() < 0.3:
        (pristine / dest / "other-1-py3-none-any.whl").write_bytes(b"unrelated")
    if op == "unmake":
        args = ["unmake-variant", "-f", f"in/{w.name}", "-o", dest]
    else:
        args = ["make-variant", "-f", f"in/{w.name}", "-o", dest, "--no-isolation",
                "--skip-plugin-validation", *prop_args(rng, d)]
        if d and label != model.default_label(d):
            args += ["--variant-label", label]
    work = c.tmp / "work"
    job = {"path": [p for p in sys.path if p], "args": args, "work": str(work), "pristine": str(pristine),
           "keep": str(keep), "modes": MODES[c.tier]}
    before = {str(p.relative_to(pristine)): None for p in pristine.rglob("*") if p.is_file()}
    import hashlib
    for n in before:
        before[n] = hashlib.sha256((pristine / n).read_bytes()).hexdigest()
    environ = {**os.environ, "LD_PRELOAD": LIB}
    p = subprocess.run([sys.executable, str(HERE / "faultdriver.py")], input=json.dumps(job).encode(),
                       capture_output=True, env=environ, timeout=240)
    try:
        results = json.loads(p.stdout)
    except ValueError:
        raise Inconclusive(f"fault driver failed: {p.returncode} {p.stderr[-2000:]!r}") from None
    ctx0 = f"{op} {args} ({'replacing the input' if tpath == 'in/' + w.name else 'existing: ' + str(existing)})"
    good = {}

    def complete(h, ctx):
        """Is this content the complete correct result?"""
        if h not in good:
            try:
                with zipfile.ZipFile(keep / h) as z:
                    ok = z.testzip() is None
            except Exception as e:  # noqa: BLE001
                good[h] = f"unreadable: {type(e).__name__}: {e}"
                return good[h]
            if not ok:
                good[h] = "wrong checksum"
                return good[h]

            def judge(data):
                got = model.read_document(json.loads(data), "wheel", label)
                c.eq(got["variants"], {label: d}, f"variant recorded; {ctx}")
            from vmon.core import Violation
            try:
                wheels.same_but_doc(c, wheels.load(keep / h), orig, ctx, None if op == "unmake" else judge)
                good[h] = None
            except Violation as e:
                good[h] = e.msg
        return good[h]
    base = results[0]
    c.check(base["exit"] == 0, f"fails without any fault: {ctx0}")
    c.check(base["count"] > 5, f"{base['count']} operations seen: {ctx0}")
    c.obs(op)
    c.obs("in_place", tpath == "in/" + w.name)
    for r in results:
        c.obs("runs")
        ctx = (f"{ctx0} with {r['mode']} at operation {r['k']} of {base['trace']} "
               f"({errno.errorcode.get(r['errno'], '-')}), exit {r['exit']}")
        if r["mode"] != "count" and r["fired"]:
            c.obs("faults_fired")
            c.distinct(ctx0, r["mode"], r["k"], r["errno"])
        if r["exit"] < 0:
            c.obs("killed")
            c.check(r["mode"] in ("kill", "torn_kill"), f"crashed: {ctx}")
        elif r["exit"] == 0:
            c.obs("succeeded")
            c.check(tpath in r["files"], f"success reported, but there is no {tpath}; {ctx}")
            bad = complete(r["files"][tpath], ctx)
            c.check(bad is None, f"success reported, but the result is bad: {bad}; {ctx}")
        else:
            c.obs("failed_cleanly")
        inp = f"in/{w.name}"
        if inp != tpath:
            c.eq(r["files"].get(inp), before[inp], f"input wheel; {ctx}")
        for n, h in wheel_files(r["files"]).items():
            if before.get(n) == h:
                c.obs("old_output_survived", n == tpath)
                continue
            c.check(n == tpath, f"unexpected wheel {n}; {ctx}")
            bad = complete(h, ctx)
            c.check(bad is None, f"{n} is neither as before nor complete: {bad}; {ctx}")
            c.obs("complete_outputs")
        for n, h in before.items():
            c.check(n in r["files"], f"{n} is gone; {ctx}")
            if n != tpath:
                c.eq(r["files"][n], h, f"{n}; {ctx}")
    c.sample({"scenario": ctx0, "operations": base["trace"], "runs": len(results)})


def corrupt(c):
    """Damaged inputs: refused without writing, or converted completely."""
    rng = c.rng
    pt = c.tmp / "pyproject.toml"
    pt.write_text("[project]\nname = 'x'\n")
    src, out = c.tmp / "src", c.tmp / "out"
    src.mkdir()
    out.mkdir()
    parts = wheels.name_parts(rng)
    op = rng.choice(["make", "unmake", "remake"])
    old = None if op == "make" else rng.choice(["null", gen.label(rng)])
    w = wheels.make(rng, src, parts, old, old_document(rng, old) if old else None, nfiles=rng.randint(0, 4))
    good = w.read_bytes()
    d = gen.Space(rng, min_ns=1).desc(null=0.2)
    label = model.default_label(d) if op != "unmake" else None
    target = out / wheels.join(parts, label)
    for _ in range(25):
        b = bytearray(good)
        how = rng.choice(["flip", "flip", "flip", "truncate", "zero", "insert", "prefix"])
        pos = rng.randrange(len(b))
        if rng.random() < 0.5:   # the directory at the end is the more interesting part
            pos = rng.randrange(max(0, len(b) - 600), len(b))
        if how == "flip":
            for _ in range(rng.choice([1, 1, 3])):
                b[pos] ^= 1 << rng.randrange(8)
                pos = min(len(b) - 1, pos + 1)
        elif how == "truncate":
            del b[pos:]
        elif how == "zero":
            b[pos:pos + 40] = bytes(len(b[pos:pos + 40]))
        elif how == "insert":
            b[pos:pos] = rng.randbytes(rng.randint(1, 30))
        else:
            b[:0] = b"#!/bin/sh\n"
        w.write_bytes(b)
        pre = None
        if rng.random() < 0.3:
            pre = b"existing"
            target.write_bytes(pre)
        elif target.exists():
            target.unlink()
        before = env.snapshot(c.tmp)
        if op == "unmake":
            res = env.cli("unmake-variant", "-f", w, "-o", out)
        else:
            res = env.cli("make-variant", "-f", w, "-o", out, "--no-isolation", "--pyproject-toml", pt,
                          "--skip-plugin-validation", *prop_args(rng, d))
        after = env.snapshot(c.tmp)
        ctx = f"{op} of {w.name} damaged by {how} at {pos}/{len(good)}; {res}"
        c.distinct(op, how, pos, w.name)
        try:
            with zipfile.ZipFile(w) as z:
                want = [(zi.filename, z.read(zi)) for zi in z.infolist()
                        if not wheels.is_top(zi.filename, wheels.DOC)]
        except Exception as e:  # noqa: BLE001
            want = e
        if not res.ok:
            c.obs("corrupt_refused")
            c.eq(after, before, f"files after a refused conversion; {ctx}")
            continue
        c.check(isinstance(want, list), f"success reported for an unreadable wheel ({want!r}); {ctx}")
        c.obs("corrupt_converted")
        rel = str(target.relative_to(c.tmp))
        c.eq({n for n in after if after[n] != before.get(n)}, {rel}, f"files written; {ctx}")
        with zipfile.ZipFile(target) as z:
            got = [(zi.filename, z.read(zi)) for zi in z.infolist()]
        c.eq([n for n, _ in got if not wheels.is_top(n, wheels.DOC)], [n for n, _ in want], f"files; {ctx}")
        got = [x for x in got if not wheels.is_top(x[0], wheels.DOC)]
        for g, o in zip(got, want):
            if not wheels.is_top(g[0], "RECORD"):
                c.check(g[1] == o[1], f"content of {g[0]}; {ctx}")


def plugins(c):
    """Failing plugins: nothing is written."""
    rng = c.rng
    world = env.PluginWorld(c.tmp / "plugins", f"v24x{c.i}x{rng.randrange(1 << 20):x}").activate()
    ns = gen.ns(rng)
    body = rng.choice([
        "raise RuntimeError('x')\n", "import nonexistent_module_x\n", "import os\nos._exit(0)\n",
        "import sys\nsys.exit(3)\n", f"namespace = {ns!r}\n",
        f"namespace = {ns!r}\ndef get_all_configs():\n    raise ValueError('x')\n"
        "def get_supported_configs():\n    return []\n",
        f"namespace = {ns!r}\ndef get_all_configs():\n    return [1]\n"
        "def get_supported_configs():\n    return []\n",
        f"namespace = {ns!r}\nimport os, signal\ndef get_all_configs():\n    os.kill(os.getpid(), signal.SIGKILL)\n"
        "def get_supported_configs():\n    return []\n"])
    mod = world.add_source(body)
    doc = {"default-priorities": {"namespace": [ns]},
           "providers": {ns: {"requires": ["x"], "plugin-api": mod,
                              **({"install-time": False} if rng.random() < 0.5 else {})}}}
    pt = c.tmp / "pyproject.toml"
    pt.write_text(wheels.toml({"variant": doc}))
    out = c.tmp / "out"
    out.mkdir()
    parts = wheels.name_parts(rng)
    w = wheels.make(rng, c.tmp, parts)
    d = ((ns, gen.feat(rng), gen.val(rng)),)
    if rng.random() < 0.5:
        (out / wheels.join(parts, model.default_label(d))).write_bytes(b"existing")
    before = env.snapshot(c.tmp)
    res = env.cli("make-variant", "-f", w, "-o", out, "--no-isolation", "--pyproject-toml", pt, *prop_args(rng, d))
    after = {n: v for n, v in env.snapshot(c.tmp).items() if "events.log" not in n}
    c.obs("plugin_failures")
    c.distinct(body, bool(doc["providers"][ns].get("install-time", True)))
    c.check(not res.ok, f"succeeded with a failing plugin {body!r}; {res}")
    c.eq({n: v for n, v in after.items() if n.split("/")[0] != "plugins"},
         {n: v for n, v in before.items() if n.split("/")[0] not in ("plugins",)},
         f"files after a plugin failure {body!r}; {res}")


WORKLOADS = [Workload(faults, 24, 600), Workload(corrupt, 60, 1500), Workload(plugins, 24, 300)]
