"""V32 faults at every file operation of index generation, adding a wheel and updating pyproject.toml."""
import errno
import hashlib
import json
import os
import pathlib
import subprocess
import sys
import tomllib

from vmon import env, gen, model, wheels
from vmon.core import Inconclusive, Workload
from vmon.props import v24
from vmon.props.v25 import release
from vmon.props.v29 import Doc, args_of, judge_data, world

RULE = ("generating indexes of several releases, adding wheels to an index (in place or elsewhere, over existing files) and "
        "editing pyproject files, with a fault at every file operation in turn: error, disk full from then on, kill, kill "
        "in the middle of a write, interrupt, short read or write; distinct by scenario, operation and fault")
REQUIRED = ("runs", "faults_fired", "killed", "failed_cleanly", "succeeded", "generate", "add", "update", "old_survived",
            "complete_outputs", "first_outputs", "partial_index", "several_outputs", "long_names")
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["a kill stops the process only: what it wrote reaches the disk (no power loss)"]

MODES = {"quick": [("fail", [errno.EIO]), ("fail_writes_from", [errno.ENOSPC]), ("kill", [0]), ("torn_kill", [0]),
                   ("sigint", [0]), ("short", [0])],
         "thorough": v24.MODES["thorough"]}
prepare = v24.prepare


def index_of(text):
    return model.read_document(json.loads(text), "index")


def scene_generate(c, root):
    rng = c.rng
    d = root / "wheels"
    d.mkdir()
    want = {}
    for _ in range(rng.choice([1, 1, 2])):
        parts = wheels.name_parts(rng)
        if rng.random() < 0.3:
            parts = ("n" * rng.randint(60, 180), *parts[1:])
            c.obs("long_names")
        name = "-".join(parts[:2]) + "-variants.json"
        if f"wheels/{name}" in want:
            continue
        valid, _, _ = release(c, d, parts, rng.randint(1, 3), faults=False)
        if not valid:
            continue
        want[f"wheels/{name}"] = {**next(iter(valid.values()))[0],
                                  "variants": {lab: tuple(sorted(v)) for _, lab, v in valid.values()}}
        if rng.random() < 0.5:
            (d / name).write_text(rng.choice(["junk" * 2000, "{}"]))
    if rng.random() < 0.3:
        (d / "unrelated-1-variants.json").write_text("unrelated")
    c.obs("several_outputs", len(want) > 1)

    def judge(text, rel):
        c.eq(index_of(text), want[rel], f"index {rel}")

    def partly(text, rel):
        got = index_of(text)
        c.eq({k: v for k, v in got.items() if k != "variants"}, {k: v for k, v in want[rel].items() if k != "variants"},
             f"settings in {rel}")
        c.check(all(want[rel]["variants"].get(k) == v for k, v in got["variants"].items()), f"variants in {rel}: {got}")
    return ["generate-index-json", "-d", "wheels"], list(want), judge, partly


def scene_add(c, root):
    rng = c.rng
    d, out = root / "wheels", root / "out"
    d.mkdir()
    out.mkdir()
    parts = wheels.name_parts(rng)
    if rng.random() < 0.3:
        parts = ("n" * rng.randint(60, 180), *parts[1:])
        c.obs("long_names")
    name = "-".join(parts[:2]) + "-variants.json"
    valid, _, _ = release(c, d, parts, rng.randint(1, 4), faults=False)
    if not valid:
        return None
    todo = sorted(valid)
    last = rng.choice(todo)
    have = [x for x in todo if x != last]
    args = ["add-wheel-to-index-json", "-f", f"wheels/{last}", "-o", "out"]
    doc = None
    if have:
        doc = json.loads(next(x for x in wheels.load(d / last) if wheels.is_top(x[0], wheels.DOC))[2])
        doc["variants"] = {valid[x][1]: model.to_nested(valid[x][2]) for x in have}
        where = rng.choice(["out", "."])
        (root / where / name).write_text(json.dumps(doc, indent=rng.choice([None, 2])))
        args += ["-i", f"{where}/{name}"]
    if rng.random() < 0.5 and not (out / name).exists():
        (out / name).write_text("old" * 3000)
    if (out / name).exists() or rng.random() < 0.5:
        args.append("-w")
    want = {**valid[last][0], "variants": {valid[x][1]: tuple(sorted(valid[x][2])) for x in [*have, last]}}

    def judge(text, rel):
        c.eq(index_of(text), want, f"index {rel}")
    return args, [f"out/{name}"], judge, None


def scene_update(c, root):
    rng = c.rng
    _, installed = world(c)
    names = sorted(installed)
    for _ in range(20):
        doc = Doc(c, [*names, "other"])
        if doc.layout in ("table", "none") and not doc.between:
            break
    else:
        return None
    file = rng.choice(["pyproject.toml", "settings.toml"])
    (root / file).write_bytes(doc.text.encode("utf8"))
    dele = gen.some(rng, [*names, "other"])
    add = [n for n in gen.some(rng, names) if n not in dele]
    if not dele and not add:
        add = names[:1]
    args = ["update-pyproject-toml", *args_of(rng, dele, add)]
    if file != "pyproject.toml":
        args += ["-f", file]
    before = tomllib.loads(doc.text)

    def judge(text, rel):
        judge_data(c, before, tomllib.loads(text), dele, add, installed, f"{args} of {doc.text}")
        c.eq(text.count("\r\n") == text.count("\n"), doc.crlf, f"line endings of {text!r}")
    return args, [file], judge, None


def faults(c):
    rng = c.rng
    if v24.LIB is None:
        prepare(str(c.tmp))
    pristine, keep = c.tmp / "pristine", c.tmp / "keep"
    keep.mkdir()
    pristine.mkdir()
    op, scene = (("generate", scene_generate), ("add", scene_add), ("update", scene_update))[c.i % 3]
    made = scene(c, pristine)
    if made is None or not made[1]:
        return
    args, outputs, judge, partly = made
    job = {"path": [p for p in sys.path if p], "args": args, "work": str(c.tmp / "work"), "pristine": str(pristine),
           "keep": str(keep), "modes": MODES[c.tier], "warm": op == "update"}
    before = {str(p.relative_to(pristine)): hashlib.sha256(p.read_bytes()).hexdigest()
              for p in pristine.rglob("*") if p.is_file()}
    p = subprocess.run([sys.executable, str(v24.HERE / "faultdriver.py")], input=json.dumps(job).encode(),
                       capture_output=True, env={**os.environ, "LD_PRELOAD": v24.LIB}, timeout=240)
    try:
        results = json.loads(p.stdout)
    except ValueError:
        raise Inconclusive(f"fault driver failed: {p.returncode} {p.stderr[-2000:]!r}") from None
    base = results[0]
    ctx0 = f"{op} {args} with {sorted(before)}"
    c.check(base["exit"] == 0, f"fails without any fault: {ctx0}")
    c.check(base["count"] > 3, f"{base['count']} operations seen: {ctx0}")
    c.obs(op)
    new = {}
    for rel in outputs:
        c.check(rel in base["files"], f"no {rel} after {ctx0}")
        new[rel] = base["files"][rel]
        judge((keep / new[rel]).read_bytes().decode("utf8"), rel)
        c.obs("first_outputs", rel not in before)
    for r in results:
        c.obs("runs")
        ctx = (f"{ctx0} with {r['mode']} at operation {r['k']} of {base['trace']} "
               f"({errno.errorcode.get(r['errno'], '-')}), exit {r['exit']}")
        if r["mode"] != "count" and r["fired"]:
            c.obs("faults_fired")
            c.distinct(ctx0, r["mode"], r["k"], r["errno"])
        if r["exit"] < 0:
            c.obs("killed")
            c.check(r["mode"] in ("kill", "torn_kill"), f"crashed: {ctx}")
        else:
            c.obs("succeeded" if r["exit"] == 0 else "failed_cleanly")
        for rel in outputs:
            got = r["files"].get(rel)
            if got == new[rel]:
                c.obs("complete_outputs")
                continue
            if partly and r["mode"] == "fail" and got is not None and got != before.get(rel):
                # unreadable wheels are left out
                text = (keep / got).read_bytes().decode("utf8")
                try:
                    json.loads(text)
                except ValueError:
                    c.fail(f"{rel} is neither as before nor a complete document ({len(text)} characters): {ctx}")
                partly(text, rel)
                c.obs("partial_index")
                continue
            if partly and r["mode"] == "fail" and r["fired"]:
                ok = True
            else:
                ok = r["exit"] != 0
            c.check(ok, f"success reported, but {rel} is not complete; {ctx}")
            c.check(got == before.get(rel), f"{rel} is neither as before nor complete "
                                            f"({'gone' if got is None else (keep / got).read_bytes()[:200]}); {ctx}")
            c.obs("old_survived", rel in before)
        for n, h in before.items():
            if n not in outputs:
                c.check(r["files"].get(n) == h, f"{n} was changed; {ctx}")
        for n in r["files"]:
            c.check(n in before or n in outputs or pathlib.PurePath(n).name.startswith(".")
                    or not n.endswith((".json", ".toml", ".whl")), f"unexpected file {n}; {ctx}")
    c.sample({"scenario": ctx0, "operations": base["trace"], "runs": len(results)})


WORKLOADS = [Workload(faults, 30, 1200)]
