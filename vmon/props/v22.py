"""V22 variant wheels against the original, member by member and RECORD entry by entry."""
import json
import os
import shutil
import subprocess
import sys
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.lib import content, read
from vmon.scenario import Scenario, judge_document, verdicts, wheel_metadata

RULE = ("random legal wheels (names with spaces, commas, quotes, non-ASCII; four compression methods; "
        "RECORD quoting, line endings, order, position and termination; empty to large members; names "
        "resembling the special ones; already variant wheels) times variants valid, invalid, unknown, "
        "multi-valued or unsupported according to real plugins, with and without validation and "
        "labels; also refused names and labels; distinct by wheel and variant")
REQUIRED = ("made", "null", "custom_label", "skip_validation", "validated", "remade", "isolated",
            "refused_invalid", "refused_unknown", "refused_multi_value", "refused_unsupported",
            "refused_label", "refused_name", "refused_input", "same_directory", "replaced_output", "long_names")


def text_form(rng, p):
    return rng.choice([" :: ", "::", " ::  ", ":: "]).join(p)


def prop_args(rng, d):
    out, todo = [], gen.shuffled(rng, d)
    while todo:
        k = rng.randint(1, len(todo))
        out += [rng.choice(["-p", "--property"])] + [text_form(rng, p) for p in todo[:k]]
        todo = todo[k:]
    return out or ["--null-variant"]


def choose(rng, sc):
    """A variant, mostly one that will be accepted."""
    d = set()
    for ns, p in sc.prov.items():
        r = rng.random()
        tree = {f: list(vs) for f, vs, _ in p["supported"]} if p["kind"] == "aot" else sc.space.tree[ns]
        if r < 0.6:
            for f in gen.some(rng, tree, lo=min(1, len(tree))):
                multi = {x[0]: x[2] for x in p["all"]}.get(f)
                d |= {(ns, f, v) for v in gen.some(rng, tree[f], lo=1, hi=2 if multi else 1)}
        if r < 0.05:
            f = rng.choice(list(sc.space.tree[ns]))
            d.add((ns, f, rng.choice(sc.space.tree[ns][f])))
        elif r < 0.09:
            d.add((ns, gen.feat(rng), gen.val(rng)))
        elif r < 0.12:
            d.add((ns, rng.choice(list(sc.space.tree[ns])), gen.val(rng)))
    if rng.random() < 0.05:
        d.add((gen.ns(rng), gen.feat(rng), gen.val(rng)))
    if rng.random() < 0.1:
        d = set()
    return tuple(sorted(d))


def old_document(rng, label):
    d = gen.Space(rng, min_ns=1).desc(null=0) if label != "null" else ()
    doc = {"default-priorities": {"namespace": []}, "providers": {},
           "variants": {label: model.to_nested(d)}}
    return json.dumps(doc, indent=rng.choice([None, 4]))


def make(c):
    rng = c.rng
    sc = Scenario(c, kind="pyproject", plugins=c.i % 2 == 0, max_ns=3, min_ns=rng.choice([0, 1, 1, 2, 2, 2]),
                  config=False, abi=False, kinds=None if rng.random() < 0.5 else ["install", "aot", "static"])
    pt = sc.cwd / rng.choice(["pyproject.toml", "other.toml"])
    pt.write_text(wheels.toml({"project": {"name": "x"}, "variant": sc.doc}), encoding="utf8")
    base = content(read(sc.doc, "pyproject"))
    src, out = c.tmp / "in dir", c.tmp / "out"
    src.mkdir()
    out.mkdir()
    for _ in range(3):
        d = choose(rng, sc)
        parts = wheels.name_parts(rng)
        if rng.random() < 0.06:
            parts = wheels.long_name(rng, parts)
            c.obs("long_names")
        old = None
        if rng.random() < 0.25:
            old = rng.choice(["null", gen.label(rng)])
            c.obs("remade")
        w = wheels.make(rng, src, parts, old, old_document(rng, old) if old else None)
        orig_bytes = w.read_bytes()
        orig = wheels.load(w)
        lab, lab_ok = None, True
        if rng.random() < 0.35:
            if rng.random() < 0.8 and d:
                lab = gen.label(rng)
            else:
                lab = rng.choice(["null", "", "UPPER", "a-b", "a" * 17, "a b", "é", "a/b", "x\n"])
                lab_ok = False
        elif rng.random() < 0.05 and not d:
            lab, lab_ok = rng.choice(["abc", "null"]), False
        skip = rng.random() < 0.4
        expand_ok = wheel_metadata(sc, base, d)
        want, reasons = expand_ok
        reasons = set(reasons)
        if not skip and d:
            reasons |= verdicts(sc, d)
        if not lab_ok:
            reasons.add("label")
        label = lab if lab is not None else model.default_label(d)
        target = wheels.join(parts, label)
        dest = out
        if rng.random() < 0.2:
            dest = src
            c.obs("same_directory")
        if not reasons and rng.random() < 0.15 and dest is out:
            c.obs("replaced_output")
            (out / target).write_bytes(rng.choice([b"junk", orig_bytes]))
        before = {p: p.read_bytes() for q in (src, out) for p in q.iterdir()}
        args = ["make-variant", rng.choice(["-f", "--file"]), w, rng.choice(["-o", "--output-directory"]),
                dest, "--no-isolation", *prop_args(rng, d)]
        if pt.name != "pyproject.toml" or rng.random() < 0.5:
            args += ["--pyproject-toml", pt]
        if lab is not None:
            args += ["--variant-label", lab]
        if skip:
            args += ["--skip-plugin-validation"]
        res = env.cli(*args)
        ctx = (f"{w.name} -> {d} label {lab!r} skip {skip}; {json.dumps(sc.doc)}; plugins "
               + str({n: (p['kind'], p['all'], p['supported']) for n, p in sc.prov.items()}) + f"; {res}")
        c.distinct(w.name, d, [x[0] for x in orig], lab)
        after = {p: p.read_bytes() for q in (src, out) for p in q.iterdir()}
        if reasons:
            for r in reasons:
                c.obs("refused_" + r)
            c.check(not res.ok, f"not refused although {sorted(reasons)}; {ctx}")
            c.eq(sorted(map(str, after)), sorted(map(str, before)), f"files after a refusal; {ctx}")
            c.check(after == before, f"files changed by a refused conversion; {ctx}")
            continue
        c.check(res.ok, f"refused; {ctx}")
        c.obs("made")
        c.obs("null", not d)
        c.obs("custom_label", lab is not None)
        c.obs("skip_validation" if skip else "validated", bool(d))
        new = dest / target
        c.eq(sorted(str(p) for p in after if p not in before or after[p] != before[p]),
             [str(new)], f"files written; {ctx}")
        c.check(set(before) <= set(after), f"files removed; {ctx}")
        with zipfile.ZipFile(new) as z:
            c.check(z.testzip() is None, f"checksums of the result; {ctx}")
        wheels.same_but_doc(c, wheels.load(new), orig, ctx,
                            judge_document(c, sc, want, label, d, ctx))
        if new != w:
            c.check(w.read_bytes() == orig_bytes, f"the input changed; {ctx}")
        c.sample({"wheel": w.name, "files": [x[0] for x in orig], "variant": d, "result": target})


BAD_NAMES = ["pkg-1.0-py3-none.whl", "pkg-1.0-py3-none-any.zip", "pkg-1.0.whl", "pkg.whl",
             "pkg-1.0-py3-none-any-UPPER.whl", "pkg-1.0-py3-none-any-" + "a" * 17 + ".whl",
             "pkg-1.0-1-py3-none-any-lab-x.whl", "pkg-1.0-py3-none-any.whl.bak", "pkg-1.0-py3-none-any",
             "pkg-1.0-py3-none-any-a b.whl", "pkg-1.0-x-py3-none-any-lab.whl", "pkg-1.0-py3-none-any-a+b.whl"]


def refuse(c):
    rng = c.rng
    src, out = c.tmp / "src", c.tmp / "out"
    src.mkdir()
    out.mkdir()
    pt = c.tmp / "pyproject.toml"
    pt.write_text("[project]\nname = 'x'\n")
    w = wheels.make(rng, src, simple=True)
    kind = rng.choice(["name", "name", "input", "property", "outdir", "pyproject"])
    args = {"-f": w, "-o": out, "--pyproject-toml": pt}
    props = ["--null-variant"]
    if kind == "name":
        bad = src / rng.choice(BAD_NAMES)
        shutil.move(w, bad)
        args["-f"] = bad
        c.obs("refused_name")
    elif kind == "input":
        how = rng.choice(["missing", "empty", "notzip", "truncated", "norecord", "dir"])
        c.obs("refused_input")
        if how == "missing":
            w.unlink()
        elif how == "dir":
            w.unlink()
            w.mkdir()
        elif how == "empty":
            w.write_bytes(b"")
        elif how == "notzip":
            w.write_bytes(b"x" * 3000)
        elif how == "truncated":
            b = w.read_bytes()
            w.write_bytes(b[:rng.randint(1, len(b) - 1)])
        else:
            with zipfile.ZipFile(w, "w") as z:
                z.writestr("x.py", b"")
    elif kind == "property":
        props = ["-p", rng.choice(["a :: b", "A :: b :: c", "a :: b :: c :: d", "", "a::b::", "a :: b :: C"])]
        if rng.random() < 0.3:
            props = ["-p", "a :: b :: c", "a :: b :: c", "--skip-plugin-validation"]
    elif kind == "outdir":
        args["-o"] = out / "missing"
    else:
        how = rng.choice(["missing", "syntax", "invalid"])
        if how == "missing":
            pt.unlink()
        elif how == "syntax":
            pt.write_text("[variant\n")
        else:
            pt.write_text(rng.choice(["[variant]\nproviders = 1\n", "[variant.default-priorities]\nnamespace=['x']\n"]))
    before = env.snapshot(c.tmp)
    res = env.cli("make-variant", "--no-isolation", *[x for kv in args.items() for x in kv], *props)
    c.distinct(kind, str(args["-f"].name), props)
    c.check(not res.ok, f"{kind}: accepted {args} {props}; {res}")
    c.eq(env.snapshot(c.tmp), before, f"files after refusing ({kind}) {args} {props}; {res}")


def isolated(c):
    """Validation in an isolated environment, in which the provider's package is installed."""
    rng = c.rng
    os.environ.pop("PYTHONPATH", None)
    mod = f"vmoniso_{c.i}_{rng.randrange(1 << 20):x}"
    aot = c.i % 2 == 0
    ns, f, vals = gen.ns(rng), gen.feat(rng), gen.distinct(rng, gen.val, 3)
    world = env.PluginWorld(c.tmp / "plugins", "iso")
    world.add(ns, [(f, vals, False)], [(f, vals[:2], False)], aot=aot, name=mod)
    src = (world.dir / f"{mod}.py").read_bytes()
    di = f"{mod}-1.0.dist-info"
    pw = c.tmp / f"{mod}-1.0-py3-none-any.whl"
    with zipfile.ZipFile(pw, "w") as z:
        files = [(f"{mod}.py", src), (f"{di}/METADATA", f"Metadata-Version: 2.1\nName: {mod}\nVersion: 1.0\n".encode()),
                 (f"{di}/WHEEL", b"Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n")]
        for n, b in files:
            z.writestr(n, b)
        z.writestr(f"{di}/RECORD", "".join(f"{n},{wheels.digest(b)},{len(b)}\n" for n, b in files)
                   + f"{di}/RECORD,,\n")
    doc = {"default-priorities": {"namespace": [ns]},
           "providers": {ns: {"requires": [f"{mod} @ file://{pw}"], "plugin-api": mod,
                              **({"install-time": False} if aot else {})}}}
    pt = c.tmp / "pyproject.toml"
    pt.write_text(wheels.toml({"variant": doc}))
    out = c.tmp / "out"
    out.mkdir()
    w = wheels.make(rng, c.tmp)
    orig = wheels.load(w)
    good = c.i % 4 < 2
    d = ((ns, f, vals[0] if good else vals[2] + "x"),)
    c.obs("isolated")
    c.distinct(d, aot)
    res = env.cli("make-variant", "-f", w, "-o", out, "--pyproject-toml", pt, "-p", text_form(rng, d[0]))
    ctx = f"isolated, ahead-of-time {aot}: {d}; {json.dumps(doc)}; {res}"
    if not good:
        c.check(not res.ok, f"invalid property accepted; {ctx}")
        c.eq(list(out.iterdir()), [], f"files after refusing; {ctx}")
        return
    c.check(res.ok, f"refused; {ctx}")
    lab = model.vhash(d)
    c.eq([p.name for p in out.iterdir()], [wheels.join_name(w.name, lab)], f"files written; {ctx}")

    def judge(data):
        got = model.read_document(json.loads(data), "wheel", lab)
        c.eq(got["variants"], {lab: d}, f"variant recorded; {ctx}")
        c.eq(got["static_properties"], {ns: {f: vals[:2]}} if aot else {}, f"recorded; {ctx}")
    wheels.same_but_doc(c, wheels.load(next(out.iterdir())), orig, ctx, judge)


WORKLOADS = [Workload(make, 560, 6000), Workload(refuse, 120, 600), Workload(isolated, 4, 24)]
