"""V23 round trips: unmaking, and making again from variant wheels."""
import json

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.props.v22 import old_document, prop_args

RULE = ("random legal wheels taken through random chains of make-variant (new variants and labels) and "
        "unmake-variant, each result compared with the very first wheel; variant wheels made by other "
        "tools (document anywhere, RECORD quoting); wheels that are no variants; distinct by wheel and chain")
REQUIRED = ("unmade", "remade", "made", "not_variant", "foreign_unmade", "same_directory", "long_chains", "long_names")


def chain(c):
    rng = c.rng
    pt = c.tmp / "pyproject.toml"
    pt.write_text("[project]\nname = 'x'\n")
    parts = wheels.name_parts(rng)
    if rng.random() < 0.12:
        parts = wheels.long_name(rng, parts)
        c.obs("long_names")
    first = wheels.make(rng, c.tmp, parts)
    orig = wheels.load(first)
    cur, label, doc = first, None, None
    space = gen.Space(rng, min_ns=1)
    steps = []
    n = rng.randint(2, 6)
    c.obs("long_chains", n > 4)
    for k in range(n):
        dest = c.tmp / f"d{k}"
        dest.mkdir()
        if rng.random() < 0.2:
            dest = cur.parent
            c.obs("same_directory")
        before = {p: p.read_bytes() for p in dest.iterdir() if p.is_file()}
        if label is not None and rng.random() < 0.5:
            res = env.cli("unmake-variant", "-f", cur, "-o", dest)
            steps.append("unmake")
            c.obs("unmade")
            new_label = want_doc = None
        else:
            d = space.desc()
            lab = gen.label(rng) if d and rng.random() < 0.4 else None
            c.obs("remade" if label is not None else "made")
            res = env.cli("make-variant", "-f", cur, "-o", dest, "--no-isolation", "--pyproject-toml", pt,
                          "--skip-plugin-validation", *prop_args(rng, d),
                          *(["--variant-label", lab] if lab else []))
            steps.append(f"make {d} {lab}")
            new_label = lab or model.default_label(d)

            def want_doc(data, d=d, lab=new_label):
                got = model.read_document(json.loads(data), "wheel", lab)
                c.eq(got["variants"], {lab: d}, f"variant recorded after {steps}")
        ctx = f"{first.name}: {steps}; {res}"
        c.check(res.ok, f"failed: {ctx}")
        new = dest / wheels.join(parts, new_label)
        after = {p: p.read_bytes() for p in dest.iterdir() if p.is_file()}
        c.eq(sorted(str(p) for p in after if before.get(p) != after[p] and p != new), [], f"other files written; {ctx}")
        c.check(new in after, f"no {new.name} after {ctx}; there is {[p.name for p in after]}")
        c.check(set(before) <= set(after), f"files removed; {ctx}")
        wheels.same_but_doc(c, wheels.load(new), orig, ctx, want_doc)
        if new != cur:
            pass
        cur, label = new, new_label
    c.distinct(first.name, steps, [x[0] for x in orig])
    c.sample({"wheel": first.name, "chain": steps})


def foreign(c):
    """Variant wheels as other tools may write them, and wheels which are no variants."""
    rng = c.rng
    for _ in range(4):
        parts = wheels.name_parts(rng)
        src, dest = c.tmp / f"s{rng.random()}", c.tmp / f"d{rng.random()}"
        src.mkdir()
        dest.mkdir()
        label = rng.choice(["null", gen.label(rng), gen.label(rng)])
        if rng.random() < 0.3:      # no label: not a variant, even if it has a document
            w = wheels.make(rng, src, parts, None, old_document(rng, label) if rng.random() < 0.3 else None)
            before = env.snapshot(c.tmp)
            for out in (dest, src):
                res = env.cli("unmake-variant", "-f", w, "-o", out)
                c.eq(env.snapshot(c.tmp), before, f"files after unmaking {w.name}, not a variant; {res}")
            c.obs("not_variant")
            continue
        w = wheels.make(rng, src, parts, label, old_document(rng, label))
        orig = wheels.load(w)
        raw = w.read_bytes()
        if rng.random() < 0.3:
            dest = src
        res = env.cli("unmake-variant", "-f", w, "-o", dest)
        ctx = f"{w.name}: {[x[0] for x in orig]}; {res}"
        c.check(res.ok, f"failed; {ctx}")
        new = dest / wheels.join(parts)
        c.eq({p.name for p in dest.iterdir()}, {new.name} | ({w.name} if dest == src else set()), f"files; {ctx}")
        wheels.same_but_doc(c, wheels.load(new), orig, ctx)
        c.check(w.read_bytes() == raw, f"input changed; {ctx}")
        c.obs("foreign_unmade")
        c.distinct(w.name, [x[0] for x in orig])


WORKLOADS = [Workload(chain, 500, 8000), Workload(foreign, 300, 6000)]
