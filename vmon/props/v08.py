"""V08 filtering against the reference predicate."""
from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VD, VF, VPs, td
from variantlib.models.variant import VariantDescription
from variantlib.resolver.filtering import (
    filter_variants_by_features, filter_variants_by_namespaces, filter_variants_by_property,
    remove_duplicates)
from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants

RULE = ("random variant lists (with repetitions), supported lists (shuffled, repeated) and forbidden "
        "namespaces, features and properties; survivors and their order compared with the reference; "
        "non-trivial: some variant dropped and some kept")
REQUIRED = ("filtered", "kept", "dropped", "forbidden_ns", "forbidden_feat", "forbidden_prop",
            "null_kept", "twins")


def filtering(c):
    rng = c.rng
    sp = gen.Space(rng, max_ns=rng.choice([1, 3, 5]), max_feat=4, max_val=4)
    descs = sp.descs(rng.randint(0, 9), max_props=rng.choice([2, 4, 8]), null=0.1)
    listed = [rng.choice(descs) for _ in range(rng.randint(0, 4))] if descs else []
    listed = gen.shuffled(rng, descs + listed)
    sup = [p for p in sp.props() if rng.random() < rng.choice([0.3, 0.7, 1.0])]
    for d in descs:
        if rng.random() < 0.3:
            sup += gen.some(rng, d)
    sup = gen.shuffled(rng, sup + gen.some(rng, sup))
    every = sorted({p for d in descs for p in d} | set(sup))
    if every and rng.random() < 0.5:
        every += [gen.twin(rng, p) for p in gen.some(rng, every, lo=1, hi=4)]
        c.obs("twins")
    fns = ffe = fpr = None
    if rng.random() < 0.35 and every:
        fns = [p[0] for p in gen.some(rng, every, hi=2)] + gen.some(rng, ["zz"])
        c.obs("forbidden_ns", len(fns))
    if rng.random() < 0.35 and every:
        ffe = [p[:2] for p in gen.some(rng, every, hi=2)] + gen.some(rng, [("zz", "f")])
        c.obs("forbidden_feat", len(ffe))
    if rng.random() < 0.35 and every:
        fpr = gen.some(rng, every, hi=4)
        c.obs("forbidden_prop", len(fpr))
    want = [d for d in dict.fromkeys(listed)
            if model.keep(d, set(sup), fns or (), set(ffe or ()), set(fpr or ()))]
    objs = [VD(gen.shuffled(rng, d)) for d in listed]
    kw = {}
    if fns is not None:
        kw["forbidden_namespaces"] = fns
    if ffe is not None:
        kw["forbidden_features"] = [VF(f) for f in ffe]
    if fpr is not None:
        kw["forbidden_properties"] = VPs(fpr)
    ctx = f"variants={listed} supported={sup} forbidden={fns}/{ffe}/{fpr}"
    out = [td(o) for o in filter_variants(objs, VPs(sup), **kw)]
    c.obs("filtered")
    c.obs("kept", len(want))
    c.obs("dropped", len(set(listed)) - len(want))
    c.obs("null_kept", () in want)
    if 0 < len(want) < len(set(listed)):
        c.distinct(ctx)
        c.sample({"variants": listed, "supported": sup, "kept": out})
    c.eq(out, want, f"survivors; {ctx}")
    if () in listed:
        c.check(() in out, "the variant without properties was dropped; {}", ctx)
    # supported order and repetition do not matter
    sup2 = gen.shuffled(rng, sup + gen.some(rng, sup))
    c.eq([td(o) for o in filter_variants(objs, VPs(sup2), **kw)], want,
         f"survivors for reordered supported properties; {ctx}")
    # monotone in the other variants: each decided alone
    for d in list(dict.fromkeys(listed))[:3]:
        one = [td(o) for o in filter_variants([VD(d)], VPs(sup), **kw)]
        c.eq(one, [d] if d in want else [], f"{d} filtered alone; {ctx}")
    # selection: the null variant is offered even if not listed
    nss = list(dict.fromkeys(gen.shuffled(rng, [p[0] for p in sup])))
    sel = [td(o) for o in sort_and_filter_supported_variants(objs, VPs(sup), nss, **kw)]
    c.eq(sorted(sel), sorted(set(want) | {()}), f"variants selected; {ctx}")


def steps(c):
    """The individual filters."""
    rng = c.rng
    sp = gen.Space(rng, max_ns=4)
    descs = sp.descs(rng.randint(1, 7), null=0.1)
    listed = gen.shuffled(rng, descs + [rng.choice(descs) for _ in range(2)]) if descs else []
    objs = [VD(d) for d in listed]
    props = sp.props()
    c.obs("steps")
    got = [td(o) for o in remove_duplicates(objs)]
    c.eq(got, list(dict.fromkeys(listed)), f"remove_duplicates({listed})")
    ns = gen.some(rng, sorted({p[0] for p in props}))
    got = [td(o) for o in filter_variants_by_namespaces(objs, ns)]
    c.eq(got, [d for d in listed if not any(p[0] in ns for p in d)], f"namespaces {ns}: {listed}")
    fs = gen.some(rng, sorted({p[:2] for p in props}))
    got = [td(o) for o in filter_variants_by_features(objs, [VF(f) for f in fs])]
    c.eq(got, [d for d in listed if not any(p[:2] in fs for p in d)], f"features {fs}: {listed}")
    allowed, forb = gen.some(rng, props), gen.some(rng, props)
    got = [td(o) for o in filter_variants_by_property(objs, VPs(allowed), VPs(forb))]
    c.eq(got, [d for d in listed if model.keep(d, set(allowed), forb_prop=set(forb))],
         f"allowed {allowed} forbidden {forb}: {listed}")
    c.distinct("steps", str(listed), str(ns), str(fs), str(allowed), str(forb))


def collisions(c):
    """Different variants whose short hashes collide are still different."""
    a, b = (("a", "f", v) for v in gen.COLLIDING[c.i % len(gen.COLLIDING)])
    da, db = VD([a]), VD([b])
    c.eq(da.hexdigest, db.hexdigest, "colliding pair")
    c.obs("collisions")
    c.distinct(a, b)
    for x, y in ((a, b), (b, a)):
        got = [td(o) for o in filter_variants([VD([x]), VD([y])], VPs([x, y]))]
        c.eq(got, [(x,), (y,)], "both of two variants with equal short hashes")
        got = [td(o) for o in filter_variants([VD([x]), VD([y])], VPs([y]))]
        c.eq(got, [(y,)], "only the supported one of two variants with equal short hashes")


WORKLOADS = [Workload(filtering, 3500, 80000), Workload(steps, 2000, 40000),
             Workload(collisions, 12, 12)]
