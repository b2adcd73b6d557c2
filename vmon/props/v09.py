"""V09 ranking against the reference comparison; pairwise independence."""
from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VD, VPs, td, tp
from variantlib.errors import ValidationError
from variantlib.resolver.lib import sort_and_filter_supported_variants
from variantlib.resolver.sorting import sort_variant_properties, sort_variants_descriptions

RULE = ("random supported lists, variant lists and partial, foreign or over-complete priorities at the "
        "three levels; property order, variant order, and the order of random sub-lists compared "
        "with a reference comparison; non-trivial: two variants with different ranks")
REQUIRED = ("property_orders", "variant_orders", "sublists", "missing_namespace", "ties", "long_orders")


def setting(rng, wide=True):
    sp = gen.Space(rng, max_ns=rng.choice([1, 2, 4]), max_feat=rng.choice([1, 2, 4]),
                   max_val=rng.choice([2, 4]), min_ns=1)
    # provider order: namespaces in chunks or fully interleaved
    sup = [p for p in sp.props() if rng.random() < 0.85]
    mode = rng.randrange(3)
    if mode == 1:
        rng.shuffle(sup)
    if mode == 2:
        sup += gen.some(rng, sup)
    nss = gen.shuffled(rng, sp.tree)
    if rng.random() < 0.3:
        nss.insert(rng.randint(0, len(nss)), "zz")
    fp = gen.feat_prios(rng, sp) if rng.random() < 0.8 else None
    pp = gen.prop_prios(rng, sp) if rng.random() < 0.8 else None
    if rng.random() < 0.25:      # repeated mentions: the first one decides
        for lst in [nss, *(fp or {}).values(), *(v for d in (pp or {}).values() for v in d.values())]:
            if lst and rng.random() < 0.5:
                lst.insert(rng.randint(lst.index(x := rng.choice(lst)) + 1, len(lst)), x)
    return sp, sup, nss, fp, pp


def properties(c):
    rng = c.rng
    sp, sup, nss, fp, pp = setting(rng)
    want = model.order_properties(sup, nss, fp, pp)
    got = [tp(p) for p in sort_variant_properties(VPs(sup), nss, fp, pp)]
    c.obs("property_orders")
    c.distinct(str(sup), str(nss), str(fp), str(pp))
    ctx = f"supported={sup} namespaces={nss} features={fp} values={pp}"
    c.eq(list(dict.fromkeys(got)), want, f"property order; {ctx}")
    c.eq(sorted(got), sorted(sup), f"properties; {ctx}")
    groups = []
    for p in got:
        if not groups or groups[-1] != p[:2]:
            groups.append(p[:2])
    c.eq(len(groups), len(set(groups)), f"features kept together in {got}")
    present = {p[0] for p in sup}
    if present:
        gone = rng.choice(sorted(present))
        c.obs("missing_namespace")
        ns2 = [n for n in nss if n != gone]
        c.raises(ValidationError, lambda: sort_variant_properties(VPs(sup), ns2, fp, pp),
                 f"sorting without a priority for {gone}; {ctx}")


def variants(c):
    rng = c.rng
    sp, sup, nss, fp, pp = setting(rng)
    if not sup:
        return
    sps = set(sup)
    descs = [d for d in sp.descs(12, max_props=5, foreign=0.02, null=0.1) if model.keep(d, sps)]
    descs = gen.shuffled(rng, descs)
    ordered = model.order_properties(sup, nss, fp, pp)
    ranks = {d: model.rank(d, ordered) for d in descs}
    want = sorted(descs, key=lambda d: ranks[d])
    vprops = sort_variant_properties(VPs(sup), nss, fp, pp)
    got = [td(o) for o in sort_variants_descriptions([VD(gen.shuffled(rng, d)) for d in descs], vprops)]
    ctx = f"variants={descs} supported={sup} namespaces={nss} features={fp} values={pp}"
    c.obs("variant_orders")
    c.obs("ties", len(descs) - len(set(ranks.values())))
    c.eq(got, want, f"variant order; {ctx}")
    if len(set(ranks.values())) > 1:
        c.distinct(ctx)
        c.sample({"order": got, "priorities": [str(nss), str(fp), str(pp)]})
    if () in descs:
        c.eq(got[-1], (), "last variant")
    sel = [td(o) for o in sort_and_filter_supported_variants(
        [VD(d) for d in descs], VPs(sup), nss, fp, pp)]
    c.eq(sel, want if () in want else want + [()], f"selected order; {ctx}")
    for _ in range(3):
        sub = [d for d in descs if rng.random() < 0.5]
        c.obs("sublists")
        g = [td(o) for o in sort_variants_descriptions([VD(d) for d in sub], vprops)]
        c.eq(g, [d for d in want if d in sub], f"order of a sub-list {sub}; {ctx}")
    # with unsupported variants around
    extra = sp.descs(4, foreign=0.5)
    mixed = list(descs)
    for e in extra:
        if e not in mixed and e:
            mixed.insert(rng.randint(0, len(mixed)), e)
    g = [td(o) for o in sort_and_filter_supported_variants([VD(d) for d in mixed], VPs(sup), nss, fp, pp)]
    g = [d for d in g if d in descs]
    c.eq(g, want, f"order with others present {mixed}; {ctx}")
    c.obs("sublists")
    # repeated supported properties change nothing
    if descs and rng.random() < 0.3:
        gone = rng.choice(sorted({p[0] for p in sup}))
        ns2 = [n for n in nss if n != gone]
        c.obs("missing_namespace")
        c.raises(ValidationError, lambda: sort_and_filter_supported_variants(
            [VD(d) for d in descs], VPs(sup), ns2, fp, pp), f"no priority for {gone}; {ctx}")


def many(c):
    """Big lists: long value lists, many features, long ties."""
    rng = c.rng
    sp = gen.Space(rng, max_ns=4, max_feat=6, max_val=12, min_ns=2)
    sup = gen.shuffled(rng, sp.props())
    nss = gen.shuffled(rng, sp.tree)
    fp, pp = gen.feat_prios(rng, sp), gen.prop_prios(rng, sp)
    descs = [d for d in sp.descs(60, max_props=rng.choice([2, 4, 12]), foreign=0) if d]
    ordered = model.order_properties(sup, nss, fp, pp)
    want = sorted(descs, key=lambda d: model.rank(d, ordered)) + [()]
    got = [td(o) for o in sort_and_filter_supported_variants([VD(d) for d in descs], VPs(sup), nss, fp, pp)]
    c.obs("variant_orders")
    c.distinct(str(descs))
    c.eq(got, want, f"order of many: supported={sup} namespaces={nss} features={fp} values={pp}")


def long(c):
    """Hundreds of values of a feature, features of a namespace, or namespaces."""
    rng = c.rng
    n = rng.choice([130, 260, 300, 520, 1100])
    shape = rng.choice(["values", "values", "features", "namespaces", "mixed"])
    k = {"values": (1, rng.randint(1, 2), n), "features": (1, n, 1), "namespaces": (n, 1, 1),
         "mixed": (rng.randint(2, 6), rng.randint(2, 8), n // 10)}[shape]
    sup = [(f"n{a}", f"f{b}", f"v{v}") for a in range(k[0]) for b in range(k[1]) for v in range(k[2])]
    nss = gen.shuffled(rng, [f"n{a}" for a in range(k[0])])
    if rng.random() < 0.5:
        rng.shuffle(sup)
    fp, pp = None, None
    if rng.random() < 0.5:
        fp = {"n0": gen.some(rng, [f"f{b}" for b in range(k[1])], hi=rng.choice([2, k[1]]))}
    if rng.random() < 0.5:
        pp = {"n0": {"f0": gen.some(rng, [f"v{v}" for v in range(k[2])], hi=rng.choice([2, k[2]]))}}
    want = model.order_properties(sup, nss, fp, pp)
    ctx = f"{shape} {k}: supported={sup[:20]}... namespaces={nss[:20]} features={fp} values={pp}"
    vprops = sort_variant_properties(VPs(sup), nss, fp, pp)
    c.eq([tp(p) for p in vprops], want, f"property order; {ctx}")
    descs = {()}
    for _ in range(24):
        picked = {}
        for p in rng.sample(sup, rng.randint(1, min(3, len(sup)))):
            picked[p] = None
        # neighbours in the order, near either end
        if rng.random() < 0.6:
            at = rng.choice([rng.randrange(len(want)), len(want) - 1, max(0, len(want) - 2), 0, min(256, len(want) - 1)])
            picked = {want[at]: None}
        descs.add(tuple(sorted(picked)))
    descs = gen.shuffled(rng, sorted(descs))
    ranks = {d: model.rank(d, want) for d in descs}
    order = sorted(descs, key=lambda d: ranks[d])
    c.eq([td(o) for o in sort_variants_descriptions([VD(d) for d in descs], vprops)], order, f"variant order; {ctx}; {descs}")
    c.obs("long_orders")
    c.obs("property_orders")
    c.distinct(shape, k, str(descs))
    c.eq([td(o) for o in sort_and_filter_supported_variants([VD(d) for d in descs], VPs(sup), nss, fp, pp)],
         order, f"selected order; {ctx}")


WORKLOADS = [Workload(properties, 3000, 60000), Workload(variants, 2000, 40000),
             Workload(many, 120, 2400), Workload(long, 48, 1200)]
