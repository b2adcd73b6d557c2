"""V10 aggregation of priorities and precedence of user configuration."""
import copy
import json
import os

from vmon import env, gen, model
from vmon.core import Workload
from vmon.scenario import Scenario
from variantlib.api import get_variants_by_priority
from variantlib.utils import (
    aggregate_feature_priorities, aggregate_namespace_priorities, aggregate_property_priorities)

RULE = ("random overlapping priority settings aggregated and compared with an ordered union; full "
        "selections under user configuration at each level against the reference, and against the "
        "selection without that configuration; non-trivial: settings that overlap or disagree")
REQUIRED = ("aggregations", "selections", "with_namespace", "with_feature", "with_property",
            "unmentioned_pairs")


def _some(rng, f, n):
    return gen.distinct(rng, f, rng.randint(0, n))


def aggregate(c):
    rng = c.rng
    k = rng.randint(0, 4)
    lists = [None if rng.random() < 0.2 else _some(rng, gen.ns, 5) for _ in range(k)]
    before = copy.deepcopy(lists)
    c.obs("aggregations", 3)
    c.eq(aggregate_namespace_priorities(*lists), model.union(*lists), f"namespaces of {lists}")
    c.eq(lists, before, "arguments")
    dicts = [None if rng.random() < 0.2 else
             {n: _some(rng, gen.feat, 4) for n in _some(rng, gen.ns, 4)} for _ in range(k)]
    before = copy.deepcopy(dicts)
    got = aggregate_feature_priorities(*dicts)
    want = model.union_dict(*dicts)
    c.eq(_strip(got), _strip(want), f"features of {dicts}")
    c.eq(dicts, before, "arguments")
    deep = [None if rng.random() < 0.2 else
            {n: {f: _some(rng, gen.val, 4) for f in _some(rng, gen.feat, 3)}
             for n in _some(rng, gen.ns, 3)} for _ in range(k)]
    before = copy.deepcopy(deep)
    got = aggregate_property_priorities(*deep)
    want = model.union_dict2(*deep)
    c.eq(_strip2(got), _strip2(want), f"values of {deep}")
    c.eq(deep, before, "arguments")
    c.distinct(str(lists), str(dicts), str(deep))
    # associativity with absent settings dropped
    if k >= 2:
        c.eq(aggregate_namespace_priorities(aggregate_namespace_priorities(*lists[:2]), *lists[2:]),
             model.union(*lists), f"nested aggregation of {lists}")
        c.eq(aggregate_namespace_priorities(None, *lists, None), model.union(*lists), "absent settings")


def _strip(d):
    return {k: v for k, v in d.items() if v}


def _strip2(d):
    return {k: s for k, s in ((k, _strip(v)) for k, v in d.items()) if s}


def selection(c):
    """User configuration over package defaults over provider order."""
    rng = c.rng
    sc = Scenario(c, plugins=False, config=False, optional=False, abi=False, min_ns=1, max_ns=4)
    # one-property and two-property variants expose the whole property order
    props = [p for p in sc.supported() if p[0] != "abi_dependency"]
    if not props:
        return
    descs = [(p,) for p in gen.some(rng, props, lo=1, hi=10)]
    for d in gen.some(rng, props, hi=4):
        q = rng.choice(props)
        d = tuple(sorted({d, q}))
        if d not in descs:
            descs.append(d)
    sc.variants = {f"v{i}": d for i, d in enumerate(gen.shuffled(rng, descs))}
    from vmon.scenario import _nest
    sc.doc["variants"] = {lab: _nest(rng, d) for lab, d in sc.variants.items()}
    c.obs("selections")
    plain = get_variants_by_priority(variants_json=sc.doc)
    c.eq(plain, sc.expected_labels(), f"selection without configuration: {json.dumps(sc.doc)}")
    conf = {}
    nss = list(sc.space.tree)
    if rng.random() < 0.5:
        conf["namespace_priorities"] = gen.some(rng, nss + ["zz"], lo=1)
        c.obs("with_namespace")
    if rng.random() < 0.5:
        conf["feature_priorities"] = gen.feat_prios(rng, sc.space, p=0.8)
        c.obs("with_feature")
    if rng.random() < 0.5:
        conf["property_priorities"] = gen.prop_prios(rng, sc.space, p=0.8)
        c.obs("with_property")
    sc.config = conf
    from vmon.scenario import user_toml
    where = sc.cwd / "variants.toml"
    if rng.random() < 0.4:
        where = c.tmp / "xdg" / "variantlib" / "variants.toml"
        where.parent.mkdir(parents=True, exist_ok=True)
        os.environ["XDG_CONFIG_HOME"] = str(c.tmp / "xdg")
    where.write_text(user_toml(conf))
    env.reset_caches()
    c.obs("selections")
    got = get_variants_by_priority(variants_json=sc.doc)
    want = sc.expected_labels()
    ctx = f"{json.dumps(sc.doc)} configuration={conf}"
    c.distinct(ctx)
    c.eq(got, want, f"selection with user configuration: {ctx}")
    if len(conf) == 1:
        # one-property variants whose item is not mentioned keep their relative order
        def mentioned(p):
            n, f, v = p
            return (n in conf.get("namespace_priorities", ())
                    or f in conf.get("feature_priorities", {}).get(n, ())
                    or v in conf.get("property_priorities", {}).get(n, {}).get(f, ()))
        quiet = {lab for lab, d in sc.variants.items() if len(d) == 1 and not mentioned(d[0])}
        level = next(iter(conf))
        groups = {}
        for lab in quiet:
            n, f, v = sc.variants[lab][0]
            key = (() if level == "namespace_priorities" else
                   (n,) if level == "feature_priorities" else (n, f))
            groups.setdefault(key, set()).add(lab)
        for g in groups.values():
            if len(g) > 1:
                c.obs("unmentioned_pairs")
                c.eq([x for x in got if x in g], [x for x in plain if x in g],
                     f"unmentioned items; {ctx}")
    c.sample({"config": conf, "selected": got})


WORKLOADS = [Workload(aggregate, 6000, 120000), Workload(selection, 1500, 30000)]
