"""V37 features, properties, descriptions and configurations behave as immutable values."""
import copy
import dataclasses
import itertools

from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VD, VF, VP, VPs, td, tp
from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
from variantlib.models.variant import (
    VariantDescription,
    VariantFeature,
    VariantProperty,
    VariantValidationResult,
)

RULE = ("groups of features, properties, descriptions and provider configurations over small colliding alphabets "
        "(equal names in different places, neighbouring and exchanged components, equal short hashes), equal ones "
        "made by different routes; every pair compared, ordered, hashed, looked up in sets and dictionaries before "
        "and after lazily computed attributes were read; every attribute attacked; distinct by pair of components")
REQUIRED = ("pairs", "equal_pairs", "unequal_pairs", "ordered_pairs", "cross_kind", "lookups", "attacks", "copies",
            "sorted", "equal_short_hashes", "list_detached", "config_pairs", "verdicts")


def touch(rng, o):
    """Read lazily computed attributes."""
    for a in ("feature_hash", "property_hash", "feature_object", "hexdigest"):
        if rng.random() < 0.5:
            getattr(o, a, None)
    if rng.random() < 0.3:
        hash(o) if not isinstance(o, (VariantDescription, VariantFeatureConfig, ProviderConfig)) else repr(o)
    return o


def make_property(rng, p):
    r = rng.randrange(5)
    if r == 0:
        return VP(p)
    if r == 1:
        return VariantProperty.from_str(rng.choice(["{}::{}::{}", " {} ::  {}::{} "]).format(*p))
    if r == 2:
        return VariantProperty.deserialize(dict(gen.shuffled(rng, zip(("namespace", "feature", "value"), p))))
    if r == 3:
        return dataclasses.replace(VP(("zz", "zz", "zz")), namespace=p[0], feature=p[1], value=p[2])
    return copy.deepcopy(VP(p)) if rng.random() < 0.5 else copy.copy(VP(p))


def make_feature(rng, p):
    r = rng.randrange(5)
    if r == 0:
        return VF(p)
    if r == 1:
        return VariantFeature.from_str(f"{p[0]} ::{p[1]}")
    if r == 2:
        return VariantFeature.deserialize({"feature": p[1], "namespace": p[0]})
    if r == 3:
        return VP((*p[:2], "v")).feature_object
    return copy.deepcopy(VF(p))


def neighbours(rng, p):
    n, f, v = p
    out = [p, (f, n, v), (n, f, v + "0"), (n, f + "0", v), (n + "0", f, v), (n, n, v), (f, f, v)]
    if len(n) > 1 and model.is_name(n[:-1]):
        out.append((n[:-1], n[-1] + f, v))
    if len(v) > 1:
        out.append((n, f, v[:-1]))
    for sep in ("", "_"):       # text on either side of a separator
        out += [(n, f + sep + "x", "y" + v), (n, f, "x" + sep + "y" + v) if not sep else (n, f, "x_y" + v),
                (n, f + sep + "x", v), (n, f, "x" + sep + v), (n + sep + "x", f, v), (n, "x" + sep + f, v)]
    if model.is_name(v):
        out += [(n, v, f), (v, f, n)]
    return out


def components(c):
    rng = c.rng
    sp = gen.Space(rng, max_ns=3, max_feat=3, max_val=3, min_ns=1)
    ps = [sp.prop(0.2) for _ in range(rng.choice([1, 1, 3]))]
    ps = gen.shuffled(rng, sorted({q for p in ps for q in neighbours(rng, p) if all(map(model.is_name, q[:2]))}))[:14]
    items = [(p, touch(rng, make_property(rng, p))) for p in ps for _ in range(rng.choice([1, 2]))]
    feats = [(p[:2], touch(rng, make_feature(rng, p))) for p in ps for _ in range(rng.choice([1, 2]))]
    for group, attr in ((items, "property_hash"), (feats, "feature_hash")):
        for (a, x), (b, y) in itertools.product(group, repeat=2):
            c.obs("pairs")
            c.obs("equal_pairs" if a == b else "unequal_pairs")
            c.distinct(a, b)
            c.eq((x == y, x != y), (a == b, a != b), f"equality of {a} and {b}")
            c.obs("ordered_pairs")
            c.eq((x < y, x <= y, x > y, x >= y), (a < b, a <= b, a > b, a >= b), f"order of {a} and {b}")
            c.eq(getattr(x, attr) == getattr(y, attr), a == b, f"{attr} of {a} and {b}")
            if a == b:
                c.eq(hash(x), hash(y), f"hash of equal {a}")
        c.obs("sorted")
        c.eq([repr(y) for y in sorted(x for _, x in group)],
             [repr(y) for _, y in sorted(group, key=lambda t: t[0])], "sorted components")
        c.obs("lookups")
        keys = {a for a, _ in group}
        c.eq(len({x for _, x in group}), len(keys), "distinct components in a set")
        dct = {x: a for a, x in group}
        for a, x in group:
            c.eq(dct[copy.deepcopy(x)], a, "dictionary entry of an equal component")
    for (a, x), (b, y) in itertools.product(items, feats):
        c.obs("cross_kind")
        c.check(x != y and y != x and not x == y, "property {} equals feature {}", a, b)
        c.eq(x.feature_hash == y.feature_hash, a[:2] == b, f"feature_hash of {a} and {b}")
        c.eq(x.feature_object == y, a[:2] == b, f"feature of {a} and feature {b}")
        c.check(x not in {y} and x != a and y != b and x != x.to_str(), "{} equals something else", a)
    for a, x in items + feats:
        attack(c, x, dict(zip(("namespace", "feature", "value"), a)))


def attack(c, x, want):
    rng = c.rng
    before = repr(x)
    for name in gen.shuffled(rng, [*want, "feature_hash", "unknown"]):
        c.obs("attacks")
        for do in (lambda: setattr(x, name, "zz"), lambda: delattr(x, name)):
            try:
                do()
            except (AttributeError, TypeError):
                continue
            c.fail(f"attribute {name} of {before} was replaced or removed: {x!r}")
    c.eq({k: getattr(x, k) for k in want}, want, "components afterwards")


def descriptions(c):
    rng = c.rng
    sp = gen.Space(rng, max_ns=3, max_feat=3, max_val=3)
    base = sp.desc(max_props=rng.choice([1, 2, 4, 8]))
    descs = {tuple(sorted(base)), ()}
    for p in base:
        descs.add(tuple(sorted(set(base) - {p})))
        for q in neighbours(rng, p):
            if all(map(model.is_name, q[:2])):
                descs.add(tuple(sorted((set(base) - {p}) | {q})))
    descs = gen.shuffled(rng, sorted(descs))[:8]
    if rng.random() < 0.3:
        descs += [(("a", "f", v),) for v in rng.choice(gen.COLLIDING)]
        c.obs("equal_short_hashes")
    objs = []
    for d in descs:
        for _ in range(2):
            given = [make_property(rng, p) for p in gen.shuffled(rng, d)]
            o = VariantDescription(given)
            if rng.random() < 0.3:
                given.clear() if rng.random() < 0.5 else given.append(VP(("zz", "zz", "zz")))
                c.obs("list_detached")
            r = rng.random()
            if r < 0.2:
                o = copy.deepcopy(o)
            elif r < 0.3:
                o = dataclasses.replace(VD([("zz", "zz", "zz")]), properties=VPs(d))
            elif r < 0.4:
                o = VariantDescription(o.properties)
            objs.append((d, touch(rng, o)))
    for (a, x), (b, y) in itertools.product(objs, repeat=2):
        c.obs("pairs")
        c.obs("equal_pairs" if a == b else "unequal_pairs")
        c.distinct(a, b)
        c.eq((x == y, x != y), (a == b, a != b), f"equality of {a} and {b}")
        c.eq(x.hexdigest == y.hexdigest, model.vhash(a) == model.vhash(b), f"hexdigest of {a} and {b}")
    for d, x in objs:
        c.eq(td(x), d, "properties exposed")
        c.check(x != list(map(VP, d)) and x != x.hexdigest and x != tuple(d), "{} equals something else", d)
        c.eq([o for o, _ in objs if o == d], [o for o, y in objs if y == x], "occurrences")
        c.eq([y for _, y in objs].index(x), [o for o, _ in objs].index(d), "position in a list")
        for name in ("properties", "unknown"):
            c.obs("attacks")
            try:
                setattr(x, name, [])
            except (AttributeError, TypeError):
                continue
            c.fail(f"attribute {name} of {d} was replaced")
        c.obs("copies")
        y = copy.deepcopy(x)
        y.properties.append(VP(("zz", "zz", "zz")))
        c.eq(td(x), d, "properties after a deep copy was changed")
        c.eq(x.hexdigest, model.vhash(d), "hexdigest after a deep copy was changed")
        for out in (x.to_dict(), x.serialize()):
            out.clear()
        nested = x.to_dict()
        for m in nested.values():
            for vs in m.values():
                vs.append("scrambled")
        c.eq(td(x), d, "properties after their dictionary form was changed")


def configurations(c):
    rng = c.rng
    trees = []
    sp = gen.Space(rng, max_ns=2, max_feat=3, max_val=3, min_ns=1)
    for ns, feats in sp.tree.items():
        cfg = [(f, tuple(vs), rng.random() < 0.5) for f, vs in feats.items()]
        trees.append((ns, tuple(cfg)))
        trees.append((ns, tuple(cfg[::-1])))
        trees.append((ns + "0", tuple(cfg)))
        f, vs, m = cfg[0]
        trees.append((ns, ((f, vs[::-1], m), *cfg[1:])))
        trees.append((ns, ((f, vs, not m), *cfg[1:])))
        trees.append((ns, ((f, (*vs, "zz" * 9), m), *cfg[1:])))
        trees.append((ns, ((f + "0", vs, m), *cfg[1:])))
    seen = []
    for ns, cfg in trees:
        if len({f for f, _, _ in cfg}) != len(cfg):
            continue
        o = ProviderConfig(namespace=ns, configs=[VariantFeatureConfig(name=f, values=list(vs), multi_value=m)
                                                  for f, vs, m in cfg])
        seen.append(((ns, cfg), o))
    for (a, x), (b, y) in itertools.product(seen, repeat=2):
        c.obs("config_pairs")
        c.distinct(a, b)
        c.eq((x == y, x != y), (a == b, a != b), f"equality of {a} and {b}")
    for (ns, cfg), x in seen:
        c.eq([tp(p) for p in x.to_list_of_properties()], [(ns, f, v) for f, vs, _ in cfg for v in vs],
             f"properties listed for {ns} {cfg}")
        c.eq([tp(p) for p in x.to_list_of_properties()], [(ns, f, v) for f, vs, _ in cfg for v in vs],
             f"properties listed again for {ns} {cfg}")
        for o, names in ((x, ("namespace", "configs")), (x.configs[0], ("name", "values", "multi_value"))):
            for name in names:
                c.obs("attacks")
                try:
                    setattr(o, name, getattr(o, name))
                except (AttributeError, TypeError):
                    continue
                c.fail(f"attribute {name} of {o!r} was replaced")


def verdicts(c):
    """Verdict objects answer from the results they were given."""
    rng = c.rng
    sp = gen.Space(rng, max_ns=3, max_feat=3, max_val=3, min_ns=1)
    ps = list(sp.desc(max_props=6, null=0.1))
    marks = {p: rng.choice([True, True, True, False, None]) for p in ps}
    multi = {p[:2] for p in ps if rng.random() < 0.1}
    r = VariantValidationResult({VP(p): marks[p] for p in ps}, frozenset(VF((*k, "v")) for k in multi))
    c.distinct(tuple(marks.items()), tuple(sorted(multi)))
    for _ in range(2):
        c.obs("verdicts")
        bad, unknown = [p for p in ps if marks[p] is False], [p for p in ps if marks[p] is None]
        c.eq([tp(p) for p in r.invalid_properties], bad, f"invalid of {marks}")
        c.eq([tp(p) for p in r.unknown_properties], unknown, f"unknown of {marks}")
        c.eq(r.is_valid(), not multi and not bad, f"validity of {marks} {multi}")
        c.eq(r.is_valid(allow_unknown_plugins=False), not multi and not bad and not unknown,
             f"strict validity of {marks} {multi}")
        c.eq(r.is_valid(True), r.is_valid(allow_unknown_plugins=True), "validity")


WORKLOADS = [Workload(components, 500, 12000), Workload(descriptions, 700, 15000),
             Workload(configurations, 300, 6000), Workload(verdicts, 800, 15000)]
