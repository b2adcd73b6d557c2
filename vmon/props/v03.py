"""V03 constructors: accepted iff the components have the documented types and grammar."""
from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VP, td
from variantlib.errors import ValidationError
from variantlib.models.configuration import VariantConfiguration
from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty

RULE = ("each constructor called with valid, slightly wrong and wildly wrong components; the verdict "
        "must equal the reference grammar's; distinct by arguments")
REQUIRED = ("built", "refused", "descriptions", "feature_configs", "provider_configs", "user_configs")
JUNK = [None, 0, 1, True, False, 1.5, b"a", [], {}, ["a"], ("a",), {"a": "b"}, object]


def word(rng, f):
    r = rng.random()
    if r < 0.6:
        return f(rng)
    if r < 0.9:
        if rng.random() < 0.5:
            return rng.choice(gen.BAD_STRINGS)
        s = f(rng)
        k = rng.randint(0, len(s))
        return s[:k] + rng.choice(["\n", " ", "A", "-", "é", "٣", ".", ":", "Z", "\x00", "/"]) + s[k:]
    return rng.choice(JUNK)


def attempt(c, want, func, what, same=lambda o: None):
    c.distinct(what)
    if want:
        c.obs("built")
        try:
            o = func()
        except Exception as e:  # noqa: BLE001
            c.fail(f"{what}: refused with {type(e).__name__}: {e}")
        same(o)
        return o
    c.obs("refused")
    c.raises(ValidationError, func, what)
    return None


def words(c):
    rng = c.rng
    for _ in range(12):
        n, f, v = word(rng, gen.ns), word(rng, gen.feat), word(rng, gen.val)
        okf = model.is_name(n) and model.is_name(f)
        attempt(c, okf, lambda: VariantFeature(n, f), f"VariantFeature{(n, f)!r}",
                lambda o: c.eq((o.namespace, o.feature), (n, f), "exposed"))
        attempt(c, okf and model.is_value(v), lambda: VariantProperty(n, f, v),
                f"VariantProperty{(n, f, v)!r}",
                lambda o: c.eq((o.namespace, o.feature, o.value), (n, f, v), "exposed"))


def descriptions(c):
    rng = c.rng
    c.obs("descriptions")
    ps = [VP(p) for p in gen.shuffled(rng, gen.Space(rng).desc(max_props=8))]
    mode = rng.randrange(4)
    ok = True
    if mode == 1 and ps:
        ps.insert(rng.randint(0, len(ps)), VP((ps[0].namespace, ps[0].feature, ps[0].value)))
        ok = False
    elif mode == 2:
        ps.insert(rng.randint(0, len(ps)), rng.choice(
            [None, 1, "a :: b :: c", VariantFeature("a", "b"), ("a", "b", "c"), {}, []]))
        ok = False
    elif mode == 3:
        ps = rng.choice([None, 1, 1.5, True])
        ok = False

    def same(o):
        c.eq(td(o), tuple(sorted((p.namespace, p.feature, p.value) for p in ps)), "sorted properties")
        c.eq(o.is_null_variant(), not ps, "null")
    attempt(c, ok, lambda: VariantDescription(ps), f"VariantDescription({ps!r})", same)


def feature_config(rng):
    name = word(rng, gen.feat) if rng.random() < 0.3 else gen.feat(rng)
    r = rng.random()
    values = gen.distinct(rng, gen.val, rng.randint(1, 5))
    if r < 0.1:
        values = []
    elif r < 0.25:
        values.insert(rng.randint(0, len(values)), rng.choice(values))
    elif r < 0.45:
        values[rng.randrange(len(values))] = word(rng, gen.val)
    elif r < 0.5:
        values = rng.choice([None, "a", 1, tuple(values), set(values), {v: 1 for v in values}])
    return name, values, rng.random() < 0.5


def fc_ok(name, values):
    return (model.is_name(name) and isinstance(values, list) and len(values) > 0
            and all(model.is_value(v) for v in values) and len(set(values)) == len(values))


def configs(c):
    rng = c.rng
    good = []
    for _ in range(6):
        name, values, multi = feature_config(rng)
        c.obs("feature_configs")

        def same(o):
            c.eq((o.name, o.values, o.multi_value), (name, values, multi), "feature config exposed")
        o = attempt(c, fc_ok(name, values), lambda: VariantFeatureConfig(name, values, multi),
                    f"VariantFeatureConfig{(name, values, multi)!r}", same)
        if o is not None:
            good.append(o)
    n = word(rng, gen.ns) if rng.random() < 0.3 else gen.ns(rng)
    lst = gen.some(rng, good)
    r = rng.random()
    if r < 0.1:
        lst.append(rng.choice([None, 1, "a", {"name": "a", "values": ["b"], "multi_value": False}]))
    elif r < 0.15:
        lst = rng.choice([None, tuple(lst), "a", {}])
    elif r < 0.3 and lst:
        lst.insert(rng.randint(0, len(lst)), VariantFeatureConfig(lst[0].name, ["other"], True))
    ok = (model.is_name(n) and isinstance(lst, list) and len(lst) > 0
          and all(isinstance(x, VariantFeatureConfig) for x in lst)
          and len({x.name for x in lst}) == len(lst))
    c.obs("provider_configs")

    def same(o):
        c.eq(o.namespace, n, "namespace")
        c.check(o.configs == lst, "provider configs exposed")
        c.eq([(p.namespace, p.feature, p.value) for p in o.to_list_of_properties()],
             [(n, x.name, v) for x in lst for v in x.values], "listed properties")
    attempt(c, ok, lambda: ProviderConfig(n, lst), f"ProviderConfig({n!r}, {lst!r})", same)


def user_config(c):
    rng = c.rng
    c.obs("user_configs")
    sp = gen.Space(rng)
    nsp, fp, pp = gen.shuffled(rng, sp.tree), gen.feat_prios(rng, sp), gen.prop_prios(rng, sp)
    ok = True
    mode = rng.randrange(8)
    junk = [None, 1, "a", True, 1.5]
    badname = rng.choice([x for x in gen.BAD_STRINGS if not model.is_name(x)])
    if mode == 0:
        nsp.insert(rng.randint(0, len(nsp)), rng.choice([badname, 1, None, ["a"]]))
        ok = False
    elif mode == 1:
        nsp = rng.choice([*junk, {}, ("a",)])
        ok = False
    elif mode == 2:
        fp[badname] = ["a"]
        ok = False
    elif mode == 3:
        fp = rng.choice([*junk, [], {"a": "b"}, {"a": [1]}, {"a": None}, {1: ["a"]}, {"a": {"b": ["c"]}}])
        ok = False
    elif mode == 4:
        pp[badname] = {"a": ["b"]}
        ok = False
    elif mode == 5:
        pp = rng.choice([*junk, [], {"a": ["b"]}, {"a": {"b": "c"}}, {"a": {"b": [1]}}, {"a": {1: ["b"]}},
                         {1: {"a": ["b"]}}, {"a": {"b": None}}])
        ok = False

    def same(o):
        c.eq(o.namespace_priorities, nsp, "namespace priorities")
        c.eq(o.feature_priorities, fp, "feature priorities")
        c.eq(o.property_priorities, pp, "property priorities")
        c.eq(o.to_dict(), {"namespace_priorities": nsp, "feature_priorities": fp,
                           "property_priorities": pp}, "dictionary form")
    attempt(c, ok, lambda: VariantConfiguration(nsp, fp, pp),
            f"VariantConfiguration({nsp!r}, {fp!r}, {pp!r})", same)


WORKLOADS = [Workload(words, 15000, 60000), Workload(descriptions, 15000, 50000),
             Workload(configs, 15000, 60000), Workload(user_config, 15000, 50000)]
