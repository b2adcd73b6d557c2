"""V39 the validators judge types, patterns, lists and nested keys exactly."""
import collections
import copy
import enum
import itertools
import re
from collections.abc import Iterable
from typing import Any

from vmon import gen
from vmon.core import Workload
from variantlib.errors import ValidationError
from variantlib.models.provider import VariantFeatureConfig
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
from variantlib.protocols import PluginType, VariantFeatureConfigType
from variantlib.validators.base import (
    validate_list_all_unique,
    validate_list_matches_re,
    validate_list_min_len,
    validate_matches_re,
    validate_type,
)
from variantlib.validators.combining import validate_and, validate_or
from variantlib.validators.keytracking import KeyTrackingValidator
from variantlib.validators.packaging import validate_requirement_str

RULE = ("random type expressions (plain, nested lists, dictionaries and sets, Any, protocols, iterables) with values "
        "conforming, conforming but for one place at any depth, and unrelated ones; patterns and texts conforming but for "
        "an edge; lists with one duplicate or one short of the length; combinations of validators with recorded calls; "
        "walks over nested tables with missing, ill-typed, defaulted and unknown keys; distinct by kind, outcome and shape")
REQUIRED = ("types", "accepted", "rejected", "one_place", "deep", "large", "subclass", "protocols", "iterables_unconsumed",
            "patterns", "pattern_edges", "lists", "combined", "walks", "walks_accepted", "unknown_keys", "defaults",
            "requirements")


class Sub(int):
    pass


class SubFeature(VariantFeature):
    pass


class FullConfig:
    name, values, multi_value = "n", ["v"], False


class HalfConfig:
    name, values = "n", ["v"]


class FullPlugin:
    namespace = "n"
    is_aot_plugin = False

    def get_all_configs(self): return []
    def get_supported_configs(self): return []


class HalfPlugin:
    namespace = "n"

    def get_all_configs(self): return []


class Colour(enum.Enum):
    RED = "red"
    BLUE = "blue"

    def __str__(self):
        return self.value


F, P = VariantFeature("a", "b"), VariantProperty("a", "b", "c")
LEAVES = [int, bool, float, str, bytes, complex, type(None), VariantFeature, VariantProperty, VariantDescription]
HASHABLE = [int, bool, float, str, bytes, VariantFeature, VariantProperty]


def expr(rng, depth, hashable=False):
    """A type expression as ("leaf", type) | ("any",) | ("list"|"set"|"frozenset", item) | ("dict", key, value) | ..."""
    if hashable or depth == 0 or rng.random() < 0.25:
        r = rng.random()
        if r < 0.12:
            return ("any",)
        if r < 0.2 and not hashable:
            return ("iter",)
        if r < 0.28 and not hashable:
            return ("proto", rng.choice([VariantFeatureConfigType, PluginType]))
        return ("leaf", rng.choice(HASHABLE if hashable else LEAVES))
    k = rng.choice(["list", "list", "dict", "dict", "dict", "set", "frozenset"])
    if k == "dict":
        return ("dict", expr(rng, 0, True), expr(rng, depth - 1))
    return (k, expr(rng, depth - 1, k != "list"))


def build(t):
    k = t[0]
    if k == "leaf" or k == "proto":
        return t[1]
    if k == "any":
        return Any
    if k == "iter":
        return Iterable
    if k == "dict":
        return dict[build(t[1]), build(t[2])]
    return {"list": list, "set": set, "frozenset": frozenset}[k][build(t[1])]


def leaf(rng, t):
    n = rng.randrange(1000)
    return {int: n, bool: n % 2 == 0, float: n / 3, str: gen.rname(rng), bytes: b"%d" % n, complex: n * 1j,
            type(None): None, VariantFeature: VariantFeature("n", f"f{n}"), VariantProperty: VariantProperty("n", "f", f"{n}"),
            VariantDescription: VariantDescription([P] if n % 2 else [])}[t]


def size(rng, depth):
    return rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.97 or depth < 2 else rng.randint(200, 1500)


def conforming(rng, t, depth=2):
    k = t[0]
    if k == "leaf":
        return leaf(rng, t[1])
    if k == "any":
        return leaf(rng, rng.choice(HASHABLE))
    if k == "iter":
        return rng.choice([[], "abc", (1, 2), {3}, {"k": "v"}, iter([1]), (x for x in "ab"), range(3)])
    if k == "proto":
        return rng.choice([FullConfig(), VariantFeatureConfig("n", ["v"], False), FullConfig] if t[1] is VariantFeatureConfigType
                          else [FullPlugin(), FullPlugin])
    if k == "dict":
        return {conforming(rng, t[1]): conforming(rng, t[2], depth - 1) for _ in range(size(rng, depth))}
    items = [conforming(rng, t[1], depth - 1) for _ in range(size(rng, depth))]
    return {"list": list, "set": set, "frozenset": frozenset}[k](items)


def wrong(rng, t):
    """A (hashable if need be) value not conforming to t, or None if there is none."""
    k = t[0]
    if k == "any":
        return None
    if k == "leaf":
        pool = [1, True, 1.5, "t", b"t", None, F, P, VariantDescription(), Sub(3), (), ("a",), int, SubFeature("a", "b"), object()]
        return rng.choice([(v,) for v in pool if type(v) is not t[1]])
    if k == "iter":
        return (rng.choice([1, None, F, object(), 2.5]),)
    if k == "proto":
        return (rng.choice([1, "x", None, F] + ([HalfConfig(), FullPlugin()] if t[1] is VariantFeatureConfigType
                                                else [HalfPlugin(), FullConfig(), HalfPlugin])),)
    other = {"list": [(), ("a",), "abc", {}, {"a"}, None, iter([]), range(2)], "dict": [[], [("a", 1)], "a", None, set()],
             "set": [[], frozenset(), {}, None, "a"], "frozenset": [[], set(), {}, None, "a"]}[k]
    return (rng.choice(other),)


def spoil(rng, t, v, depth=0):
    """A copy of `v` (conforming to t) not conforming in exactly one place; None if that cannot be. Gives (value, depth)."""
    k = t[0]
    if k in ("leaf", "any", "iter", "proto") or (rng.random() < 0.2 and depth == 0) or not v:
        w = wrong(rng, t)
        return w and (w[0], depth)
    if k == "dict":
        key = rng.choice(list(v))
        if rng.random() < 0.3 and t[1][0] == "leaf":
            w = wrong(rng, t[1])[0]
            try:
                if w in v:
                    return None
            except TypeError:
                return None
            at = list(v).index(key)
            items = list(v.items())
            items[at] = (w, items[at][1])
            return dict(items), depth + 1
        s = spoil(rng, t[2], v[key], depth + 1)
        return s and ({**v, key: s[0]}, s[1])
    items = list(v)
    at = rng.randrange(len(items))
    s = spoil(rng, t[1], items[at], depth + 1)
    if s is None:
        return None
    if k == "list":
        items[at] = s[0]
        return items, s[1]
    try:
        new = type(v)([*items[:at], s[0], *items[at + 1:]])
    except TypeError:
        return None
    # equal values of different types (1, True, 1.0) replace each other in sets
    return (new, s[1]) if any(x is s[0] for x in new) else None


def accepts(func, *args):
    try:
        func(*args)
    except ValidationError:
        return False
    return True


def types(c):
    rng = c.rng
    t = expr(rng, rng.randint(0, 3))
    T = build(t)
    if T is Any:        # only documented inside containers
        t = ("list", t)
        T = build(t)
    v = conforming(rng, t, 2)
    c.obs("types")
    c.check(accepts(validate_type, v, T), "conforming value {} refused as {}", v, T)
    c.obs("accepted")
    if t[0] == "iter" and hasattr(v, "__next__"):
        c.check(len(list(v)) > 0, "{} was consumed", v)
        c.obs("iterables_unconsumed")
    c.obs("protocols", "proto" in str(t))
    c.obs("large", hasattr(v, "__len__") and len(v) >= 200)
    for _ in range(3):
        s = spoil(rng, t, v)
        if s is None:
            continue
        bad, depth = s
        c.check(not accepts(validate_type, bad, T), "{} accepted as {}", bad, T)
        c.obs("rejected")
        c.obs("one_place", depth > 0)
        c.obs("deep", depth > 1)
        c.obs("subclass", isinstance(bad, (Sub, SubFeature)) or "Sub" in repr(bad))
        c.distinct("type", T, depth, type(bad).__name__)
    # unrelated expression: judged by an oracle of its own
    t2 = expr(rng, rng.randint(0, 3))
    if t2[0] != "any":
        want = conforms(t2, v)
        if want is not None:
            c.eq(accepts(validate_type, v, build(t2)), want, f"{v!r} as {build(t2)}")


def conforms(t, v):
    """True, False, or None where the specification leaves it open (subclasses of iterable types)."""
    k = t[0]
    if k == "any":
        return True
    if k == "iter":
        return isinstance(v, Iterable)
    if k == "proto":
        names = (("name", "values", "multi_value") if t[1] is VariantFeatureConfigType
                 else None)
        return None if names is None else all(hasattr(v, n) for n in names)
    if k == "leaf":
        if type(v) is t[1]:
            return True
        return None if isinstance(v, t[1]) and issubclass(t[1], Iterable) else False
    kind = {"list": list, "dict": dict, "set": set, "frozenset": frozenset}[k]
    if not isinstance(v, kind):
        return False
    if type(v) is not kind:
        return None
    parts = [conforms(t[1], x) for x in v]
    if k == "dict":
        parts += [conforms(t[2], x) for x in v.values()]
    return False if False in parts else None if None in parts else True


PATTERNS = [(r"[a-z0-9_]+", ["a", "a_1", "x" * 300], ["", "A", "a-b", "é"]), (r"\d{2}", ["12", "00"], ["1", "123", "1a"]),
            (r"a|ab", ["a", "ab"], ["abb", "b", ""]), (r"(?P<x>[ab]*)c", ["c", "abc"], ["ab", "cc"]), (r"", [""], ["a"]),
            (r"[^,]*", ["a b", "", "x\ny"], [",", "a,b"])]


def patterns(c):
    rng = c.rng
    pat, good, bad = rng.choice(PATTERNS)
    p = rng.choice([pat, re.compile(pat)])
    prefix = rng.choice([None, "pre", ""])
    g = rng.choice(good)
    edges = [g + "\n", "\n" + g, " " + g, g + " ", g + "\n" + g, g + "\0", *bad]
    edges = [e for e in edges if pat != r"[^,]*" or "," in e]
    m = validate_matches_re(g, p, prefix)
    c.eq((m.group(0), m.string), (g, g), "match")
    c.obs("patterns")
    for e in edges:
        c.check(not accepts(validate_matches_re, e, p, prefix), "{} accepted as {}", e, pat)
        c.obs("pattern_edges")
    values = [rng.choice(good) for _ in range(rng.choice([0, 1, 3, 8, 200]))]
    make = rng.choice([list, tuple, dict.fromkeys, lambda v: dict.fromkeys(v).keys()])
    c.check(accepts(validate_list_matches_re, make(values), p, prefix), "{} refused as {}", values, pat)
    if values:
        values[rng.randrange(len(values))] = rng.choice(edges)
        c.check(not accepts(validate_list_matches_re, make(values), p, prefix), "{} accepted as {}", values, pat)
    c.distinct("pattern", pat, g, len(values), str(prefix))


def lists(c):
    rng = c.rng
    n = rng.choice([0, 1, 2, 3, 10, 300])
    values = [f"v{k}" for k in range(n)]
    rng.shuffle(values)
    for low in (0, 1, n - 1, n, n + 1, n + 5):
        c.eq(accepts(validate_list_min_len, values, low), n >= low, f"{n} items, at least {low}")
    c.check(accepts(validate_list_all_unique, values), "unique values refused")
    Item = collections.namedtuple("Item", "x y z")
    keys = gen.some(rng, ["x", "y", "z"], lo=1)
    items = [Item(*(rng.choice("ab") for _ in "xyz")) for _ in range(rng.randint(0, 7))]
    proj = [tuple(getattr(i, k) for k in keys) for i in items]
    c.eq(accepts(validate_list_all_unique, items, keys), len(set(proj)) == len(proj), f"{items} unique by {keys}")
    c.eq(accepts(validate_list_all_unique, items), len(set(items)) == len(items), f"{items} unique")
    # different ones of the same text, or hash
    alike = gen.shuffled(rng, [1, "1", 2, "2", None, "None", (1,), "(1,)", -1, -2, "", b"", "b''", Colour.RED, "red", "RED", F, str(F), ("a", "b"),
                               frozenset(), (), 0, 2**61 - 1, "a", "A", "é", "e\u0301"])[:rng.randint(2, 24)]
    c.check(accepts(validate_list_all_unique, alike), "different values {} refused", alike)
    if values:
        i = rng.randrange(n)
        values.insert(rng.randrange(n + 1), values[i])
        c.check(not accepts(validate_list_all_unique, values), "duplicate in {} not found", values)
    c.obs("lists")
    c.distinct("list", n, tuple(keys), tuple(items))


class Boom(Exception):
    pass


def combined(c):
    rng = c.rng
    kinds = [rng.choice(["ok", "bad", "bad", "boom"] if rng.random() < 0.4 else ["ok", "bad"]) for _ in range(rng.randint(1, 6))]
    calls = []

    def mk(i, kind):
        name = rng.choice(["validator", f"v{rng.randrange(9)}", "<lambda>"])

        def validator(v):
            calls.append((i, v))
            if kind == "bad":
                raise ValidationError(f"bad{i}")
            if kind == "boom":
                raise Boom(i)
        validator.__name__ = name
        return validator

    vs = [mk(i, k) for i, k in enumerate(kinds)]
    value = object()

    def run(f, order):
        calls.clear()
        try:
            f(order, value)
        except ValidationError as e:
            return str(e)
        except Boom:
            return "boom"
        return "ok"

    stop = next((i for i, k in enumerate(kinds) if k != "ok"), None)
    got = run(validate_and, vs)
    c.eq(got, "ok" if stop is None else {"bad": f"bad{stop}", "boom": "boom"}[kinds[stop]], f"all of {kinds}")
    c.eq(calls, [(i, value) for i in range(len(kinds) if stop is None else stop + 1)], f"calls for all of {kinds}")
    stop = next((i for i, k in enumerate(kinds) if k != "bad"), None)
    got = run(validate_or, vs)
    c.eq(got, f"bad{len(kinds) - 1}" if stop is None else kinds[stop], f"any of {kinds}")
    c.eq(calls, [(i, value) for i in range(len(kinds) if stop is None else stop + 1)], f"calls for any of {kinds}")
    c.raises(ValueError, lambda: validate_or([], value), "none of no validators")
    c.raises(ValueError, lambda: validate_and([], value), "no validators")
    c.obs("combined")
    c.distinct("combined", tuple(kinds))


def table(rng, depth):
    out = {}
    for k in gen.some(rng, ["alpha", "beta", "gamma", "delta", "k.dot", "é"], hi=4):
        r = rng.random()
        out[k] = (table(rng, depth - 1) if r < 0.45 and depth else rng.choice([["a", "b"], [], "text", True, 3, ["x1"], ""]))
    return out


TYPES = {"str": str, "bool": bool, "int": int, "list": list[str], "dict": dict[str, Any]}


def kind_ok(v, kind):
    if kind == "dict":
        return type(v) is dict
    if kind == "list":
        return type(v) is list and all(type(x) is str for x in v)
    return type(v) is TYPES[kind]


class Refuse(Exception):
    pass


def walks(c):
    """A random but fixed walk, made on the validator and on a model."""
    rng = c.rng
    data = table(rng, 3)
    before = copy.deepcopy(data)
    top = rng.choice([None, "top", "tool"])

    def plan(d, depth):
        out = []
        for k in gen.shuffled(rng, [*d, *gen.some(rng, ["alpha", "beta", "extra"], hi=1)]):
            if rng.random() < 0.06:
                continue
            v = d.get(k)
            kind = next((n for n in TYPES if kind_ok(v, n)), "str")
            if rng.random() < 0.05 or k not in d:
                kind = rng.choice(list(TYPES))
            default = rng.choice([None, [], {}, False, "dflt"]) if rng.random() < (0.9 if k not in d else 0.2) else Refuse
            sub = plan(v, depth - 1) if isinstance(v, dict) and k in d else []
            out.append((k, kind, default, rng.random() < 0.15, sub))
        return out

    steps = plan(data, 3)

    def model(d, steps, path):
        for k, kind, default, ignore, sub in steps:
            here = [*path, k]
            if k not in d:
                if default is Refuse:
                    raise Refuse(f"{here} missing")
                v = default
                given = False
            else:
                v, given = d[k], True
                if v is not default and not kind_ok(v, kind):
                    raise Refuse(f"{here} type")
            trace.append((".".join(here), copy.deepcopy(v)))
            if given:
                model(v, sub, here) if isinstance(v, dict) else None
            if isinstance(v, dict) and not ignore and v.keys() - ({s[0] for s in sub} if given else set()):
                raise Refuse(f"{here} unknown")

    trace, want = [], None
    try:
        model(data, steps, [top] if top else [])
    except Refuse as e:
        want = str(e)
    seen = []

    def walk(val, d, steps):
        for k, kind, default, ignore, sub in steps:
            args = {} if default is Refuse else {"default": default}
            if ignore:
                args["ignore_subkeys"] = True
            with val.get(k, TYPES[kind], **args) as v:
                seen.append((val.key, copy.deepcopy(v)))
                if k in d and isinstance(v, dict):
                    walk(val, v, sub)
            c.obs("defaults", k not in d)

    val = KeyTrackingValidator(top, data)
    start = val.key
    try:
        walk(val, data, steps)
        got = None
    except ValidationError as e:
        got = str(e)
    c.eq(got is None, want is None, f"walk over {data}: {steps}; expected {want}, got {got}")
    c.eq(seen, trace, f"places visited in {data}")
    c.eq(data, before, "data changed")
    if got is None:
        c.eq(val.key, start, "key after the walk")
        c.obs("walks_accepted")
    else:
        c.obs("unknown_keys", "unknown" in want)
    c.obs("walks")
    c.distinct("walk", str(want)[-8:], len(trace), str(data)[:80])
    # the value at hand is what further judgements are about
    doc = {"k": {"c": rng.choice(["red", "blue", "RED", "green", "Colour.RED", ""]), "l": [rng.choice(["a1", "B", "a\n"])]}}
    val = KeyTrackingValidator(None, doc)
    with val.get("k", dict[str, Any]):
        with val.get("c", str) as col:
            c.eq(accepts(val.matches_enum, Colour), col in ("red", "blue"), f"{col!r} in the enumeration")
            c.eq(accepts(val.matches_re, r"[a-z]+"), bool(re.fullmatch(r"[a-z]+", col)), f"{col!r} matches")
        with val.get("l", list[str]) as lst:
            c.eq(accepts(val.list_matches_re, r"[a-z0-9]+"), lst == ["a1"], f"{lst!r} matches")
    for bad in ([], "x", None, {1: 2}):
        c.raises(ValidationError, lambda bad=bad: KeyTrackingValidator(top, bad), f"{bad!r} as a table")


REQS = (["a", "a-b>=1", "a [x,y] ==1.*; python_version>'3'", "a @ https://e.x/y.whl", "A.b_c", "a>=1,<2", "a ~=1.0",
         "a;sys_platform=='linux'", " a "],
        ["", "-a", "a b", "a>=", "a[", "a; python", "a==1 2", "@ x", "a,b", "a;extra=", "\n", "é"])


def requirements(c):
    rng = c.rng
    good = rng.choice(REQS[0])
    c.check(accepts(validate_requirement_str, good), "{} refused", good)
    bad = rng.choice(REQS[1])
    c.check(not accepts(validate_requirement_str, bad), "{} accepted", bad)
    c.obs("requirements", 2)
    c.distinct("req", good, bad)


WORKLOADS = [Workload(types, 3000, 60000), Workload(patterns, 300, 4000), Workload(lists, 300, 6000),
             Workload(combined, 400, 8000), Workload(walks, 2500, 50000), Workload(requirements, 80, 400)]
