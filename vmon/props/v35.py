"""V35 cost: CPU time of every operation watched while its input grows and takes awkward shapes."""
import json
import math
import os
import pathlib
import re
import signal
import tempfile
import time

from vmon import env, gen, wheels
from vmon.core import Workload
from vmon.lib import VD, VPs, VF
from variantlib import api
from variantlib.configuration import VariantConfiguration
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
from variantlib.plugins.loader import PluginLoader
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants
from variantlib.resolver.sorting import sort_variant_properties, sort_variants_descriptions
from variantlib.utils import (aggregate_feature_priorities, aggregate_namespace_priorities,
                              aggregate_property_priorities)
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

RULE = ("texts of up to 20000 characters repeating random units with random beginnings and ends are given to every "
        "parser, document field and file name; documents, lists, priorities, archives and directories of random shape "
        "are doubled until an operation takes a noticeable time, and the CPU time of consecutive sizes compared; "
        "a call exceeding its CPU limit is interrupted and reported; distinct by operation and shape")
REQUIRED = ("texts", "texts_accepted", "texts_refused", "growth_steps", "measured_exponents", "large_calls")
ASSUMPTIONS = ["CPU time of the process as told by the kernel; growth is judged with a margin of more than a power of "
               "the size over what is observed on the unchanged code"]
TEXT_LIMIT, CALL_LIMIT, EXPONENT = 10.0, 60.0, 3.4


class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong


def timed(f, limit):
    """(CPU seconds, value or exception); None seconds if interrupted."""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    value = None
    t = time.process_time()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        value = f()
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except TooLong:
        return None, None
    except Exception as e:  # noqa: BLE001
        value = e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return time.process_time() - t, value


# -- texts -------------------------------------------------------------------
UNITS = ["a", "A", "_", "0", ".", "-", " ", ":", "::", " :: ", "a::", "a ", "a.", "a-", "1-", ".a", "-1", "\t", "\n",
         "é", "(", ")", "or ", "'", "==", ",", "a ::b ", "=='1' or ", "x-1-", "-.whl", "[", "]", ";", "@", "/", "a_", "a:"]
ENDS = ["", "", "!", " ::", "::", "\n", ".whl", " ", "-", ".", ":", "é", "A", "-py3-none-any.whl"]


def a_text(rng, n):
    if rng.random() < 0.4:  # fits a rule nearly everywhere
        return rng.choice(["a", "a", "0", "_", "a0", "a_", "a.", "1.", "x-", " "]) * (n // 2) + rng.choice(ENDS)
    unit = "".join(rng.choice(UNITS) for _ in range(rng.choice([1, 1, 2, 3])))
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        parts.append(unit * (n // len(unit) // 2))
        unit = rng.choice(UNITS)
    return rng.choice(["", "", "a", "a :: ", "a :: b :: ", "a-1-", "x ; "]) + "".join(parts) + rng.choice(ENDS)


def index(provider=None, name="a", label="x", desc=None, prio=None, static=None):
    doc = {"default-priorities": prio or {"namespace": [name]},
           "providers": {name: provider or {"requires": ["x"]}}, "variants": {label: desc or {}}}
    if static:
        doc["static-properties"] = static
        doc["providers"][name] = {"install-time": False}
    return doc


def _named(s):
    """An empty file named after the text."""
    d = pathlib.Path(tempfile.mkdtemp(dir="."))
    name = re.sub(r"[/\0]", "-", s).encode()[:220].decode("utf8", "ignore")
    name = name.removesuffix(".whl") + ["", "-1-py3", "-1-py3-none-any", "-"][len(name) % 4]
    (d / f"{name}.whl").touch()
    return d, d / f"{name}.whl"


def file_name(s):
    d, p = _named(s)
    return env.cli(["unmake-variant", "analyze-wheel"][len(s) % 2], *(
        ["-f", p, "-o", d] if len(s) % 2 == 0 else ["-i", p])).exc


def listed_name(s):
    d, p = _named(s)
    return env.cli("generate-index-json", "-d", d).exc


PARSERS = {
    "feature": VariantFeature.from_str,
    "property": VariantProperty.from_str,
    "property parts": lambda s: VariantProperty(s, s, s),
    "feature name": lambda s: VariantFeature("a", s),
    "value": lambda s: VariantProperty("a", "b", s),
    "property list": lambda s: VD([("a", "b", "c")]) and VariantDescription([VariantProperty.from_str(s)]),
    "label": lambda s: api.get_variant_label(VD([("a", "b", "c")]), s),
    "namespace": lambda s: VariantsJson(index(name=s)),
    "document label": lambda s: VariantsJson(index(label=s, desc={"a": {"f": ["v"]}})),
    "document feature": lambda s: VariantsJson(index(desc={"a": {s: ["v"]}})),
    "document value": lambda s: VariantsJson(index(desc={"a": {"f": [s]}})),
    "requirement": lambda s: VariantsJson(index({"requires": [s]})),
    "enable-if": lambda s: VariantsJson(index({"requires": ["x"], "enable-if": s})),
    "plugin-api": lambda s: VariantsJson(index({"requires": ["x"], "plugin-api": s})),
    "object reference": lambda s: VariantsJson(index({"requires": [s]})).providers["a"].object_reference,
    "unknown setting": lambda s: VariantsJson(index({"requires": ["x"], s: True})),
    "static feature": lambda s: VariantsJson(index(static={"a": {s: ["v"]}})),
    "static value": lambda s: VariantsJson(index(static={"a": {"f": [s]}})),
    "priorities": lambda s: VariantsJson(index(prio={"namespace": ["a"], "feature": {"a": [s]},
                                                     "property": {"a": {s: [s]}}})),
    "project settings": lambda s: VariantPyProjectToml({"variant": {
        "default-priorities": {"namespace": ["a"]}, "providers": {"a": {"requires": [s], "plugin-api": s}}}}),
    "wheel document": lambda s: VariantDistInfo(s),
    "wheel document text": lambda s: VariantDistInfo(json.dumps(index(label=s, desc={"a": {"f": [s]}}))),
    "schema": lambda s: VariantsJson({**index(), "$schema": s}),
    "expected label": lambda s: VariantDistInfo(json.dumps(index(desc={"a": {"f": ["v"]}})), s),
    "hash command": lambda s: env.cli("get-variant-hash", "-p", s).exc,
    "wheel name": file_name, "wheel name listed": listed_name,
}


def texts(c):
    rng = c.rng
    name = sorted(PARSERS)[c.i % len(PARSERS)]
    f = PARSERS[name]
    os.chdir(c.tmp)
    for _ in range(6):
        seed = rng.randrange(1 << 30)
        for n in (40, 1000, 20000):
            if n > 1000 and "command" in name:
                n = 5000
            s = a_text(type(rng)(seed), n)
            t, v = timed(lambda: f(s), TEXT_LIMIT)  # noqa: B023
            c.obs("texts")
            c.check(t is not None and t < TEXT_LIMIT, "{}: {} characters ({!r}...{!r}) not decided within {} s of CPU time",
                    name, len(s), s[:40], s[-20:], TEXT_LIMIT)
            bad = isinstance(v, BaseException)
            c.obs("texts_refused" if bad else "texts_accepted")
        c.distinct(name, s[:30], s[-10:])


# -- growth ------------------------------------------------------------------
def tree(rng, s, dims):
    """Namespaces -> features -> values, the dimensions in `dims` growing with s."""
    k = max(1, round(s ** (1 / len(dims))))
    n, f, v = (k if d in dims else 2 for d in "nfv")
    return {f"n{i}": {f"f{j}": [f"v{x}" for x in range(v)] for j in range(f)} for i in range(n)}


def big_doc(rng, s, dims, nvar):
    t = tree(rng, s, dims)
    props = [(n, f, v) for n, fs in t.items() for f, vs in fs.items() for v in vs]
    nss = gen.shuffled(rng, t)
    prio = {"namespace": nss, "feature": {n: gen.shuffled(rng, fs) for n, fs in t.items()}}
    if rng.random() < 0.7:
        prio["property"] = {n: {f: gen.shuffled(rng, vs) for f, vs in fs.items()} for n, fs in t.items()}
    variants = {}
    for i in range(nvar):
        d = {}
        mode = rng.randrange(3)
        # one feature with a value that nothing supports
        odd = rng.choice([None, ("n0", "f0"), props[-1][:2], rng.choice(props)[:2]])
        for n, fs in t.items():
            for f, vs in fs.items():
                if (n, f) == odd:
                    d.setdefault(n, {})[f] = ["zz"]
                elif mode == 0 or rng.random() < 0.5:
                    d.setdefault(n, {})[f] = [vs[(i * 7 + len(d)) % len(vs)]] if mode < 2 else list(vs)
        d.setdefault("n0", {}).setdefault("f0", [])
        if odd != ("n0", "f0"):
            d["n0"]["f0"] = sorted({*d["n0"]["f0"], t["n0"]["f0"][i % len(t["n0"]["f0"])]})
        variants[f"l{i}"] = d
    seen, out = set(), {}
    for lab, d in variants.items():
        if (key := json.dumps(d, sort_keys=True)) not in seen:
            seen.add(key)
            out[lab] = d
    return {"default-priorities": prio, "providers": {n: {"install-time": False} for n in t},
            "static-properties": t, "variants": out}, props


def by_doc(op):
    def family(c, rng):
        dims = rng.choice(["n", "f", "v", "nf", "fv", "nv", "nfv"])
        grow_variants = rng.random() < 0.5
        seed = rng.randrange(1 << 30)

        def make(s):
            r = type(rng)(seed)
            doc, props = big_doc(r, 4 if grow_variants and "v" not in dims else s, dims,
                                 s if grow_variants else 3)
            if grow_variants and "v" not in dims:
                # many different variants need many properties
                doc, props = big_doc(r, max(4, s), "v", s)
            return op(c, doc, props, r)
        return make, f"{dims} {'variants' if grow_variants else ''}"
    return family


def prepared(kind, f):
    """An operation on something built beforehand from the document."""
    def op(c, doc, props, rng):
        obj = kind(doc)
        return lambda: f(obj, props)
    return by_doc(op)


def lists(f):
    def family(c, rng):
        dims = rng.choice(["n", "f", "v", "nf", "fv", "nfv"])
        seed = rng.randrange(1 << 30)

        def make(s):
            r = type(rng)(seed)
            t = tree(r, s, dims)
            props = [(n, x, v) for n, fs in t.items() for x, vs in fs.items() for v in vs]
            return f(c, r, t, props)
        return make, dims
    return family


def op_sort_properties(c, r, t, props):
    ps = VPs(gen.shuffled(r, props))
    nss = gen.shuffled(r, t)
    fp = {n: gen.shuffled(r, fs) for n, fs in t.items()}
    return lambda: sort_variant_properties(ps, nss, fp, t)


def op_sort_variants(c, r, t, props):
    ps = VPs(gen.shuffled(r, props))
    ds = [VD([p]) for p in gen.shuffled(r, props)] + [VariantDescription()]
    return lambda: sort_variants_descriptions(ds, ps)


def op_filter(c, r, t, props):
    ps = VPs(gen.shuffled(r, props))
    ds = [VD(sorted({p, *r.sample(props, min(3, len(props)))})) for p in props] * 2
    ds += [VD(props), VD([*props, (*props[0][:2], "zz")])]
    gone = r.choice([None, props[0][:2], props[-1][:2], r.choice(props)[:2]])
    ps = [p for p in ps if (p.namespace, p.feature) != gone]
    ps += [VariantProperty(*gone, "other")] if gone else []
    forb = [VF(p[:2]) for p in props[: len(props) // 10]]
    return lambda: list(filter_variants(ds, ps, forbidden_features=forb, forbidden_properties=ps[:5]))


def op_rank(c, r, t, props):
    ps = VPs(gen.shuffled(r, props))
    ds = [VD([p]) for p in props]
    return lambda: sort_and_filter_supported_variants(ds, ps, list(t), None, t)


def op_description(c, r, t, props):
    ps = VPs(gen.shuffled(r, props))

    def run():
        d = VariantDescription(ps)
        return d.hexdigest, d == VariantDescription(ps)
    return run


def op_environment(c, r, t, props):
    d = VD(props)
    return lambda: api.get_variant_environment_dict(d, "x")


def op_aggregate(c, r, t, props):
    a, b = list(range(len(props))), gen.shuffled(r, range(len(props) * 2))
    fa, fb = {n: gen.shuffled(r, fs) for n, fs in t.items()}, {n: gen.shuffled(r, fs) for n, fs in t.items()}
    return lambda: (aggregate_namespace_priorities(a, b, None, a), aggregate_feature_priorities(fa, fb, {"z": b}),
                    aggregate_property_priorities(t, {"n0": fa}, None, t))


def op_settings(c, r, t, props):
    conf = {"namespace_priorities": list(t), "feature_priorities": {n: list(fs) for n, fs in t.items()},
            "property_priorities": t}
    p = c.tmp / "settings.toml"
    p.write_text(wheels.toml(conf))
    return lambda: VariantConfiguration.get_config_from_file(p)


def op_index(c, r, t, props):
    d = pathlib.Path(tempfile.mkdtemp(dir=c.tmp))
    common = {"default-priorities": {"namespace": ["n0"]}, "providers": {"n0": {"requires": ["x"]}}}
    for i in range(max(2, len(props) // 2)):
        doc = {**common, "variants": {f"l{i}": {"n0": {"f": [f"v{i}"]}}}}
        wheels.make(r, d, ("pkg", "1", None, "py3", "none", "any"), f"l{i}", json.dumps(doc), nfiles=1, simple=True)

    def run():
        res = env.cli("generate-index-json", "-d", d)
        assert res.ok, res
    return run


def op_convert(c, r, t, props):
    d = pathlib.Path(tempfile.mkdtemp(dir=c.tmp))
    doc = {"default-priorities": {"namespace": list(t)}, "providers": {n: {"requires": ["x"]} for n in t},
           "variants": {"lab": t}}
    parts = ("pkg", "1", None, "py3", "none", "any")
    members = wheels.contents(r, parts, json.dumps(doc), nfiles=max(1, len(props)), simple=True)
    p = d / wheels.join(parts, "lab")
    wheels.write(p, members)
    (d / "o").mkdir()

    def run():
        for args in (["analyze-wheel", "-i", p], ["unmake-variant", "-f", p, "-o", d / "o"]):
            res = env.cli(*args)
            assert res.ok, res
    return run


def op_merge(c, doc, props, rng):
    labels = list(doc["variants"])
    half = len(labels) // 2
    a = VariantsJson({**doc, "variants": {k: doc["variants"][k] for k in labels[:half]}})
    b = VariantsJson({**doc, "variants": {k: doc["variants"][k] for k in labels[half:]}})
    return lambda: a.merge(b)


def op_project(c, doc, props, rng):
    data = {"variant": {k: v for k, v in doc.items() if k != "variants"}}
    return lambda: VariantPyProjectToml(data)


def op_select(c, doc, props, rng):
    return lambda: api.get_variants_by_priority(variants_json=doc)


def op_loader(c, doc, props, rng):
    info = VariantsJson(doc)

    def run():
        with PluginLoader(info) as ld:
            ld.get_supported_configs()
    return run


def op_dist_info(c, doc, props, rng):
    lab = next(iter(doc["variants"]))
    text = json.dumps({**doc, "variants": {lab: doc["variants"][lab]}})
    return lambda: VariantDistInfo(text, lab)


FAMILIES = {
    "select": by_doc(op_select),
    "read": by_doc(lambda c, doc, props, rng: lambda: VariantsJson(doc)),
    "write": prepared(VariantsJson, lambda o, p: o.to_str()),
    "copy": prepared(VariantsJson, lambda o, p: VariantPyProjectToml(o)),
    "validate": prepared(VariantsJson, lambda o, p: api.validate_variant(VD(p), o)),
    "check": prepared(VariantsJson, lambda o, p: api.check_variant_supported(vdesc=VD(p[:50]), variant_info=o)),
    "requires": prepared(VariantsJson, lambda o, p: o.get_provider_requires()),
    "merge": by_doc(op_merge), "project": by_doc(op_project), "loader": by_doc(op_loader),
    "wheel document": by_doc(op_dist_info),
    "make document": prepared(VariantsJson, lambda o, p: api.make_variant_dist_info(
        VD(p[:1]), o, expand_aot_plugin_properties=False)),
    "sort properties": lists(op_sort_properties), "sort variants": lists(op_sort_variants),
    "filter": lists(op_filter), "rank": lists(op_rank), "description": lists(op_description),
    "environment": lists(op_environment), "aggregate": lists(op_aggregate), "settings": lists(op_settings),
    "index": lists(op_index), "convert": lists(op_convert),
}
MOST = {"index": 64, "convert": 512}


def growth(c):
    rng = c.rng
    name = sorted(FAMILIES)[c.i % len(FAMILIES)]
    make, shape = FAMILIES[name](c, rng)
    times = {}
    s = 8
    enough = rng.choice([0.1, 0.2])
    while s <= MOST.get(name, 2048):
        f = make(s)
        t, v = timed(f, CALL_LIMIT)
        c.obs("growth_steps")
        c.check(t is not None, "{} ({}) of size {} not done within {} s of CPU time; smaller: {}",
                name, shape, s, CALL_LIMIT, times)
        if isinstance(v, Exception):
            c.fail(f"{name} ({shape}) of size {s} failed: {type(v).__name__}: {v}")
        times[s] = t
        if t > enough:
            break
        s *= 2
    c.obs("large_calls", times[max(times)] > 0.05)
    s = max(times)
    if s // 4 in times and times[s] > 0.02:
        e = math.log(times[s] / max(times[s // 4], 1e-4), 4)
        c.obs("measured_exponents")
        if e > EXPONENT and times[s] > 1:
            again = [timed(make(k), CALL_LIMIT)[0] or CALL_LIMIT for k in (s // 4, s)]
            e = min(e, math.log(again[1] / max(again[0], 1e-4), 4))
            c.check(e <= EXPONENT, "{} ({}): CPU time grows with the power {:.2f} of the size: {}", name, shape, e, times)
    c.distinct(name, shape)
    if c.i < 4:
        c.sample({"operation": name, "shape": shape, "cpu": times})


WORKLOADS = [Workload(texts, 3 * len(PARSERS), 80 * len(PARSERS)),
             Workload(growth, 3 * len(FAMILIES), 60 * len(FAMILIES))]
