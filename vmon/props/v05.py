"""V05 serialisation round trip, canonical text, conversions without shared state."""
import copy
import json

from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VD, content, read, td
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

RULE = ("random metadata of the three kinds written and read back, built twice in different orders, "
        "converted to every kind and mutated afterwards; non-trivial: has providers; distinct by text")
REQUIRED = ("roundtrips", "canonical", "conversions", "mutations")


def roundtrip(c):
    rng = c.rng
    kind = rng.choice(["index", "index", "wheel"])
    doc, _ = gen.document(rng, kind)
    want = model.read_document(doc, kind)
    obj = read(doc, kind)
    text = obj.to_str()
    c.obs("roundtrips")
    if want["providers"]:
        c.distinct(text)
    back = json.loads(text)
    c.eq(model.read_document(back, kind), want, f"text written for {json.dumps(doc)}")
    again = VariantsJson(back) if kind == "index" else VariantDistInfo(text)
    c.eq(content(again), want, f"read back from {text}")
    c.check(again == obj, "metadata read back is not equal: {}", text)
    c.eq(again.to_str(), text, "text written again")
    if kind == "wheel":
        bt = VariantDistInfo(text.encode("utf8"), again.variant_label)
        c.eq(content(bt), want, "read back from bytes")
        c.eq(content(VariantsJson(back)), want, "wheel metadata read as index")
    # equal metadata, mappings filled in another order
    def reorder(d):
        if isinstance(d, dict):
            return {k: reorder(v) for k, v in gen.shuffled(rng, d.items())}
        return d
    d2 = reorder(doc)
    for lab, v in d2["variants"].items():
        for n, fs in v.items():
            for f in fs:
                fs[f] = gen.shuffled(rng, fs[f])
    o2 = read(d2, kind)
    c.obs("canonical")
    c.check(o2 == obj, "equal metadata compare unequal: {} {}", doc, d2)
    c.eq(o2.to_str(), text, f"text of equal metadata {json.dumps(d2)}")
    # different metadata must write different text
    d3 = gen.corrupt(rng, doc)
    try:
        w3 = model.read_document(d3, kind)
    except (model.Bad, model.Unknown):
        return
    o3 = read(d3, kind)
    same = w3 == want
    c.check((o3 == obj) == same, "comparison of {} and {}", doc, d3)
    c.check((o3.to_str() == text) == same, "texts of {} and {}", doc, d3)


def _mutate(obj, rng):
    """Change everything reachable from a metadata object, in place."""
    obj.namespace_priorities.append("zzz")
    for k in list(obj.feature_priorities):
        obj.feature_priorities[k].append("zzz")
    obj.feature_priorities["zzz"] = ["q"]
    for n in list(obj.property_priorities):
        for f in obj.property_priorities[n]:
            obj.property_priorities[n][f].insert(0, "zzz")
        obj.property_priorities[n]["zzz"] = ["q"]
    for p in obj.providers.values():
        p.requires.append("zzz")
        p.optional = not p.optional
        p.enable_if = "os_name == 'zzz'"
        p.plugin_api = "zzz"
        p.install_time = not p.install_time
    obj.providers["zzz"] = ProviderInfo(requires=["zzz"])
    for n in list(obj.static_properties):
        for f in obj.static_properties[n]:
            obj.static_properties[n][f].append("zzz")
        obj.static_properties[n]["zzz"] = ["q"]
    if isinstance(obj, VariantsJson):
        obj.variants["zzz"] = VD([("a", "b", "zzz")])


SHARED = ("namespace_priorities", "feature_priorities", "property_priorities", "providers",
          "static_properties")


def conversions(c):
    rng = c.rng
    kind = rng.choice(["index", "wheel", "pyproject"])
    doc, sp = gen.document(rng, kind)
    src = read(copy.deepcopy(doc), kind)
    want = content(src)
    sources = [src]
    if rng.random() < 0.4:
        sources.append(VariantInfo(**src.copy_as_kwargs()))
    for source in sources:
        results = []
        for cls in (VariantsJson, VariantDistInfo, VariantPyProjectToml):
            before = content(source)
            o = cls(source)
            c.obs("conversions")
            c.distinct(json.dumps(doc), cls.__name__)
            c.eq(content(source), before, "source of a conversion")
            got = content(o)
            for k in SHARED:
                c.eq(got[k], want[k], f"{k} converted to {cls.__name__}; {json.dumps(doc)}")
            if cls is VariantDistInfo:
                d = sp.desc()
                o.variant_desc = VD(d)
                c.eq(td(o.variant_desc), tuple(sorted(d)), "description set")
                lab = gen.label(rng) if d else "null"
                o.variant_label = lab
                c.eq((o.variant_label, td(o.variant_desc)), (lab, tuple(sorted(d))), "label set")
                c.eq(list(o.variants), [lab], "labels")
            elif cls is VariantsJson:
                c.eq(dict(o.variants), {}, "variants of a converted index")
                o.variants["some"] = VD([("a", "b", "c")])
            results.append(o)
        frozen = [content(o) for o in results]
        k = rng.randrange(len(results))
        c.obs("mutations")
        _mutate(results[k], rng)
        c.eq(content(source), before, "source, after the converted object was changed")
        for i, o in enumerate(results):
            if i != k:
                c.eq(content(o), frozen[i], "sibling, after another conversion was changed")
        other = [i for i in range(len(results)) if i != k]
        _mutate(source, rng)
        c.obs("mutations")
        for i in other:
            c.eq(content(results[i]), frozen[i], "converted object, after the source was changed")


WORKLOADS = [Workload(roundtrip, 16000, 80000), Workload(conversions, 10000, 50000)]
