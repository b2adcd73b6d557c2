"""V12 abi_dependency: what is installed and VARIANT_ABI_DEPENDENCY against an independent reading."""
import os
import re
import sys

from vmon import env, gen, model
from vmon.core import Workload
from vmon.lib import VD, VPs, td
from vmon.scenario import ABI, abi_values, user_toml
from variantlib.api import check_variant_supported, get_variants_by_priority
from variantlib.models.variant import VariantDescription, VariantProperty
from variantlib.resolver.lib import sort_and_filter_supported_variants
from variantlib.variants_json import VariantsJson

RULE = ("scratch distributions (odd names, version forms, shadowed, unusable) on sys.path and generated "
        "variable values with malformed items; the supported set is read off which one-property "
        "variants survive selection, and the order off their ranking; distinct by environment")
REQUIRED = ("supported_probes", "unsupported_probes", "orders", "malformed_items", "unusable_dists",
            "shadowed", "overrides", "extensions")

NAMES = ["torch", "Torch-Extra", "a.b", "A__b-.c", "zz9", "numpy_", "x", "0pkg", "Foo.Bar-Baz_Qux",
         "abi", "Z-9", "m" * 60]
BADNAMES = ["bad name", "naïve", "-lead", "a+b", "a/b", ""]
VERSIONS = ["1", "1.2", "1.2.3", "1.2.3.4", "2!3.4", "1.0rc1", "1.0.post2", "1.0.dev3", "v1.5",
            "1.2+local.7", "2024.10.11", "0", "00.01.02", "1.0a1.post2.dev3+x", "10.20.30"]
BADVERSIONS = ["x", "1.x", "", "unknown", "1..2", "1.2-", "=1", "１.x"]


def norm(n):
    return re.sub(r"[-_.]+", "_", n).lower()


def install(c, d, name, version):
    d.mkdir(parents=True, exist_ok=True)
    c.n = getattr(c, "n", 0) + 1
    kind = c.rng.randrange(4)
    safe = re.sub(r"[^A-Za-z0-9.]", "_", name) or "noname"
    ver = re.sub(r"[^A-Za-z0-9.+!]", "_", version) or "0"
    if kind == 0:
        di = d / f"{safe}-{ver}-py3.12.egg-info"
        di.mkdir()
        (di / "PKG-INFO").write_text(f"Metadata-Version: 1.0\nName: {name}\nVersion: {version}\n",
                                     encoding="utf8")
    else:
        di = d / f"{safe}-{ver}.dist-info"
        di.mkdir()
        (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n",
                                     encoding="utf8")


def environment(c):
    """Builds the environment; returns expected {feature: values} (sorted)."""
    rng = c.rng
    dirs = [c.tmp / f"site{i}" for i in range(rng.randint(1, 3))]
    want = {}
    installed = []
    for d in dirs:
        here = set()
        for name in rng.sample(NAMES, rng.randint(0, 4)):
            ver = rng.choice(VERSIONS)
            if norm(name) in here:
                continue
            here.add(norm(name))
            install(c, d, name, ver)
            installed.append(name)
            if norm(name) in want:
                c.obs("shadowed")
            else:
                want[norm(name)] = abi_values(ver)
        d.mkdir(exist_ok=True)
    unusable = []
    for i in range(rng.choice([0, 0, 1, 2])):
        c.obs("unusable_dists")
        d = rng.choice(dirs)
        kind = rng.randrange(4)
        bad = d / f"unusable{i}-1.dist-info"
        bad.mkdir()
        unusable.append(f"unusable{i}")
        if kind == 0:
            (bad / "METADATA").write_text(f"Metadata-Version: 2.1\nName: unusable{i}\n"
                                          f"Version: {rng.choice(BADVERSIONS)}\n", encoding="utf8")
        elif kind == 1:
            (bad / "METADATA").write_text("Metadata-Version: 2.1\nVersion: 1.0\n")
        elif kind == 2:
            (bad / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {rng.choice(BADNAMES[:5])}\n"
                                          "Version: 1.0\n", encoding="utf8")
    pos = rng.choice([0, len(sys.path)])
    real = env.abi_props()
    sys.path[pos:pos] = [str(d) for d in dirs]
    import importlib
    importlib.invalidate_caches()
    if pos == 0:
        want = {**real, **want}
    else:
        want = {**want, **real}
    # the variable
    items = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        r = rng.random()
        if r < 0.45:
            n = rng.choice(NAMES + installed + ["packaging", "PyTest"])
            v = rng.choice(VERSIONS)
            items.append(f"{n}=={v}")
            c.obs("overrides" if norm(n) in want else "extensions")
            want[norm(n)] = abi_values(v)
        else:
            c.obs("malformed_items")
            items.append(rng.choice([
                "", "torch", "torch=1.0", "==", "==1.0", "torch==", "torch==bad", "torch===1.0",
                "torch>=1", "a b==1", "na\u00efve==1", "torch==1==2", "a+b==1", "torch==1.x", "=", "==="]))
    if items or rng.random() < 0.3:
        os.environ["VARIANT_ABI_DEPENDENCY"] = ",".join(items)
    return dict(sorted(want.items())), {"dists": installed, "unusable": unusable, "var": items,
                                        "path_pos": pos}


def probe(c):
    rng = c.rng
    want, about = environment(c)
    allp = [(ABI, f, v) for f, vs in want.items() for v in dict.fromkeys(vs)]
    good = set(allp)
    probes = [(p,) for p in rng.sample(allp, min(len(allp), 14))]
    wrong = set()
    for f in rng.sample(sorted(want), min(6, len(want))) + ["unusable0", "unusable1", "nothing"]:
        for v in rng.sample(["1", "1.2", "1.2.3", "1.2.3.4", "9.9", "3", "3.4", "2", "0.0.0", "0", "1.5",
                             "1.0rc1", "1.2.0"], 3):
            if (ABI, f, v) not in good:
                wrong.add((ABI, f, v))
    # both namespaces of other spellings
    probes += [(p,) for p in sorted(wrong)]
    multi = [tuple(sorted(set(rng.sample(allp, 2)))) for _ in range(4)] if len(allp) > 1 else []
    probes = list(dict.fromkeys(probes + [m for m in multi if len(m) == 2]))
    rng.shuffle(probes)
    doc_ns = "a" if rng.random() < 0.5 else None
    sup = [("a", "f", "1")] if doc_ns else []
    if doc_ns:
        probes.append((("a", "f", "1"),))
    nss = [doc_ns] if doc_ns else []
    fp = pp = None
    if rng.random() < 0.3:
        nss = gen.shuffled(rng, nss + [ABI])
    if rng.random() < 0.3:
        fp = {ABI: rng.sample(sorted(want), min(3, len(want)))}
    if rng.random() < 0.3:
        f = rng.choice(sorted(want))
        pp = {ABI: {f: [rng.choice(want[f])]}}
    expected = model.select(probes, sup + allp, model.union(nss, [ABI]), fp, pp)
    ctx = f"{about} priorities={nss}/{fp}/{pp}"
    got = [td(o) for o in sort_and_filter_supported_variants(
        [VD(p) for p in probes], VPs(sup), nss, fp, pp)]
    c.obs("supported_probes", len(expected))
    c.obs("unsupported_probes", len(probes) + 1 - len(expected))
    c.distinct(str(about))
    c.eq(sorted(got), sorted(expected), f"supported probes; {ctx}")
    c.obs("orders")
    c.eq(got, expected, f"order of probes; {ctx}")
    for p in rng.sample(probes, min(3, len(probes))):
        if p[0][0] == ABI:
            got = check_variant_supported(vdesc=VD(p), variant_info=VariantsJson({"variants": {}}))
            c.eq(got, all(q in good for q in p) or model.keep(p, good), f"check of {p}; {ctx}")
    c.sample(about)


def through_index(c):
    """The same through index selection with a user configuration."""
    rng = c.rng
    want, about = environment(c)
    allp = [(ABI, f, v) for f, vs in want.items() for v in dict.fromkeys(vs)]
    descs = list(dict.fromkeys((p,) for p in rng.sample(allp, min(8, len(allp)))))
    descs += [(p[0], ("s", "f", "1")) for p in descs[:3]] + [(("s", "f", "1"),), ((ABI, "torch", "77"),)]
    descs = [tuple(sorted(d)) for d in gen.shuffled(rng, descs)]
    if (ABI, "torch", "77") in allp:
        return
    labels = {f"v{i}": d for i, d in enumerate(descs)}
    doc = {"default-priorities": {"namespace": ["s"]},
           "providers": {"s": {"install-time": False}}, "static-properties": {"s": {"f": ["1"]}},
           "variants": {lab: model.to_nested(d) for lab, d in labels.items()}}
    conf = {}
    if rng.random() < 0.5:
        conf["namespace_priorities"] = rng.choice([[ABI], [ABI, "s"], ["s", ABI], ["s"]])
    if rng.random() < 0.5:
        conf["feature_priorities"] = {ABI: rng.sample(sorted(want), min(2, len(want)))}
    if rng.random() < 0.5:
        f = rng.choice(sorted(want))
        conf["property_priorities"] = {ABI: {f: [rng.choice(want[f])]}}
    if conf:
        d = c.tmp / "cwd"
        d.mkdir()
        os.chdir(d)
        (d / "variants.toml").write_text(user_toml(conf))
        env.reset_caches()
    sel = model.select(descs, [("s", "f", "1")] + allp,
                       model.union(conf.get("namespace_priorities"), ["s"], [ABI]),
                       conf.get("feature_priorities"), conf.get("property_priorities"))
    by = {d: lab for lab, d in labels.items()}
    by[()] = "null"
    got = get_variants_by_priority(variants_json=doc)
    c.obs("orders")
    c.obs("supported_probes", len(sel))
    c.distinct(str(about), str(conf))
    c.eq(got, [by[d] for d in sel], f"selection of {labels}; {about} configuration={conf}")


WORKLOADS = [Workload(probe, 1200, 25000), Workload(through_index, 500, 10000)]
