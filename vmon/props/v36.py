"""V36 end to end: plain wheel -> variant wheels -> index -> selection -> back."""
import copy
import json
import os
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.lib import VD, content, read
from vmon.props.v22 import choose, prop_args
from vmon.scenario import ABI, Scenario, verdicts, wheel_metadata
from variantlib.api import check_variant_supported, get_variants_by_priority
from variantlib.variant_dist_info import VariantDistInfo

RULE = ("one plain wheel made into several variant wheels by the command line (given labels or default ones, with and "
        "without validation) for real plugins, ahead-of-time and static providers; the directory indexed at once, or "
        "wheel by wheel; the index selected from under user configuration and optional providers, compared with "
        "the reference selector; every wheel checked on its own, inspected and turned back; wheels then removed, "
        "added and relabelled and everything repeated; distinct by variants and providers")
REQUIRED = ("worlds", "wheels", "default_labels", "custom_labels", "null_wheels", "selections", "selected", "rejected",
            "wheel_checks", "incremental", "removed", "inspected", "restored", "aot_worlds", "abi_variants", "reordered")


def make_one(c, sc, w, out, pt, d, label):
    rng = c.rng
    args = ["make-variant", "-f", w, "-o", out, "--no-isolation", *prop_args(rng, d), "--pyproject-toml", pt]
    if label is not None:
        args += ["--variant-label", label]
    if any(p[0] == ABI for p in d) or verdicts(sc, d) or rng.random() < 0.3:
        args.append("--skip-plugin-validation")
    res = env.cli(*args)
    c.check(res.ok, f"{d} refused: {res}; {json.dumps(sc.doc)}")
    c.obs("wheels")
    c.obs("null_wheels", not d)
    c.obs("default_labels" if label is None else "custom_labels", bool(d))
    c.obs("abi_variants", any(p[0] == ABI for p in d))


def build_index(c, out, paths, work):
    """The index of the directory, made in one of two ways; always the same content."""
    rng = c.rng
    for p in work.iterdir():
        p.unlink()
    incremental = rng.random() < 0.4 and paths
    if incremental:
        c.obs("incremental")
        prev = None
        for p in gen.shuffled(rng, paths):
            res = env.cli("add-wheel-to-index-json", "-f", p, "-o", work,
                          *(["-i", prev] if prev else []))
            c.check(res.ok, f"adding {p.name}: {res}")
            new = [q for q in work.iterdir()]
            c.eq(len(new), 1, f"files after adding {p.name}: {new}")
            prev = work.parent / rng.choice(["in.json", "index so far.json"])
            os.replace(new[0], prev)
        return json.loads(prev.read_text(encoding="utf8"))
    res = env.cli("generate-index-json", "-d", out)
    c.check(res.ok, f"indexing: {res}")
    made = [q for q in out.iterdir() if q.suffix == ".json"]
    c.eq(len(made), 1, f"index files made: {made}")
    doc = json.loads(made[0].read_text(encoding="utf8"))
    made[0].unlink()
    return doc


def world(c):
    rng = c.rng
    aot = rng.random() < 0.35
    sc = Scenario(c, kind="pyproject", plugins=True, max_ns=4, min_ns=1, config=True, abi=True,
                  kinds=["install", "install", "static"] + (["aot", "aot"] if aot else []),
                  markers=not aot and rng.random() < 0.5)
    inst = env.abi_props()
    pt = sc.cwd / "build settings.toml"
    pt.write_text(wheels.toml({"project": {"name": "x"}, "variant": sc.doc}), encoding="utf8")
    base = content(read(sc.doc, "pyproject"))
    c.obs("worlds")
    # every wheel uses every ahead-of-time provider (otherwise: known finding of V21)
    forced = [n for n, p in sc.prov.items() if p["kind"] == "aot"]
    if any(not sc.prov[n]["supported"] for n in forced):
        return
    c.obs("aot_worlds", bool(forced))
    descs = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        d = set(choose(rng, sc))
        for n in forced:
            d = {p for p in d if p[0] != n}
            f, vs, _ = rng.choice(sc.prov[n]["supported"])
            d.add((n, f, rng.choice(vs)))
        if inst and rng.random() < 0.15:
            n = rng.choice(sorted(inst))
            d.add((ABI, n, rng.choice([*inst[n], "0.999"])))
        d = tuple(sorted(d))
        if d not in descs and not wheel_metadata(sc, base, d)[1]:
            descs.append(d)
    if not descs:
        return
    want = wheel_metadata(sc, base, descs[0])[0]
    for n in forced:
        sc.prov[n]["static"] = want["static_properties"][n]
    sc.doc["default-priorities"]["feature"] = {k: list(v) for k, v in want["feature_priorities"].items()}
    src, out, back, work = (c.tmp / x for x in ("src", "dist", "back", "work"))
    for x in (src, out, back, work):
        x.mkdir()
    parts = wheels.name_parts(rng)
    w = wheels.make(rng, src, parts)
    orig = wheels.load(w)
    labels = {}
    for d in descs:
        lab = gen._fresh(rng, labels) if d and rng.random() < 0.4 else None
        label = lab or model.default_label(d)
        if label in labels:
            continue
        make_one(c, sc, w, out, pt, d, lab)
        labels[label] = d
        c.check((out / wheels.join(parts, label)).is_file(), "no {} in {}", wheels.join(parts, label),
                os.listdir(out))
    c.eq(sorted(os.listdir(out)), sorted(wheels.join(parts, x) for x in labels), "wheels made")
    opt = sc.optional_option()
    c.distinct(tuple(labels.values()), json.dumps(sc.doc), str(opt))
    judge(c, sc, out, parts, labels, opt, work)
    # inspection, and the way back
    for lab in gen.some(rng, labels, lo=1, hi=2):
        p = out / wheels.join(parts, lab)
        res = env.cli("analyze-wheel", "-i", p)
        c.obs("inspected")
        c.check(res.ok, f"inspecting {p.name}: {res}")
        c.eq([x for x in res.out.splitlines() if " :: " in x], [" :: ".join(x) for x in labels[lab]],
             f"properties printed for {p.name}")
        res = env.cli("unmake-variant", "-f", p, "-o", back)
        c.check(res.ok, f"turning back {p.name}: {res}")
        wheels.same_but_doc(c, wheels.load(back / w.name), orig, f"turned back {p.name}")
        (back / w.name).unlink()
        c.obs("restored")
    # a different set of wheels
    if len(labels) > 1:
        for lab in gen.some(rng, labels, lo=1, hi=len(labels) - 1):
            (out / wheels.join(parts, lab)).unlink()
            del labels[lab]
            c.obs("removed")
        judge(c, sc, out, parts, labels, opt, work)


def judge(c, sc, out, parts, labels, opt, work):
    rng = c.rng
    paths = sorted(out / wheels.join(parts, x) for x in labels)
    doc = build_index(c, out, paths, work)
    c.eq({lab: model.from_nested(x) for lab, x in doc["variants"].items()}, labels, "variants of the index")
    got = get_variants_by_priority(variants_json=doc, **sc.optional_kw(opt))
    sc.variants = {lab: labels[lab] for lab in doc["variants"]}    # ties keep the order of the index
    want = sc.expected_labels(opt)
    ctx = (f"{labels} {json.dumps(sc.doc)} configuration={sc.config} abi={sc.abi_env} optional={opt} plugins "
           + str({n: (p["kind"], p["supported"]) for n, p in sc.prov.items()}))
    c.obs("selections")
    c.obs("selected", len([x for x in got if x in labels]))
    c.obs("rejected", len([x for x in labels if x not in got]))
    c.obs("reordered", [x for x in doc["variants"] if x in got] != [x for x in got if x in labels])
    c.eq(got, want, f"labels selected from the index; {ctx}")
    for p, lab in [(out / wheels.join(parts, x), x) for x in labels]:
        with zipfile.ZipFile(p) as z:
            name, = [n for n in z.namelist() if wheels.is_top(n, "variant.json")]
            info = VariantDistInfo(z.read(name), lab)
        c.obs("wheel_checks")
        alone = check_variant_supported(variant_info=info, **sc.optional_kw(opt))
        c.eq(alone, lab in want, f"checking the wheel {p.name}; {ctx}")
        c.eq(check_variant_supported(vdesc=VD(labels[lab]), variant_info=info, **sc.optional_kw(opt)), alone,
             f"checking {lab} with the wheel; {ctx}")


WORKLOADS = [Workload(world, 200, 4000)]
