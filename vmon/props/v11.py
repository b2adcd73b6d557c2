"""V11 selection of variants against the reference selector, over full scenarios."""
import copy
import json
import os
import subprocess
import sys

from vmon import env, gen, model
from vmon.core import Workload
from vmon.scenario import Scenario, _nest
from variantlib.api import get_variants_by_priority
from variantlib.variants_json import VariantsJson

RULE = ("random indexes with real plugin processes, static providers, user configuration, installed "
        "packages and VARIANT_ABI_DEPENDENCY; result compared with the reference selector; "
        "non-trivial: at least two variants selected")
REQUIRED = ("selections", "plugin_imports", "rejected_variants", "reordered", "insertions", "fresh_processes")


def select(c, sc, doc, opt):
    got = get_variants_by_priority(variants_json=doc, **sc.optional_kw(opt))
    c.obs("selections")
    return got


def scenario(c):
    sc = Scenario(c, max_variants=8)
    rng = c.rng
    opt = sc.optional_option()
    want = sc.expected_labels(opt)
    doc = sc.doc if rng.random() < 0.5 else VariantsJson(copy.deepcopy(sc.doc))
    got = select(c, sc, doc, opt)
    imported, _, _ = sc.ran()
    c.obs("plugin_imports", len(imported))
    c.obs("rejected_variants", len(sc.variants) - len([x for x in want if x in sc.variants]))
    ctx = f"doc={json.dumps(sc.doc)} config={sc.config} abi={sc.abi_env} optional={opt}"
    c.eq(got, want, f"selected labels; {ctx}")
    c.eq(got[-1], "null", "last label")
    if len(want) > 1:
        c.distinct(json.dumps(sc.doc), str(sc.config), str(opt))
    c.sample({"variants": sc.doc["variants"], "selected": got})
    # again, same process (remembered answers), parsed <-> unparsed
    again = select(c, sc, VariantsJson(copy.deepcopy(sc.doc)) if doc is sc.doc
                   else copy.deepcopy(sc.doc), opt)
    c.eq(again, want, f"repeated selection; {ctx}")
    # listed in another order
    d2 = copy.deepcopy(sc.doc)
    order = gen.shuffled(rng, d2["variants"])
    d2["variants"] = {lab: d2["variants"][lab] for lab in order}
    c.obs("reordered")
    got2 = select(c, sc, d2, opt)
    ordered = model.order_properties(sc.supported(opt), *sc.priorities())
    ranks = {lab: model.rank(sc.variants.get(lab, ()), ordered) for lab in want}
    c.eq(sorted(got2), sorted(want), f"set of labels after reordering; {ctx}")
    c.eq([ranks[x] for x in got2], [ranks[x] for x in want], f"order after reordering; {ctx}")
    # removing / adding a variant
    if sc.variants:
        lab = rng.choice(list(sc.variants))
        d3 = copy.deepcopy(sc.doc)
        del d3["variants"][lab]
        c.obs("insertions")
        got3 = select(c, sc, d3, opt)
        keep = [x for x in want if x != lab or x == "null"]
        c.eq(got3, keep, f"selection without {lab}; {ctx}")
    new = sc.space.desc()
    if new and new not in sc.variants.values():
        d4 = copy.deepcopy(sc.doc)
        lab = gen._fresh(rng, sc.variants)
        items = list(d4["variants"].items())
        items.insert(rng.randint(0, len(items)), (lab, _nest(rng, new)))
        d4["variants"] = dict(items)
        c.obs("insertions")
        got4 = select(c, sc, d4, opt)
        c.eq([x for x in got4 if x != lab], want, f"selection with {new} added; {ctx}")


CHILD = '''
import sys, json
sys.path.insert(0, {repo!r})
from variantlib.api import get_variants_by_priority
doc, opt = json.load(sys.stdin)
print(json.dumps(get_variants_by_priority(variants_json=doc, **({{}} if opt is False else {{'enable_optional_plugins': opt}}))))
'''


def fresh(c):
    """The same question in fresh processes with other hash seeds."""
    sc = Scenario(c, max_variants=8, min_ns=2, wide=True)
    opt = sc.optional_option()
    want = sc.expected_labels(opt)
    for seed in ("1", str(c.rng.randint(2, 10**6))):
        r = subprocess.run([sys.executable, "-c", CHILD.format(repo=env.REPO)],
                           input=json.dumps([sc.doc, opt]), text=True, capture_output=True,
                           env={**os.environ, "PYTHONHASHSEED": seed})
        c.obs("fresh_processes")
        c.check(r.returncode == 0, "selection failed: {}", r.stderr)
        c.eq(json.loads(r.stdout), want, f"selection in a process with hash seed {seed}: "
             f"{json.dumps(sc.doc)} {sc.config} {sc.abi_env} {opt}")
    c.distinct("fresh", json.dumps(sc.doc))


def static(c):
    """Many variants and ties, no plugin processes."""
    for _ in range(3):
        sc = Scenario(c, plugins=False, max_ns=3, max_variants=14, abi=c.rng.random() < 0.5)
        want = sc.expected_labels()
        c.obs("selections")
        got = get_variants_by_priority(variants_json=sc.doc)
        c.eq(got, want, f"selected labels: {json.dumps(sc.doc)} config={sc.config} abi={sc.abi_env}")
        if len(want) > 1:
            c.distinct(json.dumps(sc.doc), str(sc.config))
        os.environ.pop("VARIANT_ABI_DEPENDENCY", None)
        (sc.cwd / "variants.toml").unlink(missing_ok=True)
        env.reset_caches()


WORKLOADS = [Workload(scenario, 300, 9000), Workload(static, 1200, 30000), Workload(fresh, 48, 800)]
