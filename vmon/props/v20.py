"""V20 validation verdicts against what the consulted providers list."""
import copy
import json

from vmon import gen
from vmon.core import Workload
from vmon.lib import VD, VF, VP, content, read, tp
from vmon.scenario import Scenario
from variantlib.api import validate_variant
from variantlib.models.variant import VariantValidationResult
from variantlib.models.variant_info import VariantInfo

RULE = ("scenarios with install-time, ahead-of-time, optional, marker-restricted and static providers "
        "times variants with valid, wrong-value, wrong-feature, foreign-namespace and multi-valued "
        "properties; distinct by scenario and variant; plus arbitrary verdict objects")
REQUIRED = ("valid", "invalid", "unknown", "invalid_feature", "violations", "multi_allowed",
            "static_verdicts", "plugin_verdicts", "null", "verdict_positive", "verdict_negative")


def verdict(c, res, want, viol, ctx):
    """The derived answers must follow from the individual verdicts."""
    bad = [p for p, r in want.items() if r is False]
    unk = [p for p, r in want.items() if r is None]
    c.eq(sorted(tp(p) for p in res.invalid_properties), sorted(bad), f"invalid properties; {ctx}")
    c.eq(sorted(tp(p) for p in res.unknown_properties), sorted(unk), f"unknown properties; {ctx}")
    for args, kw, tolerate in (((), {}, True), ((True,), {}, True), ((False,), {}, False),
                               ((), {"allow_unknown_plugins": True}, True),
                               ((), {"allow_unknown_plugins": False}, False)):
        ok = not bad and not viol and (tolerate or not unk)
        c.obs("verdict_positive" if ok else "verdict_negative")
        c.eq(bool(res.is_valid(*args, **kw)), ok, f"overall verdict, unknown tolerated: {tolerate}; {ctx}")


def validate(c):
    rng = c.rng
    kind = rng.choice(["index", "index", "pyproject"])
    plugins = c.i % 3 != 0
    sc = Scenario(c, kind=kind, plugins=plugins, max_ns=4, config=False, abi=False,
                  empty_supported=True)
    info = read(sc.doc, kind)
    if rng.random() < 0.4:
        info = VariantInfo(**info.copy_as_kwargs())
    before = content(info)
    todo = []
    for _ in range(5):
        d = set(sc.space.desc(null=0.1))
        for ns in list(sc.prov):
            r = rng.random()
            tree = sc.space.tree[ns]
            if r < 0.15:      # several values of one feature
                f = rng.choice(list(tree))
                d |= {(ns, f, v) for v in gen.some(rng, tree[f], lo=min(2, len(tree[f])))}
            elif r < 0.25:    # a wrong value
                d.add((ns, rng.choice(list(tree)), gen.val(rng)))
            elif r < 0.35:    # a wrong feature
                d.add((ns, gen.feat(rng), rng.choice([gen.val(rng), rng.choice(list(tree.values()))[0]])))
        if rng.random() < 0.3:
            d.add((gen.ns(rng), gen.feat(rng), gen.val(rng)))
        todo.append(tuple(sorted(d)))
    todo.append(())
    for d in todo:
        ctx = f"variant {d}; {json.dumps(sc.doc)}; plugins " + str(
            {n: (p["kind"], p["all"]) for n, p in sc.prov.items()})
        c.distinct(d, ctx)
        nss = {p[0] for p in d}
        cfg = {n: {f: (vs, m) for f, vs, m in fs} for n, fs in sc.configs(
            "all", optional=True, filter_=nss, aot=True).items()}
        want = {p: None if p[0] not in cfg else p[2] in cfg[p[0]].get(p[1], ((), False))[0] for p in d}
        viol = set()
        for n, f in {p[:2] for p in d}:
            if n in cfg and f in cfg[n] and len({p[2] for p in d if p[:2] == (n, f)}) > 1:
                if cfg[n][f][1]:
                    c.obs("multi_allowed")
                else:
                    viol.add((n, f))
        for p, r in want.items():
            c.obs({True: "valid", False: "invalid", None: "unknown"}[r])
            if r is False and p[1] not in cfg[p[0]]:
                c.obs("invalid_feature")
            if r is not None:
                c.obs("plugin_verdicts" if sc.enabled(p[0], optional=True, aot=True) else "static_verdicts")
        c.obs("violations", len(viol))
        c.obs("null", not d)
        res = validate_variant(VD(d), info)
        c.eq({tp(p): r for p, r in res.results.items()}, want, f"verdicts of {ctx}")
        c.check(all(r is None or type(r) is bool for r in res.results.values()), f"verdict types; {ctx}")
        c.eq(sorted((f.namespace, f.feature) for f in res.multi_value_violations), sorted(viol),
             f"multi-value violations of {ctx}")
        verdict(c, res, want, viol, ctx)
    c.eq(content(info), before, "metadata after validation")


def verdicts(c):
    """Verdict objects by themselves."""
    rng = c.rng
    for _ in range(50):
        d = gen.Space(rng).desc()
        style = rng.choice([(True,), (True, False), (True, None), (True, False, None), (None,), (False,)])
        want = {p: rng.choice(style) for p in gen.shuffled(rng, d)}
        viol = {p[:2] for p in d if rng.random() < 0.1}
        res = VariantValidationResult({VP(p): r for p, r in want.items()},
                                      frozenset(VF(v) for v in viol))
        c.distinct(tuple(want.items()), sorted(viol))
        verdict(c, res, want, viol, f"{want} violations {viol}")


WORKLOADS = [Workload(validate, 720, 6000), Workload(verdicts, 120, 2000)]
