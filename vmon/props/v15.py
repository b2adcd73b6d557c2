"""V15 which plugins run: import/call events of real plugin processes against the enabling rule."""
import copy
import json
import os

from vmon import env, gen, model
from vmon.core import Workload
from vmon.lib import VD, cfgs, read
from vmon.scenario import Scenario
from variantlib.api import (
    check_variant_supported, get_variants_by_priority, make_variant_dist_info, validate_variant)
from variantlib.errors import PluginError, ValidationError
from variantlib.plugins.loader import PluginLoader

RULE = ("provider tables mixing install-time, ahead-of-time, static-only, optional and marker-guarded "
        "providers, with decoy modules under every other name in the table; every plugin module logs "
        "its import and calls; the logged set must equal the enabled set; distinct by table and options")
REQUIRED = ("operations", "imports_seen", "expected_silent", "decoys", "optional_disabled",
            "marker_disabled", "aot_not_queried", "filtered_out", "static_used")


def decoys(c, sc):
    """Importable modules which must never be touched."""
    rng = c.rng
    for ns, p in sc.prov.items():
        d = sc.doc["providers"][ns]
        if p["mod"]:
            if p["api_given"] is not None:
                # the requirement's own module exists too
                name, _ = sc.world.add(ns, p["all"], p["supported"])
                d["requires"][0] = name.replace("_", rng.choice("_-"))
                c.obs("decoys")
            name, _ = sc.world.add(ns, p["all"], p["supported"])
            d["requires"].append(name)
            c.obs("decoys")
        else:
            name, _ = sc.world.add(ns, p["all"], p["supported"])
            d["plugin-api"] = name
            c.obs("decoys")


def operations(c):
    rng = c.rng
    kind = rng.choice(["index", "index", "pyproject"])
    sc = Scenario(c, kind=kind, max_ns=5, min_ns=1, config=rng.random() < 0.3, abi=False)
    decoys(c, sc)
    info = read(copy.deepcopy(sc.doc), kind)
    ops = ["loader", "loader", "validate", "build"]
    if kind == "index":
        ops += ["select", "check"]
    nothing = set()
    for op in rng.sample(ops, 3):
        env.reset_caches()
        sc.world.events()
        opt = sc.optional_option()
        filt, aot = None, False
        desc = sc.space.desc(max_props=4, null=0.05)
        method = rng.choice(["get_all_configs", "get_supported_configs"])
        got = None
        if op == "loader":
            if rng.random() < 0.5:
                filt = gen.some(rng, list(sc.prov) + ["zz"])
            aot = method == "get_all_configs" or rng.random() < 0.5
            want = sc.enabled_set(optional=opt, filter_=filt, aot=aot)
            with PluginLoader(info, **sc.optional_kw(opt), filter_plugins=filt,
                              include_aot_plugins=aot) as ld:
                c.eq(sorted(ld.namespaces), sorted(want), "namespaces loaded")
                got = cfgs(getattr(ld, method)())
            exp = sc.configs("all" if method == "get_all_configs" else "supported",
                             optional=opt, filter_=filt, aot=aot)
            c.eq(got, exp, f"configurations; {json.dumps(sc.doc)} {opt} {filt} {aot}")
            c.obs("static_used", len(set(exp) - want))
        elif op == "validate":
            filt, aot, opt = {p[0] for p in desc}, True, True
            want = sc.enabled_set(optional=True, filter_=filt, aot=True)
            method = "get_all_configs"
            validate_variant(VD(desc), info)
        elif op == "build":
            expand = rng.random() < 0.8
            method = "get_supported_configs"
            filt = {p[0] for p in desc} & {n for n, p in sc.prov.items() if p["kind"] == "aot"}
            aot, opt = True, True
            want = sc.enabled_set(optional=True, filter_=filt, aot=True) if expand else nothing
            try:
                make_variant_dist_info(VD(desc), info, None, expand)
            except ValidationError:
                c.obs("refused_builds")
        else:
            method = "get_supported_configs"
            want = sc.enabled_set(optional=opt)
            if op == "select":
                get_variants_by_priority(variants_json=info, **sc.optional_kw(opt))
            else:
                check_variant_supported(vdesc=VD(desc), variant_info=info,
                                        **sc.optional_kw(opt))
        imported, calls, pids = sc.ran()
        c.obs("operations")
        c.obs("imports_seen", len(imported))
        c.obs("expected_silent", len(set(sc.prov) - want))
        for ns in set(sc.prov) - want:
            p = sc.prov[ns]
            c.obs("optional_disabled", p["optional"])
            c.obs("marker_disabled", not p["marker_true"])
            c.obs("aot_not_queried", p["kind"] == "aot" and not aot)
            c.obs("filtered_out", filt is not None and ns not in filt)
        ctx = f"{op} {json.dumps(sc.doc)} optional={opt} filter={filt} aot={aot} desc={desc}"
        c.distinct(ctx)
        c.eq(imported, want, f"plugins imported; {ctx}")
        c.eq(set(calls), want, f"plugins called; {ctx}")
        for ns, cs in calls.items():
            c.check(method in cs, "{} of {} not called", method, ns)
        c.check(os.getpid() not in pids, "plugin ran in the calling process")
        c.sample({"op": op, "imported": sorted(imported), "providers": sc.doc["providers"]})


def references(c):
    """How the plugin of a provider is found."""
    rng = c.rng
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    ns = gen.ns(rng)
    cfg = [("f", ["1", "2"], False)]
    right, api = w.add(ns, cfg, cfg, style=rng.choice(env.STYLES))
    w.add(ns, cfg, cfg, name=right + "_x")
    other, _ = w.add(ns, cfg, cfg)
    # a dotted module inside a package
    pkg = c.tmp / "p" / f"{right}_pkg"
    pkg.mkdir()
    (pkg / "__init__.py").write_text("")
    os.rename(c.tmp / "p" / f"{other}.py", pkg / "deep.py")
    by_req = rng.random() < 0.5
    if by_req:
        mod, mapi = w.add(ns, cfg, cfg)
        spelled = mod.replace("_", rng.choice("-_"))
        req = rng.choice(["{}", "{}>=1", "{} >=1,<2", "{}[a,b]", "{} ; os_name == 'nt'",
                          "{}[x] >= 1 ; python_version > '3'", "{} @ https://e.com/x.whl", " {}"]
                         ).format(spelled)
        provider = {"requires": [req, right]}
        want = mod
    elif rng.random() < 0.4:
        provider = {"requires": [right], "plugin-api": f"{right}_pkg.deep"}
        want = other
    else:
        provider = {"requires": [right + "-x"], "plugin-api": api}
        want = right
    doc = {"default-priorities": {"namespace": [ns]}, "providers": {ns: provider}}
    info = read(doc, "pyproject")
    w.events()
    with PluginLoader(info, include_aot_plugins=True) as ld:
        got = cfgs(ld.get_supported_configs())
    c.obs("references")
    c.distinct(str(provider))
    c.eq(got, {ns: cfg}, f"configurations via {provider}")
    c.eq({e[2] for e in w.events()}, {want}, f"module found for {provider}")


WORKLOADS = [Workload(operations, 480, 6000), Workload(references, 160, 1600)]
