"""V07 calls never modify their arguments; results can be modified freely."""
import copy
import json

from vmon import env, gen, model
from vmon.core import Workload
from vmon.lib import VD, VF, VPs, content, td, tp
from vmon.scenario import Scenario
from variantlib.api import (
    check_variant_supported, get_variant_environment_dict, get_variant_label,
    get_variants_by_priority, make_variant_dist_info, validate_variant)
from variantlib.configuration import VariantConfiguration
from variantlib.models.variant import VariantDescription
from variantlib.models.variant_info import VariantInfo
from variantlib.plugins.loader import ListPluginLoader, PluginLoader
from variantlib.resolver.filtering import (
    filter_variants_by_features, filter_variants_by_namespaces, filter_variants_by_property,
    remove_duplicates)
from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants
from variantlib.resolver.sorting import sort_variant_properties, sort_variants_descriptions
from variantlib.utils import (
    aggregate_feature_priorities, aggregate_namespace_priorities, aggregate_property_priorities)
from variantlib.variants_json import VariantsJson

RULE = ("every call made with deeply snapshotted arguments (lists, dictionaries, metadata objects, "
        "configuration), returning or raising; its result is then scrambled and arguments, loaded "
        "configuration and the repeated call compared; distinct by call and arguments")
REQUIRED = ("calls", "raised", "results_scrambled", "repeated", "loader_results", "config_checked")


def freeze(x):
    if isinstance(x, VariantInfo):
        return ("info", type(x).__name__, json.dumps(freeze(content(x))))
    if isinstance(x, VariantDescription):
        return ("desc", td(x))
    if isinstance(x, dict):
        return ["dict"] + [[freeze(k), freeze(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(repr(v) for v in x)
    return repr(x)


def scramble(x, depth=0):
    """Modify every mutable container of a result in place."""
    if isinstance(x, list):
        for v in x:
            scramble(v, depth + 1)
        x.reverse()
        if x:
            x.append(x[0])
        x.append("scrambled")
    elif isinstance(x, dict):
        for v in x.values():
            scramble(v, depth + 1)
        for k in list(x)[:1]:
            del x[k]
        x["scrambled"] = ["scrambled"]
    elif isinstance(x, set):
        x.add("scrambled")


def watch(c, name, func, *args, may_raise=False, **kw):
    before = freeze([list(args), kw])
    conf = VariantConfiguration.get_config()
    conf_before = freeze(conf.to_dict())
    c.obs("calls")
    c.distinct(name, before)

    def call():
        try:
            r = func(*args, **kw)
            if not isinstance(r, (list, dict, str, bool, set)) and hasattr(r, "__iter__"):
                r = list(r)
            return r, None
        except Exception as e:  # noqa: BLE001
            if not may_raise:
                raise
            return None, e
    res, exc = call()
    if exc is not None:
        c.obs("raised")
    c.eq(freeze([list(args), kw]), before, f"arguments of {name}{' (raised)' if exc else ''}")
    fres = freeze(res)
    if isinstance(res, (list, dict)):
        c.obs("results_scrambled")
        scramble(res)
        c.eq(freeze([list(args), kw]), before, f"arguments of {name} after its result was modified")
    elif hasattr(res, "results"):
        c.obs("results_scrambled")
        fres = freeze([res.results, res.multi_value_violations])
        res.results.clear()
        c.eq(freeze([list(args), kw]), before, f"arguments of {name} after its result was modified")
    c.obs("config_checked")
    c.eq(freeze(conf.to_dict()), conf_before, f"configuration loaded before {name}")
    c.eq(freeze(VariantConfiguration.get_config().to_dict()), conf_before,
         f"configuration after {name}")
    res2, exc2 = call()
    c.obs("repeated")
    f2 = freeze([res2.results, res2.multi_value_violations]) if hasattr(res2, "results") else freeze(res2)
    c.eq(f2, fres, f"repeated {name}")
    c.eq(type(exc2), type(exc), f"repeated {name} raised")
    c.eq(freeze([list(args), kw]), before, f"arguments of repeated {name}")


def pure(c):
    rng = c.rng
    sp = gen.Space(rng, min_ns=1)
    descs = [VD(d) for d in sp.descs(6)]
    descs = gen.shuffled(rng, descs + descs[:1])
    props = sp.props()
    sup = VPs(gen.shuffled(rng, props + props[:1]))
    nss = gen.shuffled(rng, sp.tree)
    fp, pp = gen.feat_prios(rng, sp), gen.prop_prios(rng, sp)
    bad_ns = nss[1:]
    kw = {}
    if rng.random() < 0.5:
        kw["forbidden_namespaces"] = [nss[0], "zz"]
        kw["forbidden_features"] = [VF(p) for p in props[:2]]
        kw["forbidden_properties"] = sup[:3]
    calls = [
        lambda: watch(c, "filter_variants", filter_variants, descs, sup, **kw),
        lambda: watch(c, "sort_and_filter_supported_variants", sort_and_filter_supported_variants,
                      descs, sup, nss, fp, pp, **kw),
        lambda: watch(c, "sort_and_filter_supported_variants", sort_and_filter_supported_variants,
                      descs, sup, bad_ns, fp, pp, may_raise=True),
        lambda: watch(c, "sort_and_filter_supported_variants", sort_and_filter_supported_variants,
                      [], [], [], None, None),
        lambda: watch(c, "sort_variant_properties", sort_variant_properties, sup, nss, fp, pp),
        lambda: watch(c, "sort_variant_properties", sort_variant_properties, sup, bad_ns, fp, pp,
                      may_raise=True),
        lambda: watch(c, "sort_variants_descriptions", sort_variants_descriptions, descs,
                      sort_variant_properties(sup, nss, fp, pp), may_raise=True),
        lambda: watch(c, "remove_duplicates", remove_duplicates, descs),
        lambda: watch(c, "filter_variants_by_namespaces", filter_variants_by_namespaces, descs, nss[:1]),
        lambda: watch(c, "filter_variants_by_features", filter_variants_by_features, descs,
                      [VF(p) for p in props[:2]]),
        lambda: watch(c, "filter_variants_by_property", filter_variants_by_property, descs, sup, sup[:2]),
        lambda: watch(c, "aggregate_namespace_priorities", aggregate_namespace_priorities,
                      *gen.shuffled(rng, [nss, ["zz"] + nss[:1], None, []])),
        lambda: watch(c, "aggregate_feature_priorities", aggregate_feature_priorities,
                      *gen.shuffled(rng, [fp, gen.feat_prios(rng, sp), None, {}])),
        lambda: watch(c, "aggregate_property_priorities", aggregate_property_priorities,
                      *gen.shuffled(rng, [pp, gen.prop_prios(rng, sp), None, {}])),
        lambda: watch(c, "get_variant_label", get_variant_label, descs[0],
                      rng.choice([None, "x", "null", "Bad"]), may_raise=True) if descs else None,
        lambda: watch(c, "get_variant_environment_dict", get_variant_environment_dict, descs[0], "x")
        if descs else None,
        lambda: watch(c, "VariantDescription.from_dict", lambda d: VariantDescription.from_dict(d).to_dict(),
                      descs[0].to_dict()) if descs else None,
        lambda: watch(c, "VariantDescription.deserialize",
                      lambda d: VariantDescription.deserialize(d).serialize(),
                      gen.shuffled(rng, descs[0].serialize())) if descs else None,
    ]
    # unlisted supported namespaces never leak into descriptions sharing lists
    for f in gen.shuffled(rng, calls):
        f()


def metadata(c):
    """Metadata building and reading without plugins."""
    rng = c.rng
    kind = rng.choice(["pyproject", "index"])
    sc = Scenario(c, plugins=False, kind=kind, config=rng.random() < 0.5)
    from vmon.lib import read
    info = read(copy.deepcopy(sc.doc), kind)
    d = VD(sc.space.desc())
    lab = rng.choice([None, None, "null", gen.label(rng), "Bad"])
    watch(c, "make_variant_dist_info", make_variant_dist_info, d, info, lab,
          rng.random() < 0.7, may_raise=True)
    watch(c, "make_variant_dist_info", make_variant_dist_info, d, None, lab, may_raise=True)
    watch(c, "validate_variant", validate_variant, d, info)
    watch(c, "check_variant_supported", check_variant_supported, vdesc=d, variant_info=info)
    if kind == "index":
        watch(c, "get_variants_by_priority", get_variants_by_priority, variants_json=sc.doc)
        watch(c, "get_variants_by_priority", get_variants_by_priority, variants_json=info)
        other = VariantsJson(copy.deepcopy(sc.doc))
        other.variants = dict(list(other.variants.items())[:1])
        if rng.random() < 0.4:
            other.namespace_priorities.append("zz")
        watch(c, "merge", lambda o: VariantsJson(copy.deepcopy(sc.doc)).merge(o), other, may_raise=True)
        bad = gen.corrupt(rng, sc.doc)
        watch(c, "get_variants_by_priority", get_variants_by_priority, variants_json=bad, may_raise=True)


def plugins(c):
    """Calls consulting plugin processes; loader answers scrambled."""
    rng = c.rng
    sc = Scenario(c, kind=rng.choice(["pyproject", "index"]), max_ns=3, min_ns=1,
                  reference_by_requires=False)
    from vmon.lib import read
    info = read(copy.deepcopy(sc.doc), sc.kind)
    if rng.random() < 0.2:
        # one failing plugin
        mod = sc.world.add_source("raise ValueError('no')\n")
        if info.providers:
            p = info.providers[rng.choice(list(info.providers))]
            p.plugin_api = mod
    opt = rng.choice([False, True, list(sc.prov)])
    d = VD(sc.space.desc(max_props=3))
    watch(c, "validate_variant", validate_variant, d, info, may_raise=True)
    watch(c, "make_variant_dist_info", make_variant_dist_info, d, info, None, may_raise=True)
    if sc.kind == "index":
        watch(c, "get_variants_by_priority", get_variants_by_priority, variants_json=info,
              enable_optional_plugins=opt, may_raise=True)
        watch(c, "check_variant_supported", check_variant_supported, vdesc=d, variant_info=info,
              enable_optional_plugins=opt, may_raise=True)
    filt = rng.choice([None, list(sc.prov), list(sc.prov)[:1]])
    before = freeze([info, opt, filt])
    try:
        with PluginLoader(info, enable_optional_plugins=opt, filter_plugins=filt,
                          include_aot_plugins=True) as ld:
            c.obs("loader_results")
            for q in (ld.get_all_configs, ld.get_supported_configs):
                try:
                    r = q()
                except Exception:  # noqa: BLE001
                    continue
                want = {ns: freeze([(x.name, x.values, x.multi_value) for x in pc.configs])
                        for ns, pc in r.items()}
                ns_before = freeze(ld.namespaces)
                for pc in r.values():
                    for x in pc.configs:
                        x.values.append("scrambled")
                    pc.configs.reverse()
                r.clear()
                ld.namespaces.append("scrambled")
                ld.plugin_api_values.clear()
                c.eq(freeze([info, opt, filt]), before, "loader arguments after its answer was modified")
                c.eq(freeze(ld.namespaces), ns_before, "namespaces after a returned list was modified")
                r2 = q()
                got = {ns: freeze([(x.name, x.values, x.multi_value) for x in pc.configs])
                       for ns, pc in r2.items()}
                c.eq(got, want, "answer repeated after the first one was modified")
    except Exception:  # noqa: BLE001
        pass
    c.eq(freeze([info, opt, filt]), before, "loader arguments")
    apis = [p["api"] for p in sc.prov.values() if p["api"]]
    before = list(apis)
    with ListPluginLoader(apis) as ld:
        apis2 = ld.plugin_api_values
        scramble(apis2)
        ld.get_supported_configs()
    c.eq(apis, before, "the list given to ListPluginLoader")
    if apis:
        lst = list(apis)
        ld = ListPluginLoader(lst)
        lst.clear()
        with ld:
            c.eq(len(ld.namespaces), len(apis), "plugins loaded after the caller's list was changed")


WORKLOADS = [Workload(pure, 300, 9000), Workload(metadata, 400, 9000), Workload(plugins, 64, 1600)]
