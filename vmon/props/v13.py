"""V13 checking one variant against selecting from an index holding it."""
import copy
import json

from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VD
from vmon.scenario import Scenario, _nest
from variantlib.api import check_variant_supported, get_variants_by_priority
from variantlib.models.variant_info import VariantInfo
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

RULE = ("full scenarios (plugins, static providers, optional providers, configuration, installed "
        "packages); every variant and foreign ones checked alone, both ways of passing it; "
        "distinct by variant and scenario")
REQUIRED = ("checked", "answered_yes", "answered_no", "inferred", "refused", "null_checked")


def agree(c):
    rng = c.rng
    plugins = c.i % 3 == 0
    sc = Scenario(c, max_variants=6, plugins=plugins)
    opt = sc.optional_option()
    sup = set(sc.supported(opt))
    parsed = VariantsJson(copy.deepcopy(sc.doc))
    selected = get_variants_by_priority(variants_json=parsed, **sc.optional_kw(opt))
    todo = [(d, lab in selected) for lab, d in sc.variants.items()]
    ctx = f"{json.dumps(sc.doc)} configuration={sc.config} abi={sc.abi_env} optional={opt}"
    for d in sc.space.descs(3) + [()]:
        todo.append((d, model.keep(d, sup)))
    if sc.abi_space:
        d = tuple(sorted(gen.some(rng, sc.abi_space, lo=1, hi=2)))
        todo.append((d, model.keep(d, sup)))
    for d, want in todo:
        c.eq(want, model.keep(d, sup), f"selection of {d}; {ctx}")
        c.obs("checked")
        c.obs("answered_yes" if want else "answered_no")
        c.obs("null_checked", not d)
        c.distinct(d, ctx)
        got = check_variant_supported(vdesc=VD(d), variant_info=parsed, **sc.optional_kw(opt))
        c.eq(got, want, f"explicit check of {d}; {ctx}")
        lab = "null" if not d else gen.label(rng)
        single = {**copy.deepcopy(sc.doc), "variants": {lab: _nest(rng, d)}}
        info = (VariantsJson(single) if rng.random() < 0.5
                else VariantDistInfo(json.dumps(single), lab))
        c.obs("inferred")
        got = check_variant_supported(variant_info=info, **sc.optional_kw(opt))
        c.eq(got, want, f"inferred check of {d}; {ctx}")
        got = lab in get_variants_by_priority(variants_json=single, **sc.optional_kw(opt))
        c.eq(got, want, f"selection from an index with {d} only; {ctx}")
        # an explicit description wins over the one described by the metadata
        other = sc.space.desc()
        got = check_variant_supported(vdesc=VD(other), variant_info=info, **sc.optional_kw(opt))
        c.eq(got, model.keep(other, sup), f"explicit check of {other} with metadata of {d}; {ctx}")
    if len(sc.variants) != 1:
        c.obs("refused")
        c.raises((ValueError, TypeError), lambda: check_variant_supported(
            variant_info=parsed, **sc.optional_kw(opt)), f"{len(sc.variants)} variants; {ctx}")
    for info in (VariantInfo(**parsed.copy_as_kwargs()), VariantsJson(VariantInfo())):
        c.obs("refused")
        c.raises((ValueError, TypeError), lambda: check_variant_supported(
            variant_info=info, **sc.optional_kw(opt)), f"metadata without variants; {ctx}")
    info = VariantInfo(**parsed.copy_as_kwargs())
    if rng.random() < 0.5:
        info = VariantPyProjectToml(info)
    d, want = rng.choice(todo)
    c.eq(check_variant_supported(vdesc=VD(d), variant_info=info, **sc.optional_kw(opt)), want,
         f"check of {d} with plain metadata; {ctx}")


WORKLOADS = [Workload(agree, 180, 5000)]
