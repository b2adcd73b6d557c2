"""Bridges between plain data (models) and the library's objects."""
from __future__ import annotations

import json

from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson


def VP(t):
    return VariantProperty(*t)


def VPs(ts):
    return [VariantProperty(*t) for t in ts]


def VD(props):
    return VariantDescription([VariantProperty(*t) for t in props])


def VF(t):
    return VariantFeature(t[0], t[1])


def tp(vprop):
    return (vprop.namespace, vprop.feature, vprop.value)


def td(vdesc):
    return tuple(tp(p) for p in vdesc.properties)


def read(doc, kind, expected_label=None):
    if kind == "index":
        return VariantsJson(doc)
    if kind == "wheel":
        return VariantDistInfo(json.dumps(doc), expected_label)
    return VariantPyProjectToml({"variant": doc})


def content(obj):
    """Plain content of a metadata object, comparable with model.read_document()."""
    out = {
        "namespace_priorities": list(obj.namespace_priorities),
        "feature_priorities": {n: list(v) for n, v in obj.feature_priorities.items()},
        "property_priorities": {n: {f: list(v) for f, v in fs.items()}
                                for n, fs in obj.property_priorities.items()},
        "providers": {n: (tuple(p.requires), p.optional, p.plugin_api, p.enable_if,
                          p.install_time) for n, p in obj.providers.items()},
        "static_properties": {n: {f: list(v) for f, v in fs.items()}
                              for n, fs in obj.static_properties.items()},
    }
    if isinstance(obj, VariantsJson):
        out["variants"] = {lab: td(v) for lab, v in obj.variants.items()}
    return out


def cfgs(configs):
    """namespace -> [(feature, values, multi)] of a loader's answer."""
    return {ns: [(c.name, list(c.values), c.multi_value) for c in pc.configs]
            for ns, pc in configs.items()}
