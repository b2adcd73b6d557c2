"""V14 labels and marker environments."""
from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VD
from variantlib.api import get_variant_environment_dict, get_variant_label
from variantlib.errors import ValidationError
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.models.variant_info import VariantInfo
from variantlib.api import make_variant_dist_info

RULE = ("random descriptions with valid, nearly valid and wild labels; random membership expressions "
        "evaluated over the environment mapping; distinct by description and label")
REQUIRED = ("granted", "refused", "environments", "markers_true", "markers_false")


def wild(rng):
    r = rng.random()
    if r < 0.25:
        return gen.label(rng)
    if r < 0.35:
        return "null"
    if r < 0.45:
        return "".join(rng.choice(gen.NAME_CH + ".") for _ in range(rng.choice([1, 15, 16, 17, 18, 40])))
    if r < 0.6:
        return rng.choice(gen.BAD_STRINGS)
    s = gen.label(rng)
    k = rng.randint(0, len(s))
    return s[:k] + rng.choice(["\n", " ", "A", "-", "é", "٣", "/", "+", "\x00", "\t", ":", "..", "_"]) + s[k:]


def labels(c):
    rng = c.rng
    sp = gen.Space(rng)
    for _ in range(6):
        props = sp.desc(null=0.3)
        d = VD(props)
        c.eq(get_variant_label(d), model.default_label(props), f"default label of {props}")
        c.eq(get_variant_label(d, None), model.default_label(props), f"default label of {props}")
        lab = wild(rng)
        ok = model.is_label(lab) and (lab == "null") == (not props)
        c.distinct(props, lab)
        if ok:
            c.obs("granted")
            c.eq(get_variant_label(d, lab), lab, f"label {lab!r} for {props}")
            doc = VariantDistInfo(make_variant_dist_info(d, VariantInfo(), lab))
            c.eq(doc.variant_label, lab, "label in the metadata built")
        else:
            c.obs("refused")
            c.raises(ValidationError, lambda: get_variant_label(d, lab), f"label {lab!r} for {props}")
            c.raises(ValidationError, lambda: make_variant_dist_info(d, VariantInfo(), lab),
                     f"metadata with label {lab!r} for {props}")
        env = get_variant_environment_dict(d, lab) if rng.random() < 0.5 else \
            get_variant_environment_dict(d)
        want = {"variant_namespaces": {n for n, _, _ in props},
                "variant_features": {f"{n} :: {f}" for n, f, _ in props},
                "variant_properties": {f"{n} :: {f} :: {v}" for n, f, v in props}}
        if "variant_label" in env:
            want["variant_label"] = lab
        c.obs("environments")
        c.eq(dict(env), want, f"environment of {props}")
        c.eq(dict(get_variant_environment_dict(d, lab)), {**want, "variant_label": lab},
             f"environment of {props} labelled {lab!r}")
        c.check("variant_label" not in get_variant_environment_dict(d), "label without a label")
        # membership expressions
        for _ in range(4):
            p = sp.prop(0.3)
            text = rng.choice([(p[0], "variant_namespaces"), (f"{p[0]} :: {p[1]}", "variant_features"),
                               (f"{p[0]} :: {p[1]} :: {p[2]}", "variant_properties")])
            k = text[0].count("::") + 1
            truth = any(q[:k] == p[:k] for q in props)
            c.obs("markers_true" if truth else "markers_false")
            c.eq(text[0] in env[text[1]], truth, f"{text[0]!r} in {text[1]} of {props}")


WORKLOADS = [Workload(labels, 16000, 80000)]
