"""V02 text, list and nested forms: round trips and accept/reject against a reference parser."""
import json

from vmon import gen, model
from vmon.core import Workload
from vmon.lib import VD, VF, VP, td, tp
from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty

RULE = ("random objects round-tripped through every form; random mutations of valid text judged by "
        "an independent parser; non-trivial: a non-empty object or a distinct mutated string")
REQUIRED = ("roundtrips", "text_accepted", "text_rejected", "nested_rejected")
WS = ["", " ", "  ", "\t", "\n", "\r\n", " \t", "\u00a0", "\u2003", "\x0b", "\x0c", "\x1f"]


def roundtrip(c):
    rng = c.rng
    sp = gen.Space(rng)
    for _ in range(4):
        p = sp.prop(0.3)
        n, f, v = p
        vp, vf = VP(p), VF(p)
        c.obs("roundtrips", 4)
        c.distinct(p)
        c.eq(vp.to_str(), f"{n} :: {f} :: {v}", "text form of a property")
        c.eq(vf.to_str(), f"{n} :: {f}", "text form of a feature")
        c.check(VariantProperty.from_str(vp.to_str()) == vp, "property text round trip {}", p)
        c.check(VariantFeature.from_str(vf.to_str()) == vf, "feature text round trip {}", p)
        c.check(vp.feature_object == vf, "feature of property {}", p)
        for cls, o in ((VariantProperty, vp), (VariantFeature, vf)):
            d = json.loads(json.dumps(o.serialize()))
            c.check(cls.deserialize(d) == o, "mapping round trip {}", p)
            d2 = dict(gen.shuffled(rng, d.items()))
            c.check(cls.deserialize(d2) == o, "mapping round trip, reordered {}", p)
            k = rng.choice(sorted(d))
            d3 = {a: b for a, b in d.items() if a != k}
            c.raises(ValidationError, lambda: cls.deserialize(d3), f"mapping without {k}")
            d4 = dict(d)
            d4[k] = rng.choice([x for x in gen.BAD_STRINGS if not (k == "value" and model.is_value(x))
                                and not model.is_name(x)] + [1, None, True])
            c.raises(ValidationError, lambda: cls.deserialize(d4), f"mapping with {k}={d4[k]!r}")
        w = lambda: rng.choice(WS)  # noqa: E731
        t3 = f"{w()}{n}{w()}::{w()}{f}{w()}::{w()}{v}{w()}"
        t2 = f"{w()}{n}{w()}::{w()}{f}{w()}"
        c.obs("text_accepted", 2)
        c.eq(tp(VariantProperty.from_str(t3)), p, f"parsing {t3!r}")
        o = VariantFeature.from_str(t2)
        c.eq((o.namespace, o.feature), p[:2], f"parsing {t2!r}")
        # a text of the wrong kind
        c.raises(ValidationError, lambda: VariantFeature.from_str(t3), f"feature from {t3!r}")
        c.raises(ValidationError, lambda: VariantProperty.from_str(t2), f"property from {t2!r}")
    props = sp.desc(max_props=8)
    d = VD(props)
    ser = json.loads(json.dumps(d.serialize()))
    c.eq(sorted((x["namespace"], x["feature"], x["value"]) for x in ser), sorted(props),
         "list form")
    c.check(all(set(x) == {"namespace", "feature", "value"} for x in ser), "list form keys")
    back = VariantDescription.deserialize(gen.shuffled(rng, ser))
    c.check(back == d and td(back) == td(d), "list form round trip {}", props)
    nested = json.loads(json.dumps(d.to_dict()))
    c.eq(nested, model.to_nested(props), "nested form")
    back = VariantDescription.from_dict(nested)
    c.check(back == d and td(back) == td(d), "nested form round trip {}", props)
    # nested form in arbitrary order
    want = {}
    for n, f, v in gen.shuffled(rng, props):
        want.setdefault(n, {}).setdefault(f, []).append(v)
    c.eq(td(VariantDescription.from_dict(want)), tuple(sorted(props)), "from a nested form")
    c.obs("roundtrips", 3)
    if props:
        n, f, v = rng.choice(props)
        bad = model.to_nested(props)
        bad[n][f].insert(rng.randint(0, len(bad[n][f])), v)
        c.raises(ValidationError, lambda: VariantDescription.from_dict(bad), "duplicate value")
        bad = list(ser) + [rng.choice(ser)]
        c.raises(ValidationError, lambda: VariantDescription.deserialize(gen.shuffled(rng, bad)),
                 "duplicate property")
        bad = model.to_nested(props)
        k = rng.randrange(3)
        junk = rng.choice([x for x in gen.BAD_STRINGS
                           if not model.is_value(x) or (k < 2 and not model.is_name(x))])
        if k == 0:
            bad[junk] = {"f": ["v"]}
        elif k == 1:
            bad[n][junk] = ["v"]
        else:
            bad[n][f].append(junk)
        c.raises(ValidationError, lambda: VariantDescription.from_dict(bad), f"component {junk!r}")
        c.obs("nested_rejected", 3)
        c.sample({"props": props})


PIECES = ["::", ":", " :: ", " ", "\n", "\t", "A", "a", "_", ".", "-", "é", "0", "\u00a0", "", "a b",
          ":::", "::::", ",", "\x00", "K", "ſ", "٣", "=", "null", "a.b", "x" * 30]


def text_fuzz(c):
    rng = c.rng
    for _ in range(30):
        mode = rng.randrange(3)
        if mode == 0:
            s = " :: ".join([gen.ns(rng), gen.feat(rng), gen.val(rng)][:rng.choice([1, 2, 3, 3, 3])])
            for _ in range(rng.randint(1, 2)):
                k = rng.randint(0, len(s))
                op = rng.randrange(3)
                s = (s[:k] + rng.choice(PIECES) + s[k:] if op == 0 else
                     s[:k] + s[k + 1:] if op == 1 else s[:k] + rng.choice(PIECES) + s[k + 1:])
        elif mode == 1:
            s = "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 9)))
        else:
            s = rng.choice(["::", " ::", ":: ", " :: "]).join(
                rng.choice([gen.ns(rng), gen.val(rng), rng.choice(gen.BAD_STRINGS)])
                for _ in range(rng.randint(1, 4)))
        for cls, parts in ((VariantProperty, 3), (VariantFeature, 2)):
            want = model.parse_text(s, parts)
            c.distinct(s, parts)
            if want is None:
                c.obs("text_rejected")
                c.raises(ValidationError, lambda: cls.from_str(s), f"{cls.__name__}.from_str({s!r})")
            else:
                c.obs("text_accepted")
                o = cls.from_str(s)
                c.eq((tp(o) if parts == 3 else (o.namespace, o.feature)), want, f"parsing {s!r}")


WORKLOADS = [Workload(roundtrip, 15000, 60000), Workload(text_fuzz, 15000, 80000)]
