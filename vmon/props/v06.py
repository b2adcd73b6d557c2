"""V06 merging: all-or-nothing, conflicts, order independence, isolation."""
import copy
import itertools
import json

from vmon import gen, model
from vmon.core import Workload
from vmon.lib import content, read
from vmon.props.v05 import SHARED, _mutate
from variantlib.errors import ValidationError
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

RULE = ("sequences of merges of wheel documents sharing settings or differing in exactly one place, "
        "compared with a reference index after every step; non-trivial: a conflict or a new variant")
REQUIRED = ("merged", "refused", "order_permutations", "label_conflicts", "settings_conflicts")


def tweak(rng, doc):
    """A valid document with different shared settings, or None."""
    for _ in range(25):
        d = copy.deepcopy(doc)
        prio = d.setdefault("default-priorities", {})
        provs = d.get("providers", {})
        op = rng.randrange(11)
        try:
            if op == 0:
                lst = prio["namespace"]
                i, j = rng.sample(range(len(lst)), 2)
                lst[i], lst[j] = lst[j], lst[i]
            elif op == 1:
                prio.setdefault("feature", {}).setdefault(gen.ns(rng), []).append("newf")
            elif op == 2:
                prio.setdefault("property", {}).setdefault(gen.ns(rng), {})["newf"] = ["v"]
            elif op == 3:
                provs[rng.choice(list(provs))]["enable-if"] = "os_name == 'zzz'"
            elif op == 4:
                p = provs[rng.choice(list(provs))]
                p["optional"] = not p.get("optional", False)
            elif op == 5:
                provs[rng.choice(list(provs))]["plugin-api"] = "zzz.other"
            elif op == 6:
                provs[rng.choice(list(provs))]["requires"].append("zzz")
            elif op == 7:
                st = d["static-properties"]
                n = rng.choice(list(st))
                f = rng.choice(list(st[n]))
                st[n][f].append("zzz")
            elif op < 10:
                # the same entries of one list in another order
                holder, key = rng.choice([
                    *[(fs, f) for fs in d.get("static-properties", {}).values() for f in fs],
                    *[(prio["feature"], n) for n in prio.get("feature", {})],
                    *[(fs, f) for fs in prio.get("property", {}).values() for f in fs],
                    *[(p, "requires") for p in provs.values() if "requires" in p]])
                if len(set(holder[key])) < 2:
                    continue
                holder[key] = gen.shuffled(rng, holder[key])
            else:
                provs["zz_new"] = {"requires": ["zzz"]}
                prio.setdefault("namespace", []).append("zz_new")
            new = model.read_document(d, "wheel")
        except (KeyError, IndexError, ValueError, model.Bad, model.Unknown):
            continue
        old = model.read_document(doc, "wheel")
        if any(new[k] != old[k] for k in SHARED):
            return d
    return None


def family(rng, n):
    """n valid wheel documents with equal settings, sometimes conflicting labels."""
    base, sp = gen.document(rng, "wheel")
    out = [base]
    labels = list(base["variants"])
    for _ in range(n - 1):
        d = copy.deepcopy(base)
        desc = sp.desc(null=0.2)
        lab = ("null" if not desc else rng.choice([x for x in labels if x != "null"] or ["x"])
               if rng.random() < 0.2 else gen.label(rng))
        nested = {}
        for a, b, v in gen.shuffled(rng, desc):
            nested.setdefault(a, {}).setdefault(b, []).append(v)
        d["variants"] = {lab: nested}
        if rng.random() < 0.5:
            def reorder(x):
                return ({k: reorder(v) for k, v in gen.shuffled(rng, x.items())}
                        if isinstance(x, dict) else x)
            d = reorder(d)
        labels.append(lab)
        out.append(d)
    if rng.random() < 0.05:
        # two sets of properties with equal hashes
        pair, lab = rng.choice(gen.COLLIDING), gen.label(rng)
        for v in gen.shuffled(rng, pair):
            d = copy.deepcopy(base)
            d["variants"] = {lab if rng.random() < 0.8 else gen.label(rng): {"a": {"f": [v]}}}
            out.insert(rng.randint(1, len(out)), d)
    return out, sp


def sequence(c):
    rng = c.rng
    docs, _ = family(rng, rng.randint(2, 7))
    first = docs[0]
    if rng.random() < 0.5:
        idx = VariantsJson(copy.deepcopy(first))
    else:
        # as the index commands do it
        w = VariantDistInfo(json.dumps(first))
        idx = VariantsJson(w)
        idx.variants = dict(w.variants)
    state = model.read_document(first, "index")
    c.eq(content(idx), state, "initial index")
    for d in docs[1:] + [rng.choice(docs)]:
        if rng.random() < 0.3:
            t = tweak(rng, d)
            if t is not None:
                d = t
        parsed = model.read_document(d, "wheel")
        (lab, props), = parsed["variants"].items()
        conflict = None
        if any(parsed[k] != state[k] for k in SHARED):
            conflict = "settings"
        if state["variants"].get(lab, props) != props:
            conflict = (conflict or "") + "label"
        other = VariantDistInfo(json.dumps(d))
        ctx = f"index={json.dumps(model.write_document(state))} merged={json.dumps(d)}"
        if conflict:
            c.obs("refused")
            c.obs("label_conflicts" if "label" in conflict else "settings_conflicts")
            c.raises(ValidationError, lambda: idx.merge(other), f"merge with {conflict} conflict: {ctx}")
        else:
            c.obs("merged")
            idx.merge(other)
            state["variants"][lab] = props
        c.distinct(ctx)
        c.eq(content(idx), state, f"index after merge ({conflict or 'no'} conflict): {ctx}")
        c.eq(content(other), parsed, f"the metadata merged in: {ctx}")
        if rng.random() < 0.5:
            _mutate(other, rng)
            c.eq(content(idx), state, f"index after the merged metadata was changed: {ctx}")
        c.eq(model.read_document(json.loads(idx.to_str()), "index"), state, "index written")


def orders(c):
    rng = c.rng
    docs, _ = family(rng, rng.randint(2, 4))
    by_label = {}
    for d in docs:
        by_label.setdefault(next(iter(d["variants"])), d)
    docs = list(by_label.values())
    texts = set()
    perms = list(itertools.permutations(docs))
    rng.shuffle(perms)
    for perm in perms[:6]:
        w = VariantDistInfo(json.dumps(perm[0]))
        idx = VariantsJson(w)
        idx.variants = dict(w.variants)
        for d in perm[1:]:
            idx.merge(VariantDistInfo(json.dumps(d)))
            if rng.random() < 0.5:
                idx.merge(VariantDistInfo(json.dumps(rng.choice(perm[:2]))))
        c.obs("order_permutations")
        c.obs("merged")
        texts.add(idx.to_str())
    c.distinct(json.dumps(docs))
    c.eq(len(texts), 1, f"distinct results over merge orders of {json.dumps(docs)}")
    want = model.read_document(docs[0], "index")
    for d in docs:
        want["variants"].update(model.read_document(d, "wheel")["variants"])
    c.eq(model.read_document(json.loads(texts.pop()), "index"), want, "union")


def indexes(c):
    """Merging whole indexes (several variants at once)."""
    rng = c.rng
    docs, _ = family(rng, 8)
    halves = []
    for part in (docs[:4], docs[4:]):
        d = copy.deepcopy(part[0])
        for x in part[1:]:
            for lab, v in x["variants"].items():
                d["variants"].setdefault(lab, v)
        halves.append(d)
    if rng.random() < 0.3:
        t = copy.deepcopy(halves[1])
        t["variants"] = dict(list(t["variants"].items())[:1])
        t = tweak(rng, t)
        if t is not None:
            t["variants"] = halves[1]["variants"]
            halves[1] = t
    a, b = (model.read_document(h, "index") for h in halves)
    conflict = (any(a[k] != b[k] for k in SHARED)
                or any(a["variants"].get(lab, p) != p for lab, p in b["variants"].items()))
    ia, ib = (VariantsJson(copy.deepcopy(h)) for h in halves)
    c.distinct(json.dumps(halves))
    if conflict:
        c.obs("refused")
        c.raises(ValidationError, lambda: ia.merge(ib), f"conflicting merge {json.dumps(halves)}")
    else:
        c.obs("merged")
        ia.merge(ib)
        a["variants"].update(b["variants"])
    c.eq(content(ia), a, f"index after merge of {json.dumps(halves)}")
    c.eq(content(ib), b, "index merged in")


WORKLOADS = [Workload(sequence, 10000, 50000), Workload(orders, 4000, 20000),
             Workload(indexes, 6000, 30000)]
