"""V01 identity hash: reference digest, permutations, routes, processes and hash seeds."""
import json
import subprocess
import sys

from vmon import env, gen, model
from vmon.core import Workload
from vmon.lib import VD, VP, VPs, td
from variantlib.api import get_variant_label
from variantlib.models.variant import VariantDescription, VariantProperty

RULE = ("random property sets (0-40 properties over small colliding alphabets plus random names); "
        "non-trivial: at least one property; distinct by property set")
REQUIRED = ("digests", "permutations", "unequal_pairs", "processes", "cli_hashes", "collisions")


def identity(c):
    rng = c.rng
    sp = gen.Space(rng, max_ns=5, max_feat=4, max_val=5)
    props = list(sp.desc(max_props=rng.choice([1, 2, 3, 6, 12, 40])))
    want = model.vhash(props)
    base = VD(props)
    c.obs("digests")
    c.eq(base.hexdigest, want, f"hash of {props}")
    c.eq(get_variant_label(base), model.default_label(props), "default label")
    c.eq(base.is_null_variant(), not props, "null variant")
    if props:
        c.distinct(tuple(sorted(props)))
    c.eq(td(base), tuple(sorted(props)), "properties exposed")
    for _ in range(3):
        perm = VD(gen.shuffled(rng, props))
        c.obs("permutations")
        c.eq(perm.hexdigest, want, "hash of a permutation")
        c.check(perm == base, "permutation compares unequal: {}", props)
    # construction routes
    text = VariantDescription([VariantProperty.from_str(gen.shuffled(rng, ["{}::{}::{}", "{} :: {} :: {}",
                              " {}  ::{}:: {} "])[0].format(*p)) for p in gen.shuffled(rng, props)])
    lst = VariantDescription.deserialize(
        [dict(gen.shuffled(rng, {"namespace": n, "feature": f, "value": v}.items()))
         for n, f, v in gen.shuffled(rng, props)])
    nested = {}
    for n, f, v in gen.shuffled(rng, props):
        nested.setdefault(n, {}).setdefault(f, []).append(v)
    dct = VariantDescription.from_dict(nested)
    tup = VariantDescription(VPs(props))
    for route, o in (("text", text), ("list", lst), ("dict", dct), ("objects", tup)):
        c.obs("routes")
        c.eq(o.hexdigest, want, f"hash via {route}")
        c.check(o == base and not (o != base), "unequal via {}: {}", route, props)
    # inequality with near misses
    others = [sp.desc(max_props=3)]
    if props:
        others.append(tuple(sorted(props))[:-1])
        n, f, v = rng.choice(props)
        others.append(tuple(p for p in props if p != (n, f, v)) + ((n, f, v + "1"),))
        others.append(tuple(p for p in props if p != (n, f, v)) + ((f, n, v),))
        if len(n) > 1:
            others.append(tuple(p for p in props if p != (n, f, v)) + ((n[:-1], n[-1] + f, v),))
    for o in others:
        if set(o) != set(props):
            c.obs("unequal_pairs")
            od = VD(set(o))
            c.check(od != base and not (od == base), "different sets compare equal: {} {}", o, props)
            c.eq(od.hexdigest, model.vhash(o), f"hash of {o}")
    # caller's list modified afterwards
    given = VPs(props)
    d = VariantDescription(given)
    h = d.hexdigest
    given.append(VP(("zz", "zz", "zz")))
    c.eq(VariantDescription(d.properties).hexdigest, h, "identity after the given list was modified")
    c.sample({"props": props[:6], "hash": want})


def adjacent(c):
    """Sets whose concatenated texts coincide."""
    rng = c.rng
    a, b, cc = (gen.rname(rng, 3) for _ in range(3))
    d, e, f = (gen.rname(rng, 3) for _ in range(3))
    x = gen.rname(rng, 2)
    s1 = [(a, b, cc + x), (d, e, f)]
    s2 = [(a, b, cc), (x + d, e, f)]
    c.obs("unequal_pairs")
    c.distinct(tuple(s1), tuple(s2))
    for s in (s1, s2):
        if len(set(s)) == 2:
            c.eq(VD(s).hexdigest, model.vhash(s), f"hash of {s}")
            c.eq(VD(s[::-1]).hexdigest, model.vhash(s), f"hash of {s[::-1]}")


CHILD = '''
import sys, json
sys.path.insert(0, {repo!r})
from variantlib.models.variant import VariantDescription, VariantProperty
from variantlib.api import get_variant_label
out = []
for props in json.load(sys.stdin):
    d = VariantDescription([VariantProperty(*p) for p in props])
    out.append([d.hexdigest, get_variant_label(d)])
json.dump(out, sys.stdout)
'''


def collisions(c):
    """Different sets whose short hashes coincide."""
    a, b = (VD([("a", "f", v)]) for v in gen.COLLIDING[c.i % len(gen.COLLIDING)])
    c.obs("collisions")
    c.distinct(str(a), str(b))
    c.eq(a.hexdigest, b.hexdigest, "hashes of a colliding pair")
    c.check(a != b and not (a == b), "different sets with equal hashes compare equal: {} {}", a, b)
    c.check([a] != [b] and {"x": a} != {"x": b} and a not in [b], "containers of {} {}", a, b)


def processes(c):
    rng = c.rng
    sets = [list(gen.Space(rng).desc(max_props=8)) for _ in range(40)]
    for seed in ("0", str(rng.randint(1, 10**6)), "random"):
        import os
        r = subprocess.run([sys.executable, "-c", CHILD.format(repo=env.REPO)],
                           input=json.dumps([gen.shuffled(rng, s) for s in sets]), text=True,
                           capture_output=True, env={**os.environ, "PYTHONHASHSEED": seed})
        c.check(r.returncode == 0, "child failed: {}", r.stderr)
        c.obs("processes")
        for s, (h, lab) in zip(sets, json.loads(r.stdout)):
            c.eq(h, model.vhash(s), f"hash of {s} in a process with hash seed {seed}")
            c.eq(lab, model.default_label(s), f"label of {s}")
    c.distinct("proc", str(sets))


def command(c):
    rng = c.rng
    props = list(gen.Space(rng, min_ns=1).desc(max_props=6, null=0))
    args = []
    todo = gen.shuffled(rng, props)
    while todo:
        k = rng.randint(1, len(todo))
        args += [rng.choice(["-p", "--property"]),
                 *[rng.choice(["{}::{}::{}", "{} :: {} :: {}"]).format(*p) for p in todo[:k]]]
        todo = todo[k:]
    o = env.cli("get-variant-hash", *args)
    c.obs("cli_hashes")
    c.check(o.ok, "get-variant-hash failed: {}", o)
    c.eq(o.out.strip(), model.vhash(props), f"get-variant-hash {args}")
    c.distinct("cli", tuple(sorted(props)))


WORKLOADS = [Workload(identity, 24000, 120000), Workload(adjacent, 8000, 40000),
             Workload(processes, 8, 80), Workload(collisions, 12, 12), Workload(command, 480, 1500)]
