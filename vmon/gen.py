"""Seeded generators. Small alphabets for collisions, odd and long names for reach."""
from __future__ import annotations

import copy
import string

NS = ["a", "b", "aa", "ab", "ns_1", "x86_64", "_", "0", "n" * 40]
FEAT = ["f", "g", "fg", "feat_1", "_", "1", "arch", "x" * 33]
VAL = ["1", "2", "10", "1.0", ".", "v", "_x", "on", "off", "2.1.3", "..", "w" * 50]
NAME_CH = string.ascii_lowercase + string.digits + "_"


def rname(rng, hi=12):
    return "".join(rng.choice(NAME_CH) for _ in range(rng.randint(1, hi)))


def ns(rng):
    return rng.choice(NS) if rng.random() < 0.9 else rname(rng)


def feat(rng):
    return rng.choice(FEAT) if rng.random() < 0.9 else rname(rng)


def val(rng):
    if rng.random() < 0.9:
        return rng.choice(VAL)
    return "".join(rng.choice(NAME_CH + ".") for _ in range(rng.randint(1, 12)))


def distinct(rng, f, n):
    out = []
    for _ in range(n * 4):
        if len(out) >= n:
            break
        x = f(rng)
        if x not in out:
            out.append(x)
    return out


def label(rng):
    r = rng.random()
    if r < 0.1:
        return "".join(rng.choice(NAME_CH + ".") for _ in range(16))
    if r < 0.5:
        return "".join(rng.choice("0123456789abcdef") for _ in range(8))
    while True:
        s = "".join(rng.choice(NAME_CH + ".") for _ in range(rng.randint(1, 15)))
        if s != "null":
            return s


def twin(rng, p):
    """A different property spelled almost like `p` (joined without separators, or with roles swapped)."""
    n, f, v = p
    out = [(f, n, v), (n, f, v + v), (n + n, f, v)]
    if len(n) > 1:
        out += [(n[:-1], n[-1] + f, v)] * 2
    if len(f) > 1:
        out += [(n + f[0], f[1:], v)] * 2
        out += [(n, f[:-1], f[-1] + v)] * 2
    if len(v) > 1 and v[0] != ".":
        out += [(n, f + v[0], v[1:])] * 2
    out += [(n, v, f) if "." not in v else (n, f, v.replace(".", "_")), (n, f, v.replace("_", "."))]
    return rng.choice([q for q in out if q != p])


# values of `a :: f` for which the short hashes of the two variants are equal
COLLIDING = [
    ('a9969f5ae6ec7bd', '7d3ffc0f7067f1c'),
    ('9b6d8ff7d5558f', 'ce85fa43131dfa5'),
    ('15807e0da4ffc8e', '2f31b6259798b60'),
    ('1074a2e68551d9c', '8923d79efcd0e'),
    ('5acb5c363f0dd67', 'be4c3c9b4715547'),
    ('50128eeee11c099', 'e6266373c72209'),
    ('7cb61e0675c076', 'caf10c356c13221'),
    ('183f2e7b01725bf', '4df6fcadf6cd548'),
    ('141ed49901eee93', 'adb859d42bf22a4'),
    ('70d5d15120b87b3', '317276313de0ee0'),
    ('516d5072f76ac55', '16e6cecc96fc5e3'),
    ('4ce9d60ccbe5843', 'd2b72f9bc689ad9'),
]


def same_hash(desc):
    """Another variant with the same short hash, or None."""
    if len(desc) == 1 and desc[0][:2] == ("a", "f"):
        for pair in COLLIDING:
            if desc[0][2] in pair:
                return (("a", "f", pair[1 - pair.index(desc[0][2])]),)
    return None


class Space:
    """A small universe of properties: namespace -> feature -> values (ordered)."""

    def __init__(self, rng, max_ns=4, max_feat=3, max_val=4, min_ns=0):
        self.rng = rng
        self.tree = {}
        self.large = rng.random() < 0.012      # now and then far more than usual
        if self.large:
            k = rng.choice([1, 4])
            max_ns, max_feat, max_val = max_ns * k, max_feat * rng.choice([2, 6]), max_val * rng.choice([2, 12])
        for n in distinct(rng, ns, rng.randint(min_ns, max_ns)):
            self.tree[n] = {f: distinct(rng, val, rng.randint(1, max_val))
                            for f in distinct(rng, feat, rng.randint(1, max_feat))}
        self.colliding = None
        if max_ns and rng.random() < 0.04:
            self.colliding = rng.choice(COLLIDING)
            vs = self.tree.setdefault("a", {}).setdefault("f", [])
            vs[:] = shuffled(rng, [*vs, *self.colliding])

    def props(self):
        return [(n, f, v) for n, fs in self.tree.items() for f, vs in fs.items() for v in vs]

    def prop(self, foreign=0.1):
        ps = self.props()
        if not ps or self.rng.random() < foreign:
            if ps and self.rng.random() < 0.6:
                n, f, v = self.rng.choice(ps)
                k = self.rng.randrange(4)
                if k == 3:
                    return twin(self.rng, (n, f, v))
                return (ns(self.rng) if k == 0 else n, feat(self.rng) if k == 1 else f,
                        val(self.rng) if k == 2 else v)
            return (ns(self.rng), feat(self.rng), val(self.rng))
        return self.rng.choice(ps)

    def desc(self, max_props=5, foreign=0.1, null=0.1):
        rng = self.rng
        if rng.random() < null:
            return ()
        if self.colliding and rng.random() < 0.4:
            return (("a", "f", rng.choice(self.colliding)),)
        if self.large and rng.random() < 0.4:
            max_props *= 8
        out = {self.prop(foreign) for _ in range(rng.randint(1, max_props))}
        # bias towards several values of one feature
        if rng.random() < 0.3:
            n, f, _ = rng.choice(sorted(out))
            out.add((n, f, val(rng)))
            for v in self.tree.get(n, {}).get(f, []):
                if rng.random() < 0.5:
                    out.add((n, f, v))
        return tuple(sorted(out))

    def descs(self, n, **kw):
        out = []
        if self.large and n > 1:
            n *= self.rng.choice([3, 12])
        for _ in range(n * 3):
            if len(out) >= n:
                break
            d = self.desc(**kw)
            if out and kw.get("foreign", 0.1) and self.rng.random() < 0.1:
                base = list(self.rng.choice(out))
                if base:
                    k = self.rng.randrange(len(base))
                    base[k] = twin(self.rng, base[k])
                    d = tuple(sorted(set(base)))
            if d not in out:
                out.append(d)
        return out


def shuffled(rng, seq):
    seq = list(seq)
    rng.shuffle(seq)
    return seq


def some(rng, seq, lo=0, hi=None):
    seq = list(seq)
    k = rng.randint(min(lo, len(seq)), len(seq) if hi is None else min(hi, len(seq)))
    return rng.sample(seq, k)


def feat_prios(rng, space, extra=0.2, p=0.6):
    out = {}
    for n, fs in space.tree.items():
        if rng.random() < p:
            lst = some(rng, fs)
            if rng.random() < extra:
                lst.insert(rng.randint(0, len(lst)), "zz_" + rname(rng, 4))
            out[n] = lst
    if rng.random() < extra:
        out.setdefault("zz_" + rname(rng, 4), [feat(rng)])
    return out


def prop_prios(rng, space, extra=0.2, p=0.5):
    out = {}
    for n, fs in space.tree.items():
        for f, vs in fs.items():
            if rng.random() < p:
                lst = some(rng, vs)
                if rng.random() < extra:
                    lst.insert(rng.randint(0, len(lst)), "zz." + rname(rng, 4))
                out.setdefault(n, {})[f] = lst
    if rng.random() < extra:
        out.setdefault("zz_" + rname(rng, 4), {})[feat(rng)] = [val(rng)]
    return out


MARKERS_TRUE = ["python_version >= '3.8'", "os_name == 'posix'", "sys_platform == 'linux'",
                "python_version >= '3' and os_name != 'nt'", "implementation_name == 'cpython'",
                "platform_system == 'Linux' or python_version < '3'"]
MARKERS_FALSE = ["python_version < '3'", "os_name == 'nt'", "sys_platform == 'win32'",
                 "python_version >= '99'", "os_name == 'posix' and sys_platform == 'darwin'"]
REQUIRES = ["plg", "plg-x", "plg >=1.2", "plg[extra]>=1 ; python_version >= '3'", "Plg.Q",
            "plg @ https://example.com/plg.whl", "plg==1.2.post1", "plg ; extra == 'é日'"]


def provider(rng, kind=None):
    """Settings table. kind: install / aot / static"""
    kind = kind or rng.choice(["install", "install", "aot", "static"])
    p = {}
    if kind != "static":
        p["requires"] = distinct(rng, lambda r: r.choice(REQUIRES), rng.randint(1, 3))
    elif rng.random() < 0.2:
        p["requires"] = []
    if kind != "install":
        p["install-time"] = False
    elif rng.random() < 0.3:
        p["install-time"] = True
    if rng.random() < 0.4:
        p["optional"] = rng.random() < 0.6
    if rng.random() < 0.5:
        p["plugin-api"] = rng.choice(["plg", "plg.mod", "plg:Obj", "plg.mod : obj.attr", "a_b:C_1",
                                      "plg  :x"])
    if rng.random() < 0.4:
        p["enable-if"] = rng.choice(MARKERS_TRUE + MARKERS_FALSE)
    items = list(p.items())
    rng.shuffle(items)
    return dict(items)


def document(rng, kind, max_variants=5, max_ns=4):
    """A valid document of the kind (index / wheel / pyproject)."""
    sp = Space(rng, max_ns=max_ns)
    nss = list(sp.tree)
    provs = {}
    for n in nss:
        if rng.random() < 0.85:
            provs[n] = provider(rng)
    doc = {}
    prio = {}
    prio["namespace"] = shuffled(rng, provs)
    if not provs and rng.random() < 0.5:
        del prio["namespace"]
    fp = feat_prios(rng, sp)
    pp = prop_prios(rng, sp)
    static = {}
    for n, p in provs.items():
        if p.get("install-time", True):
            continue
        if kind == "pyproject" and p.get("requires"):
            continue
        static[n] = {f: list(vs) for f, vs in sp.tree[n].items()}
        if len(static[n]) > 1:
            lst = fp.setdefault(n, [])
            for f in static[n]:
                if f not in lst:
                    lst.insert(rng.randint(0, len(lst)), f)
    if fp or rng.random() < 0.2:
        prio["feature"] = fp
    if pp or rng.random() < 0.2:
        prio["property"] = pp
    if prio or rng.random() < 0.2:
        doc["default-priorities"] = prio
    if provs or rng.random() < 0.5:
        doc["providers"] = provs
    if static or rng.random() < 0.2:
        doc["static-properties"] = static
    if kind != "pyproject":
        if rng.random() < 0.3:
            doc["$schema"] = "https://variants-schema.wheelnext.dev/v0.0.3.json"
        variants = {}
        n = 1 if kind == "wheel" else rng.randint(0, max_variants)
        for d in sp.descs(n, null=0.15):
            nested = {}
            for a, b, c in shuffled(rng, d):
                nested.setdefault(a, {}).setdefault(b, []).append(c)
            variants["null" if not d else _fresh(rng, variants)] = nested
        if kind == "wheel" and not variants:
            variants["null"] = {}
        doc["variants"] = variants
    items = list(doc.items())
    rng.shuffle(items)
    return dict(items), sp


def _fresh(rng, used):
    while True:
        lab = label(rng)
        if lab not in used and lab != "null":
            return lab


BAD_STRINGS = ["", " ", "A", "a b", "a-b", "a\n", "\n", "é", "²", "a:b", "a::b", "名", "a\t",
               "٣", "a\u00a0", "a/b", "NULL", "a.b", "a,b", "a\x00", "null", "ſ", "K"]
BAD_VALUES = [None, 0, 1, True, False, 1.5, [], {}, [1], [None], {"a": 1}, "x", ["A"], [""],
              ["a", "a"], [["a"]], {"a": "b"}, {"a": ["b"]}, {"a": {"b": ["c"]}}, {"A": []},
              {"a": {"b": "c"}}, {"a": {"B": ["c"]}}, {"a": {"b": ["C"]}}, {"a": {"b": [1]}},
              {"a": {}}, {"a": {"b": []}}, {"": {}}]


def _paths(obj, path=()):
    yield path
    if isinstance(obj, dict):
        for k, v in obj.items():
            yield from _paths(v, path + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield from _paths(v, path + (i,))


def corrupt(rng, doc, times=1):
    """Mutate a document at random places; the result may still be valid."""
    doc = copy.deepcopy(doc)
    for _ in range(times):
        paths = [p for p in _paths(doc) if p]
        if not paths:
            doc[rng.choice(["variants", "providers", "x"])] = rng.choice(BAD_VALUES)
            continue
        # prefer a uniform choice of depth
        depth = rng.choice(sorted({len(p) for p in paths}))
        path = rng.choice([p for p in paths if len(p) == depth])
        parent = doc
        for k in path[:-1]:
            parent = parent[k]
        key = path[-1]
        op = rng.randrange(8)
        if op == 0:
            del parent[key]
        elif op == 1:
            parent[key] = copy.deepcopy(rng.choice(BAD_VALUES))
        elif op == 2 and isinstance(parent, dict):
            v = parent.pop(key)
            parent[rng.choice(BAD_STRINGS + ["bogus", "x" * 17, "namespace", "requires", "z"])] = v
        elif op == 3:
            if isinstance(parent[key], str):
                parent[key] = rng.choice(BAD_STRINGS)
            elif isinstance(parent[key], list):
                parent[key].append(rng.choice(BAD_STRINGS + [1, None, [], "ok", "z9"]))
            elif isinstance(parent[key], dict):
                parent[key][rng.choice(BAD_STRINGS + ["bogus", "zz", "install-time", "optional",
                                                     "enable-if", "plugin-api"])] = \
                    copy.deepcopy(rng.choice(BAD_VALUES))
            else:
                parent[key] = not parent[key]
        elif op == 4 and isinstance(parent, list):
            parent.append(parent[key])
        elif op == 5 and isinstance(parent[key], str):
            s = parent[key]
            k = rng.randint(0, len(s))
            parent[key] = s[:k] + rng.choice(["\n", " ", "A", "-", "é", "٣", ".", "_", "\t", "K"]) + s[k:]
        elif op == 6 and isinstance(parent[key], bool):
            parent[key] = rng.choice([0, 1, "true", None, not parent[key]])
        elif op == 7 and isinstance(parent, dict):
            parent[rng.choice(["zz", "bogus", "null", "x" * 16, "x" * 17])] = copy.deepcopy(parent[key])
        else:
            if isinstance(parent[key], (list, dict)):
                parent[key].clear()
            else:
                parent[key] = rng.choice(["ok", "z9", 7])
    return doc
