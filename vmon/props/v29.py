"""V29 update-pyproject-toml: exactly the requested edits, everything else kept."""
import copy
import os
import sys
import tomllib

from packaging.requirements import Requirement
from packaging.utils import canonicalize_name

from vmon import env, gen, wheels
from vmon.core import Workload
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.errors import ValidationError

RULE = ("pyproject files of varied layout (nested, dotted and inline tables, multi-line arrays, comments, CRLF, "
        "unrelated content around and between) edited against installed plugin distributions, including requests and "
        "files that must be refused; data, text of unrelated content and comments compared; distinct by file and request")
REQUIRED = ("edited", "added_new", "added_existing", "deleted", "deleted_absent", "both", "kept_requires", "filled_requires",
            "valid_after", "repeated", "refused_unknown", "refused_malformed", "refused_missing", "refused_types",
            "refused_plugin", "no_variant_table", "static_removed", "comments", "crlf", "layout_inline", "layout_dotted",
            "layout_table", "layout_super", "default_path", "unrelated_between")

UNRELATED = [
    '[build-system]\nrequires   = ["x>=1"] # why not\nbuild-backend="x.y"\n',
    '[project]\nname = "näme" # the name\n  version = \'1.0\'\ndependencies = [\n    "a",   # first\n  "b", \n]\n',
    '[tool."quo.ted key".x]\nmulti = """\nline [variant]\n  # not a comment\n"""\nraw = \'\'\'C:\\x\'\'\'\n',
    '[[tool.thing]]\nn = 0x1F\nd = 1979-05-27T07:32:00Z\n\n[[tool.thing]]\nn = 1_000\nf = inf # inf\n',
    '[tool.variant]\nproviders = {a = {requires = ["keep"]}}\nnamespace = ["a", "b"]\n',
    '[tool.z]\na.b.c = true\na.b."d e" = [ [1, 2], ["x"] ]\nt = {x = 1, "y" = "2"}\n',
    '[empty]\n\n\n# a free comment\n',
    '[variants]\nnamespace = ["a"]   \n\ttab = 1\n',
    '[tool.tabs]\n\tx = 1\t# tab\n\n   # indented comment   \n\ty = 2\n',
]
HEAD = ['title = "x" # top\n', '# license header\n\n', 'a.b = 1\n', '']


def world(c, broken=False):
    rng = c.rng
    w = env.PluginWorld(c.tmp / "plugins", f"v29{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    site = c.tmp / "site"
    site.mkdir()
    sys.path.insert(0, str(site))
    installed = {}
    names = gen.distinct(rng, gen.ns, rng.randint(1, 5))
    k = 0
    while k < len(names):
        n = rng.randint(1, 2)
        dist = rng.choice(["My.Plugin_Pkg", "prov", "a-b", "X", "Zope.Thing", "p0"]) + str(k)
        ver = rng.choice(["1.0", "0.0.1", "2!1.5.post2", "1.0rc1", "3.4.5+local.7", "2024.1"])
        eps = []
        for ns in names[k:k + n]:
            _, api = w.add(ns, [("f", ["1"], False)], [("f", ["1"], False)], style=rng.choice(env.STYLES),
                           aot=rng.choice([None, True, False]))
            eps.append((rng.choice([f"ep{len(eps)}", f"{ns}_plugin"]), api))
            installed[ns] = (dist, ver, api)
        env.fake_dist(site, dist, ver, eps)
        k += n
    if broken:
        how = rng.choice(["import", "missing", "attr", "same"])
        if how == "import":
            api = w.add_source("raise RuntimeError('no')\n")
        elif how == "missing":
            api = "no_such_module_" + w.tag
        elif how == "attr":
            api = w.add("zz", [("f", ["1"], False)], [], style="class")[0] + ":Nope"
        else:
            api = w.add(names[0], [("f", ["1"], False)], [("f", ["1"], False)])[1]
        env.fake_dist(site, "broken", "1", [("b", api)])
    import importlib
    importlib.invalidate_caches()
    return w, installed


def q(rng, s):
    return s if rng.random() < 0.7 else (f'"{s}"' if rng.random() < 0.7 else f"'{s}'")


def array(rng, items, note):
    strs = [f'"{x}"' if rng.random() < 0.8 else f"'{x}'" for x in items]
    r = rng.random()
    if r < 0.4 or not strs:
        return "[" + ", ".join(strs) + "]"
    if r < 0.6:
        return "[ " + " ,".join(strs) + rng.choice(["", ","]) + " ]"
    ind = rng.choice(["    ", "  ", "\t"])
    return "[\n" + "".join(f"{ind}{s},\n" for s in strs) + "]"


class Doc:
    """Text and structure of the file; `comments`: (text, owner namespace or None)."""

    def __init__(self, c, nss):
        rng = self.rng = c.rng
        self.n = 0
        self.comments = []
        blocks = []
        provs = gen.some(rng, nss)
        prio = gen.shuffled(rng, provs) if rng.random() < 0.8 else gen.some(rng, nss)
        if rng.random() < 0.12 and prio:
            prio.insert(rng.randrange(len(prio)), rng.choice(prio))
        self.head = rng.choice(HEAD)
        settings, static = {}, {}
        for ns in provs:
            s = settings[ns] = gen.provider(rng)
            if rng.random() < 0.12:
                s.pop("requires", None)
            elif "requires" in s:
                s["requires"] = [r for r in s["requires"] if r.isascii() and "'" not in r] or ["plg-x"]
            if "enable-if" in s:
                s["enable-if"] = s["enable-if"].replace('"', "'")
            if not s.get("install-time", True) and not s.get("requires"):
                static[ns] = {f: gen.distinct(rng, gen.val, 2)
                              for f in gen.distinct(rng, gen.feat, rng.choice([1, 1, 2]))}
        if rng.random() < 0.1:
            static[rng.choice(nss)] = {"f": ["1"]}
        feats = {ns: list(fs) for ns, fs in static.items() if len(fs) > 1 or rng.random() < 0.5}
        self.text_blocks = []
        var = []
        layout = rng.choice(["table", "table", "dotted", "inline", "super", "none"])
        self.layout = layout
        if layout != "none":
            var = {"table": self._table, "dotted": self._dotted, "inline": self._inlined,
                   "super": self._super}[layout](prio, settings, static, feats)
        unrelated = rng.sample(UNRELATED, rng.randint(0, 5))
        self.between = False
        # keep the unrelated blocks whole, around the variant ones
        k = rng.randint(0, len(unrelated))
        blocks = unrelated[:k] + var + unrelated[k:]
        if len(var) > 1 and rng.random() < 0.25 and layout == "table":
            # an unrelated table between those of the variant one
            extra = [u for u in UNRELATED if u not in unrelated]
            if extra:
                i = blocks.index(var[0]) + rng.randint(1, len(var) - 1)
                blocks.insert(i, rng.choice(extra))
                unrelated.append(blocks[i])
                self.between = True
        self.unrelated = unrelated
        sep = rng.choice(["\n", "\n", "", "\n\n"])
        self.text = self.head + sep.join(blocks)
        if rng.random() < 0.1:
            self.text = self.text.rstrip("\n")
        self.comments = [t for t in self.comments if f"# {t[0]}" in self.text]
        self.crlf = rng.random() < 0.2
        if self.crlf:
            self.text = self.text.replace("\n", "\r\n")
            assert "\r\r" not in self.text

    def note(self, owner, always=False):
        if not always and self.rng.random() < 0.5:
            return ""
        self.n += 1
        t = f"note {self.n} é"
        self.comments.append((t, owner))
        return "# " + t

    def _keys(self, ns, s, sep=" = "):
        out = []
        for k, v in s.items():
            t = v if isinstance(v, str) else None
            val = (array(self.rng, v, ns) if isinstance(v, list) else
                   ("true" if v else "false") if isinstance(v, bool) else wheels_str(t))
            out.append((q(self.rng, k), val))
        return out

    def _prio(self, prio, feats, prefix=""):
        out = f"namespace = {array(self.rng, prio, None)} {self.note(None)}\n"
        return out

    def _table(self, prio, settings, static, feats):
        rng = self.rng
        out = []
        if rng.random() < 0.8 or feats:
            t = f"[variant.default-priorities] {self.note(None)}\n"
            if rng.random() < 0.9:
                t += self._prio(prio, feats)
            for ns, fs in feats.items():
                t += f"feature.{q(rng, ns)} = {array(rng, fs, ns)} {self.note(None)}\n"
            out.append(t)
        for ns, s in settings.items():
            h = f"[variant.providers.{q(rng, ns)}] {self.note(ns)}\n"
            for k, v in self._keys(ns, s):
                h += f"{k} = {v} {self.note(ns)}\n"
            out.append(h)
        for ns, fs in static.items():
            h = f"[variant.static-properties.{q(rng, ns)}]\n"
            for f, vs in fs.items():
                h += f"{q(rng, f)} = {array(rng, vs, ns)} {self.note(ns)}\n"
            out.append(h)
        if rng.random() < 0.4:
            # providers before priorities etc.
            rng.shuffle(out)
        if rng.random() < 0.3:
            out.insert(0, f"[variant] {self.note(None)}\n")
        return out

    def _super(self, prio, settings, static, feats):
        """one table for all providers, which are inline or dotted within it"""
        rng = self.rng
        t = f"[variant.default-priorities]\n" + self._prio(prio, feats)
        for ns, fs in feats.items():
            t += f"feature.{q(rng, ns)} = {array(rng, fs, ns)}\n"
        p = f"[variant.providers] {self.note(None)}\n"
        for ns, s in settings.items():
            if rng.random() < 0.5 or not s:
                p += f"{q(rng, ns)} = {self._inline(s)} {self.note(ns)}\n"
            else:
                for k, v in self._keys(ns, s):
                    p += f"{q(rng, ns)}.{k} = {v} {self.note(ns)}\n"
        st = f"[variant.static-properties]\n"
        for ns, fs in static.items():
            st += f"{q(rng, ns)} = {self._inline(fs)} {self.note(ns)}\n"
        out = [t] + ([p] if settings or rng.random() < 0.5 else []) + ([st] if static or rng.random() < 0.3 else [])
        return out

    def _inline(self, s):
        def val(v):
            if isinstance(v, list):
                return "[" + ", ".join(f'"{x}"' for x in v) + "]"
            return ("true" if v else "false") if isinstance(v, bool) else wheels_str(v)
        return "{ " + ", ".join(f"{k} = {val(v)}" for k, v in s.items()) + " }" if s else "{}"

    def _dotted(self, prio, settings, static, feats):
        rng = self.rng
        t = f"[variant] {self.note(None)}\n"
        t += f"default-priorities.namespace = {array(rng, prio, None)} {self.note(None)}\n"
        for ns, fs in feats.items():
            t += f"default-priorities.feature.{q(rng, ns)} = {array(rng, fs, ns)}\n"
        for ns, s in settings.items():
            if not s:
                t += f"providers.{q(rng, ns)} = {{}}\n"
            for k, v in self._keys(ns, s):
                t += f"providers.{q(rng, ns)}.{k} = {v} {self.note(ns)}\n"
        for ns, fs in static.items():
            for f, vs in fs.items():
                t += f"static-properties.{q(rng, ns)}.{q(rng, f)} = {array(rng, vs, ns)}\n"
        return [t]

    def _inlined(self, prio, settings, static, feats):
        rng = self.rng
        t = "[variant]\n"
        dp = f"namespace = {array(rng, prio, None) if not prio else '[' + ', '.join(chr(34) + x + chr(34) for x in prio) + ']'}"
        if feats:
            dp += ", feature = " + self._inline(feats)
        t += f"default-priorities = {{ {dp} }} {self.note(None)}\n"
        if settings or rng.random() < 0.3:
            t += "providers = {" + ", ".join(f"{q(rng, ns)} = {self._inline(s)}" for ns, s in settings.items()) + "}\n"
        if static:
            t += "static-properties = {" + ", ".join(f"{ns} = {self._inline(fs)}" for ns, fs in static.items()) + "}\n"
        return [t]


def wheels_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def filled(data):
    data = copy.deepcopy(data)
    v = data.setdefault("variant", {})
    v.setdefault("default-priorities", {}).setdefault("namespace", [])
    v.setdefault("providers", {})
    v.setdefault("static-properties", {})
    return data


def judge_data(c, before, after, dele, add, installed, ctx):
    b, a = filled(before), filled(after)
    bv, av = b.pop("variant"), a.pop("variant")
    c.eq(a, b, f"unrelated data; {ctx}")
    bp, ap = bv.pop("default-priorities"), av.pop("default-priorities")
    bn, an = bp.pop("namespace"), ap.pop("namespace")
    gone = [n for n in dele if n not in add]
    c.eq([n for n in an if n not in add], [n for n in bn if n not in gone and n not in add],
         f"other namespace priorities; {ctx}")
    for n in add:
        if n in bn and bn.count(n) > 1 and n not in dele:
            continue
        c.eq(an.count(n), 1, f"times {n} is listed; {ctx}")
    if not dele:
        c.eq(an[:len(bn)], bn, f"existing namespace priorities; {ctx}")
    c.eq(ap, bp, f"other priorities; {ctx}")
    bs, as_ = bv.pop("static-properties"), av.pop("static-properties")
    c.eq(as_, {n: v for n, v in bs.items() if n not in dele}, f"static properties; {ctx}")
    bpr, apr = bv.pop("providers"), av.pop("providers")
    c.eq(av, bv, f"other variant data; {ctx}")
    c.eq(set(apr), (set(bpr) - set(dele)) | set(add), f"providers; {ctx}")
    for n, s in apr.items():
        if n not in add:
            c.eq(s, bpr[n], f"provider {n}; {ctx}")
            continue
        old = {} if n in dele else bpr.get(n, {})
        dist, ver, api = installed[n]
        c.eq(s.get("plugin-api"), api, f"plugin-api of {n}; {ctx}")
        if "requires" in old:
            c.obs("kept_requires")
            c.eq(s["requires"], old["requires"], f"requires of {n}; {ctx}")
        else:
            c.obs("filled_requires")
            c.eq(len(s["requires"]), 1, f"requires of {n}: {s}; {ctx}")
            r = Requirement(s["requires"][0])
            c.eq((canonicalize_name(r.name), r.specifier.contains(ver, prereleases=True)),
                 (canonicalize_name(dist), True), f"requires of {n}: {s['requires']}; {ctx}")
            c.check(not r.specifier.contains("0.0.0a0", prereleases=True),
                    f"requires of {n} {s['requires']} allows any version; {ctx}")
        c.eq({k: v for k, v in s.items() if k not in ("plugin-api", "requires")},
             {k: v for k, v in old.items() if k not in ("plugin-api", "requires")}, f"other settings of {n}; {ctx}")


def is_valid(data):
    try:
        VariantPyProjectToml(data)
        return True
    except ValidationError:
        return False


def place(c, text):
    d = c.tmp / "proj"
    d.mkdir()
    p = d / "pyproject.toml"
    if text is not None:
        p.write_bytes(text if isinstance(text, bytes) else text.encode("utf8"))
    if c.rng.random() < 0.3:
        os.chdir(d)
        c.obs("default_path")
        return d, p, []
    return d, p, ["-f", str(p)]


def args_of(rng, dele, add):
    """One or several options, in any order."""
    groups = []
    for opt, lst in ((rng.choice(["-d", "--delete"]), dele), (rng.choice(["-a", "--add"]), add)):
        lst = list(lst)
        while lst:
            k = rng.randint(1, len(lst))
            groups.append([opt, *lst[:k]])
            lst = lst[k:]
    rng.shuffle(groups)
    return [x for g in groups for x in g]


def edit(c):
    rng = c.rng
    _, installed = world(c)
    others = [n for n in gen.distinct(rng, gen.ns, 3) if n not in installed]
    nss = list(installed) + others
    doc = Doc(c, nss)
    c.obs("layout_" + doc.layout if doc.layout != "none" else "no_variant_table")
    c.obs("unrelated_between", doc.between)
    c.obs("crlf", doc.crlf)
    before = tomllib.loads(doc.text)
    add = gen.some(rng, installed, hi=3)
    dele = [n for n in gen.some(rng, nss, hi=3) if n not in add]
    if not add + dele:
        add = [next(iter(installed))]
    d, p, opt = place(c, doc.text)
    args = args_of(rng, dele, add)
    c.distinct(doc.text, sorted(dele), sorted(add))
    ctx = f"update {args} of\n{doc.text}"
    if c.i < 2:
        c.sample({"args": args, "file": doc.text})
    res = env.cli("update-pyproject-toml", *opt, *args)
    if not res.ok and doc.layout == "dotted":
        # dotted keys within the variant table cannot always be edited; then nothing is changed
        c.obs("refused_layout")
        c.eq(p.read_bytes().decode("utf8"), doc.text, f"file after failing ({res}); {ctx}")
        return
    c.check(res.ok, f"failed: {res}; {ctx}")
    raw = p.read_bytes().decode("utf8")
    ctx += f"\nwrote\n{raw}"
    c.eq(sorted(x.name for x in d.iterdir()), ["pyproject.toml"], f"files; {ctx}")
    try:
        after = tomllib.loads(raw)
    except ValueError as e:
        c.fail(f"the written file is not TOML: {e}; {ctx}")
    c.obs("edited")
    bprov = before.get("variant", {}).get("providers", {})
    for n in add:
        c.obs("added_existing" if n in bprov else "added_new")
    for n in dele:
        c.obs("deleted" if n in bprov else "deleted_absent")
        c.obs("static_removed", n in before.get("variant", {}).get("static-properties", {}))
    c.obs("both", bool(add and dele))
    judge_data(c, before, after, dele, add, installed, ctx)
    # unrelated text, in order
    pos = 0
    eol = (lambda s: s.replace("\n", "\r\n")) if doc.crlf else (lambda s: s)
    for u in sorted(doc.unrelated, key=lambda u: doc.text.index(eol(u).rstrip())):
        u = eol(u).rstrip("\r\n")
        k = raw.find(u, pos)
        c.check(k >= 0, "unrelated text {!r} changed or moved; {}", u, ctx)
        pos = k + len(u)
    c.check(raw.startswith(eol(doc.head).rstrip("\r\n")), f"head of the file changed; {ctx}")
    for t, owner in doc.comments:
        if owner in dele or owner in add:
            continue
        c.obs("comments")
        c.check(("# " + t) in raw, f"comment {t!r} lost; {ctx}")
    if "\r\n" in doc.text:
        c.check("\r\n" in raw, f"line endings; {ctx}")
    statics = before.get("variant", {}).get("static-properties", {})
    if is_valid(before) and not any(n in statics for n in add):
        c.obs("valid_after")
        c.check(is_valid(after), f"no longer valid; {ctx}")
    if rng.random() < 0.7:
        res = env.cli("update-pyproject-toml", *opt, *args)
        c.check(res.ok, f"repeating failed: {res}; {ctx}")
        c.obs("repeated")
        c.eq(p.read_bytes().decode("utf8"), raw, f"repeating changes the file; {ctx}")


BAD_TOML = ["[variant", "x = ", "a = 1\na = 2\n", "[variant]\nproviders = {\n", "[variant.providers.a]\n[variant.providers.a]\n",
            "= 1", "x = 'a\n", b"x = \"\xff\xfe\"\n", "[variant]\n\"\"\"\n"]
BAD_TYPES = ["variant = 1\n", "variant = []\n", "[variant]\nproviders = 1\n", "[variant]\nproviders = []\n",
             "[variant]\ndefault-priorities = 'x'\n", "[variant.default-priorities]\nnamespace = 1\n",
             "[variant.default-priorities]\nnamespace = {}\n", "[[variant]]\n", "[variant]\nproviders.NS = 7\n",
             "[variant]\nproviders.NS = []\n"]


def refuse(c):
    rng = c.rng
    how = rng.choice(["unknown", "unknown", "malformed", "missing", "types", "plugin"])
    _, installed = world(c, broken=how == "plugin")
    nss = list(installed)
    others = [n for n in gen.distinct(rng, gen.ns, 9) if n not in installed][:3]
    doc = Doc(c, nss + others)
    text = doc.text
    add, dele = gen.some(rng, nss, hi=2), gen.some(rng, nss + others, hi=2)
    dele = [n for n in dele if n not in add]
    if how == "unknown":
        add.insert(rng.randint(0, len(add)), rng.choice(others + ["nope", "NS", nss[0] + " ", "a :: b", ""]))
        if all(n in installed for n in add):
            add.append("nope_nope")
    elif how == "malformed":
        bad = rng.choice(BAD_TOML)
        text = rng.choice([bad, text.encode() + b"\n" + (bad if isinstance(bad, bytes) else bad.encode())])
        try:
            tomllib.loads(text if isinstance(text, str) else text.decode("utf8"))
            text = "= 1"
        except ValueError:
            pass
    elif how == "types":
        text = rng.choice(BAD_TYPES).replace("NS", f'"{nss[0]}"')
        if nss[0] not in add:
            add.insert(rng.randint(0, len(add)), nss[0])
    elif how == "missing":
        text = None
    if not add + dele:
        add = [nss[0]]
    d, p, opt = place(c, text)
    args = args_of(rng, dele, add)
    c.distinct(text, sorted(dele), sorted(add), how)
    before = env.snapshot(d)
    res = env.cli("update-pyproject-toml", *opt, *args)
    after = env.snapshot(d)
    ctx = f"update {args} ({how}) of\n{text}"
    if how == "types":
        # whether such files are refused is not claimed
        if res.ok:
            return
    else:
        c.check(not res.ok, f"accepted: {res}; {ctx}")
    c.obs("refused_" + how)
    c.eq(after, before, f"files after a refusal; {ctx}")


def usage(c):
    """No manipulation requested, or half of one."""
    rng = c.rng
    _, installed = world(c)
    doc = Doc(c, list(installed))
    d, p, opt = place(c, doc.text)
    args = rng.choice([[], ["-a"], ["-d"], ["--bogus"], ["x"]])
    before = env.snapshot(d)
    c.distinct(doc.text, args)
    res = env.cli("update-pyproject-toml", *opt, *args)
    c.check(not res.ok, f"accepted {args}: {res}")
    c.eq(env.snapshot(d), before, "files")


WORKLOADS = [Workload(edit, 700, 7000), Workload(refuse, 300, 2500), Workload(usage, 10, 60)]
