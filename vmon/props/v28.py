"""V28 the effective configuration, as loaded, used and shown."""
import io
import json
import os
import pathlib
import re
import sys
import tomllib

from vmon import env, gen, model, wheels
from vmon.core import Workload
from variantlib.api import get_variants_by_priority
from variantlib.configuration import VariantConfiguration
from variantlib.errors import ConfigurationError

RULE = ("the four locations with any combination of missing, well-formed, malformed and ill-typed files "
        "(hostile feature and value names, empty tables); the effective configuration as loaded, as "
        "applied in selection and as shown and read back; distinct by location contents")
REQUIRED = ("loaded", "default", "errors", "shown", "shown_environment", "listed", "listed_verbose",
            "lower_ignored", "source_LOCAL", "source_VIRTUALENV", "source_USER", "source_GLOBAL",
            "applied", "bad_syntax", "bad_key", "bad_type", "bad_namespace", "shown_missing", "empty_files", "linked_files")
NAMES = ("LOCAL", "VIRTUALENV", "USER", "GLOBAL")
ODD = ["a.b", "with space", "ünï", 'quo"te', "sl\\ash", "", "x\ty", "#", "a = b", "[t]", "'s", "日本", "1", "true",
       "new\nline", "-", "\x7f", "1.5", "\U0001f600"]


def feature(rng):
    return rng.choice(ODD) if rng.random() < 0.3 else gen.feat(rng)


def value(rng):
    return rng.choice(ODD) if rng.random() < 0.3 else gen.val(rng)


def config(rng):
    conf = {}
    nss = gen.distinct(rng, gen.ns, rng.randint(0, 4))
    if rng.random() < 0.7:
        conf["namespace_priorities"] = gen.shuffled(rng, nss)
    if rng.random() < 0.7:
        conf["feature_priorities"] = {n: gen.distinct(rng, feature, rng.randint(0, 4)) for n in gen.some(rng, nss)}
    if rng.random() < 0.7:
        conf["property_priorities"] = {
            n: {f: gen.distinct(rng, value, rng.randint(0, 4)) for f in gen.distinct(rng, feature, rng.randint(0, 3))}
            for n in gen.some(rng, nss)}
    return conf


def full(conf):
    return {"namespace_priorities": [], "feature_priorities": {}, "property_priorities": {}, **conf}


def normal(conf):
    """Without namespaces holding nothing, which a shown configuration need not repeat."""
    conf = full(conf)
    return {**conf, "property_priorities": {n: fs for n, fs in conf["property_priorities"].items() if fs}}


WRONG = [1, True, 1.5, "x", "", 0, False, {}, [], [1], ["a", 1], {"a": 1}, {"a": "b"}, {"a": [1]}, [["a"]],
         {"a": {"b": 1}}, {"a": {"b": [1]}}, {"a": ["x"]}, {"a": {"b": ["x"]}}, {"a": []}, {"a": {}},
         {"a": {"b": "x"}}, {"a": {"b": {"c": ["d"]}}}, ["a"], [{}]]


def valid(conf):
    if set(conf) - {"namespace_priorities", "feature_priorities", "property_priorities"}:
        return False

    def strs(x):
        return isinstance(x, list) and all(type(i) is str for i in x)
    ns = conf.get("namespace_priorities", [])
    fp = conf.get("feature_priorities", {})
    pp = conf.get("property_priorities", {})
    return (strs(ns) and all(model.is_name(n) for n in ns)
            and isinstance(fp, dict) and all(model.is_name(n) and strs(v) for n, v in fp.items())
            and isinstance(pp, dict) and all(
                model.is_name(n) and isinstance(v, dict) and all(strs(x) for x in v.values())
                for n, v in pp.items()))


def bad_config(c, conf):
    rng = c.rng
    conf = json.loads(json.dumps(conf))
    how = rng.choice(["syntax", "key", "type", "namespace"])
    c.obs("bad_" + how)
    if how == "syntax":
        return rng.choice([b"namespace_priorities = [", b"= 1", b"[a", b"a = b", b"\xff\xfe", b"a = 1\na = 2\n",
                           b"[feature_priorities]\na = []\n[feature_priorities]\n", b"x = 'unterminated",
                           wheels.toml(conf).encode() + b"\nnamespace_priorities"]), conf
    if how == "key":
        conf[rng.choice(["namespace-priorities", "feature", "variants", "providers", "x", "Namespace_priorities",
                         "namespaces_priorities"])] = rng.choice([[], {}, ["a"], 1])
    elif how == "type":
        for _ in range(50):
            new = {**conf, rng.choice(sorted(full({}))): rng.choice(WRONG)}
            if not valid(new):
                conf = new
                break
    else:
        bad = rng.choice(["A", "a-b", "a b", "", "é", "a.b", "a\n", "٣"])
        k = rng.choice(sorted(full({})))
        v = full(conf)[k]
        conf[k] = ([*v, bad] if isinstance(v, list) else
                   {**v, bad: ["x"] if k == "feature_priorities" else {"f": ["x"]}})
    return wheels.toml(conf).encode(), conf


def locations(c):
    root = c.tmp
    cwd, prefix, user, glob = (root / x for x in ("cwd", "venv", "xdg", "global"))
    for d in (cwd, prefix, user / "variantlib", glob / "variantlib"):
        d.mkdir(parents=True)
    os.chdir(cwd)
    sys.prefix = str(prefix)
    if c.rng.random() < 0.5:      # outside of a virtual environment
        sys.base_prefix = sys.prefix
    os.environ["XDG_CONFIG_HOME"] = str(user)
    os.environ["XDG_CONFIG_DIRS"] = str(glob)
    env.reset_caches()
    return {n: p / "variants.toml" for n, p in zip(NAMES, (cwd, prefix, user / "variantlib", glob / "variantlib"))}


def loaded(conf):
    return {"namespace_priorities": conf.namespace_priorities, "feature_priorities": conf.feature_priorities,
            "property_priorities": conf.property_priorities}


def effective(c):
    rng = c.rng
    locs = locations(c)
    contents = {}
    skip = rng.choice([0, 0, 1, 2, 3])
    for k, (name, p) in enumerate(locs.items()):
        r = rng.random()
        if r < 0.35 or k < skip:
            if name != "LOCAL" and rng.random() < 0.1:
                p.symlink_to(c.tmp / "nothing-here.toml")
                c.obs("linked_files")
            continue
        conf = config(rng)
        if r < 0.5:
            raw, conf = bad_config(c, conf)
            ok = False
        else:
            raw, ok = wheels.toml(conf).encode(), True
            q = rng.random()
            if q < 0.2:
                raw = b"# a comment\n\n" + raw
            elif q < 0.35:
                raw, conf = rng.choice([b"", b"\n", b"  \n\t\n", b"# nothing\n", b"#"]), {}
                c.obs("empty_files")
            assert tomllib.loads(raw.decode()) == conf and valid(conf)
        if rng.random() < 0.15:
            target = c.tmp / f"kept-{name}.toml"
            target.touch()
            p.symlink_to(rng.choice([target, os.path.relpath(target, p.parent)]))
            c.obs("linked_files")
        p.write_bytes(raw)
        contents[name] = (raw, conf, ok)
    first = next((n for n in NAMES if n in contents), None)
    c.distinct(contents)
    c.obs("lower_ignored", len(contents) > 1)
    ctx = f"effective {first} of {contents}"
    ok = first is None or contents[first][2]
    want = {} if first is None else contents[first][1]
    c.obs("default" if first is None else "source_" + first)
    before = env.snapshot(c.tmp)
    if not ok:
        c.obs("errors")
        exc = (ConfigurationError, RuntimeError, ValueError)
        c.raises(exc, VariantConfiguration.get_config, f"loading; {ctx}")
        env.reset_caches()
        c.raises(exc, lambda: VariantConfiguration.namespace_priorities, f"priorities; {ctx}")
        env.reset_caches()
        c.raises(exc, lambda: get_variants_by_priority(variants_json={
            "default-priorities": {"namespace": []}, "providers": {}, "variants": {}}), f"selection; {ctx}")
        res = env.cli("config", "show")
        c.check(not res.ok, f"shown: {res}; {ctx}")
    else:
        c.obs("loaded")
        c.eq(loaded(VariantConfiguration.get_config()), full(want), f"configuration; {ctx}")
        env.reset_caches()
        c.eq({k: getattr(VariantConfiguration, k) for k in full({})}, full(want), f"class attributes; {ctx}")
        # as it takes effect
        nss = [f"n{k}" for k in range(4)]
        doc = {"default-priorities": {"namespace": nss},
               "providers": {n: {"install-time": False} for n in nss},
               "static-properties": {n: {"f": ["v"]} for n in nss},
               "variants": {n: {n: {"f": ["v"]}} for n in nss}}
        mentioned = [n for n in full(want)["namespace_priorities"] if n in nss]
        c.eq(get_variants_by_priority(variants_json=doc), model.union(mentioned, nss) + ["null"],
             f"selection under the configuration; {ctx}")
        c.obs("applied")
        env.reset_caches()
        res = env.cli("config", "show")
        c.check(res.ok, f"not shown: {res}; {ctx}")
        c.obs("shown")
        shown = parse_shown(c, res.out, ctx)
        c.eq(normal(shown), normal(want), f"shown configuration {res.out}; {ctx}")
        # what was shown, used as the configuration
        locs["LOCAL"].write_text(res.out, encoding="utf8")
        env.reset_caches()
        c.eq(normal(loaded(VariantConfiguration.get_config())), normal(want), f"shown and read back {res.out}; {ctx}")
        if "LOCAL" in contents:
            locs["LOCAL"].write_bytes(contents["LOCAL"][0])
        else:
            locs["LOCAL"].unlink()
        env.reset_caches()
    for name in NAMES:
        res = env.cli("config", "show", name)
        if name not in contents:
            c.obs("shown_missing")
            c.check(not res.ok, f"missing {name} shown: {res}; {ctx}")
        elif not contents[name][2]:
            c.check(not res.ok, f"invalid {name} shown: {res}; {ctx}")
        else:
            c.obs("shown_environment")
            c.check(res.ok, f"{name} not shown: {res}; {ctx}")
            c.eq(normal(parse_shown(c, res.out, ctx)), normal(contents[name][1]), f"{name} shown {res.out}; {ctx}")
    res = env.cli("config", "list-paths")
    c.obs("listed")
    c.eq(res.out.splitlines(), [f"{n}: {p}" for n, p in locs.items()], f"paths listed; {ctx}")
    res = env.cli("config", "list-paths", "-v")
    c.obs("listed_verbose")
    lines = res.out.splitlines()
    c.eq(len(lines), 4, f"verbose paths {lines}; {ctx}")
    for line, (n, p) in zip(lines, locs.items()):
        c.check(line.startswith(f"{n}: {p} ("), f"verbose path of {n}: {line}; {ctx}")
        if n in contents:
            c.check(re.search(rf"\({len(contents[n][0])} bytes\b", line), f"size of {n}: {line}; {ctx}")
        else:
            c.check("not found" in line, f"missing {n}: {line}; {ctx}")
    c.eq(env.snapshot(c.tmp), before, f"files; {ctx}")
    c.sample({n: x[1] for n, x in contents.items()})


def parse_shown(c, text, ctx):
    try:
        got = tomllib.loads(text)
    except tomllib.TOMLDecodeError as e:
        c.fail(f"shown configuration is no valid TOML: {e}: {text}; {ctx}")
    c.check(valid(got), f"shown configuration {text}; {ctx}")
    return got


WORKLOADS = [Workload(effective, 1400, 24000)]
