"""V17 relayed configurations equal what the plugin process returned; invalid answers refused."""
import json
import os
import sys

from vmon import env, gen, model
from vmon.core import Workload
from vmon.lib import cfgs, read
from variantlib.errors import NoPluginFoundError, PluginError, ValidationError
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader

RULE = ("random plugin answers (valid, and invalid in one place) relayed by all three loaders from real "
        "plugin processes; the relayed configurations are compared item by item with the plugin's own "
        "data; malformed and dangling references; distinct by answer")
REQUIRED = ("relayed", "invalid_answers", "empty_supported", "empty_all", "duplicates",
            "foreign_namespace", "bad_references", "require_fixed", "ordinary_names")


ORDINARY = ("loader", "loaders", "plugins", "plugin", "base", "protocols", "utils", "main", "api", "models",
            "validators", "errors", "constants", "commands", "configuration", "variant", "py_envs",
            "resolver", "subprocesses", "script", "runner")


def answer(rng, big=False):
    feats = gen.distinct(rng, gen.feat, rng.randint(1, 6))
    out = []
    for f in feats:
        vs = gen.distinct(rng, gen.val, rng.randint(1, 8))
        if big and rng.random() < 0.5:
            vs = gen.shuffled(rng, [f"v{i}" for i in range(rng.choice([50, 400]))])
        out.append((f, vs, rng.random() < 0.5))
    return out


def world(c):
    return env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{c.rng.randrange(1 << 20):x}").activate()


def loader(c, w, plugs):
    """A loader over [(ns, api)], of a random kind."""
    rng = c.rng
    kind = rng.randrange(3)
    if kind == 0:
        return ListPluginLoader([a.replace(":", rng.choice([":", " : "])) for _, a in plugs]), "list"
    if kind == 1:
        doc = {"default-priorities": {"namespace": [n for n, _ in plugs]},
               "providers": {n: {"requires": ["x"], "plugin-api": a} for n, a in plugs}}
        return PluginLoader(read(doc, "pyproject"), include_aot_plugins=True), "info"
    site = c.tmp / f"site{rng.randrange(1 << 20)}"
    for i, (n, a) in enumerate(plugs):
        env.fake_dist(site, f"plugdist{i}", "1.0", [(f"e{i}", a)])
    sys.path[:] = [str(site)] + [p for p in sys.path if not p.startswith(str(c.tmp))]
    import importlib
    importlib.invalidate_caches()
    return EntryPointPluginLoader(), "entry"


def relay(c):
    rng = c.rng
    w = world(c)
    plugs, data = [], {}
    for n in gen.distinct(rng, gen.ns, rng.randint(1, 4)):
        a, s = answer(rng, big=True), answer(rng, big=True)
        if rng.random() < 0.2:
            s = []
            c.obs("empty_supported")
        name = None
        if rng.random() < 0.3:
            # ordinary module names, which the library's own modules have too
            name = rng.choice([x for x in ORDINARY if x not in w.mods] or [None])
            if name:
                c.obs("ordinary_names")
        _, api = w.add(n, a, s, style=rng.choice(env.STYLES), kind=rng.randrange(3),
                       aot=rng.choice([None, True, False]), name=name)
        plugs.append((n, api))
        data[n] = (a, s)
    ld, kind = loader(c, w, plugs)
    with ld:
        names = list(ld.namespaces)
        if kind == "entry":
            names = [n for n in names if n in data]   # plugins of the real environment
        c.eq(sorted(names), sorted(data), f"namespaces by {kind}")
        if kind != "entry":
            c.eq(names, [n for n, _ in plugs], "order of namespaces")
        vals = ld.plugin_api_values
        for n, a in plugs:
            c.eq(vals[n].replace(" ", "").removesuffix(":"), a, f"reference of {n}")
        for i, m in ((0, "get_all_configs"), (1, "get_supported_configs")):
            for _ in range(2):
                got = {n: v for n, v in cfgs(getattr(ld, m)()).items() if n in data}
                want = {n: [tuple(x) for x in d[i]] for n, d in data.items() if d[i]}
                c.obs("relayed", len(want))
                c.eq(got, want, f"{m} by {kind}")
                for n, pc in getattr(ld, m)().items():
                    c.eq(pc.namespace, n, "namespace of configurations")
        if kind == "entry":
            c.check({a for _, a in plugs} <= set(ld.plugin_provider_packages), "packages by entry point")
            for i, (n, a) in enumerate(plugs):
                c.eq(ld.plugin_provider_packages[a].name, f"plugdist{i}", "package of a plugin")
    c.distinct(kind, json.dumps(data))
    c.sample({"loader": kind, "plugins": plugs[:2]})


def invalid(c):
    rng = c.rng
    w = world(c)
    good = answer(rng)
    bad = [list(x) for x in answer(rng)]
    k = rng.randrange(len(bad))
    op = rng.randrange(6)
    junk = rng.choice([x for x in gen.BAD_STRINGS if not model.is_value(x)])
    if op == 0:
        bad[k][0] = rng.choice([x for x in gen.BAD_STRINGS if not model.is_name(x)])
    elif op == 1:
        bad[k][1] = list(bad[k][1])
        bad[k][1].insert(rng.randint(0, len(bad[k][1])), junk)
    elif op == 2:
        bad[k][1] = bad[k][1] + [rng.choice(bad[k][1])]
    elif op == 3:
        bad[k][1] = []
    elif op == 4:
        bad.insert(rng.randint(0, len(bad)), [bad[k][0], ["other"], True])
    else:
        bad[k][rng.choice([0, 1])] = rng.choice([None, 3, {"a": "b"}, "x y", [1], [None], [["a"]]])
    _, api = w.add("n", bad, good, kind=rng.randrange(3), style=rng.choice(env.STYLES))
    _, api2 = w.add("m", good, bad, kind=rng.randrange(3), style=rng.choice(env.STYLES))
    c.distinct(json.dumps(bad))
    for a, n, fails, works in ((api, "n", "get_all_configs", "get_supported_configs"),
                               (api2, "m", "get_supported_configs", "get_all_configs")):
        ld, kind = loader(c, w, [(n, a)])
        with ld:
            c.obs("invalid_answers")
            c.raises((ValidationError, PluginError), getattr(ld, fails), f"{fails} returning {bad}")
            c.eq(cfgs(getattr(ld, works)())[n], [tuple(x) for x in good], "the valid answer")
            c.raises((ValidationError, PluginError), getattr(ld, fails), f"repeated {fails}")


def empty(c):
    rng = c.rng
    w = world(c)
    good = answer(rng)
    _, api = w.add("n", [], good, style=rng.choice(env.STYLES))
    _, api2 = w.add("m", good, [], style=rng.choice(env.STYLES))
    plugs = gen.shuffled(rng, [("n", api), ("m", api2)])
    ld, kind = loader(c, w, plugs)
    with ld:
        c.obs("empty_all")
        c.obs("empty_supported")
        c.raises(PluginError, ld.get_all_configs, "an empty list of all configurations")
        got = {n: v for n, v in cfgs(ld.get_supported_configs()).items() if n in "nm"}
        c.eq(got, {"n": good}, "supported configurations")
    c.distinct(json.dumps(good))


def conflicts(c):
    rng = c.rng
    w = world(c)
    good = answer(rng)
    # two plugins, one namespace
    apis = [("n", w.add("n", good, good, style=rng.choice(env.STYLES))[1]) for _ in range(2)]
    extra = w.add("k", good, good)[1]
    lst = [a for _, a in apis]
    lst.insert(rng.randint(0, 2), extra)
    c.obs("duplicates")
    ld = ListPluginLoader(lst)
    c.raises((RuntimeError, PluginError, ValidationError), ld.__enter__, "two plugins for one namespace")
    c.raises(NoPluginFoundError, ld.get_supported_configs, "query after the failed entry")
    # a namespace other than the listed one
    other = rng.choice(["k", "n_", "nn", "abi_dependency", "b"])
    doc = {"default-priorities": {"namespace": ["n", "b"]},
           "providers": {"n": {"requires": ["x"], "plugin-api": w.add(other, good, good)[1]},
                         "b": {"requires": ["x"], "plugin-api": w.add("n", good, good)[1]}}}
    if rng.random() < 0.5:
        del doc["providers"]["b"]
        doc["default-priorities"]["namespace"] = ["n"]
    c.obs("foreign_namespace")
    ld = PluginLoader(read(doc, "pyproject"), include_aot_plugins=True)
    c.raises((PluginError, ValidationError, RuntimeError), ld.__enter__,
             f"a plugin for {other} listed under n: {doc}")
    c.distinct(str(lst), other)


def references(c):
    rng = c.rng
    w = world(c)
    good = answer(rng)
    name, api = w.add("n", good, good, style=rng.choice(env.STYLES))
    bad = rng.choice(["", " ", "a b", f"{name} x", f"{name}:a:b", f"{name}:", f":{name}", f"{name}-x",
                      f"{name}:a b", f"{name}:!", f"{name}\n", f" {name}", f"{name}:x/y", "-c",
                      f"{name}:no_such", f"{name}_missing", f"{name}.no_such", f"{name}:_DATA.no_such",
                      "no_such_module_zz:x", f"{name}:_log", f"{name}:_DATA"])
    lst = [bad]
    if rng.random() < 0.6:
        lst.insert(rng.randint(0, 1), api)
    c.obs("bad_references")
    c.distinct(bad, len(lst))
    ld = ListPluginLoader(lst)
    c.raises((PluginError, ValidationError), ld.__enter__, f"plugins {lst}")
    if bad.strip() and "\n" not in bad:
        try:
            info = read({"default-priorities": {"namespace": ["n"]},
                         "providers": {"n": {"requires": ["x"], "plugin-api": bad}}}, "pyproject")
        except ValidationError:
            return
        c.raises((PluginError, ValidationError),
                 PluginLoader(info, include_aot_plugins=True).__enter__, f"plugin-api {bad!r}")


def fixed(c):
    """require_fixed succeeds exactly when every plugin declares itself ahead-of-time safe."""
    rng = c.rng
    w = world(c)
    flags = {}
    plugs = []
    for n in ("n", "m", "k")[:rng.randint(1, 3)]:
        flags[n] = rng.choice([True, True, False, None])
        plugs.append((n, w.add(n, [("f", ["1"], False)], [("f", ["1"], False)], aot=flags[n],
                               style=rng.choice(env.STYLES))[1]))
    ld = ListPluginLoader([a for _, a in plugs])
    c.obs("require_fixed")
    c.distinct(str(flags))
    with ld:
        if rng.random() < 0.5:
            ld.get_supported_configs()
        if all(flags.values()):
            c.eq(cfgs(ld.get_supported_configs(require_fixed=True)),
                 {n: [("f", ["1"], False)] for n in flags}, "fixed configurations")
        else:
            c.raises(PluginError, lambda: ld.get_supported_configs(require_fixed=True),
                     f"require_fixed with {flags}")
        c.eq(cfgs(ld.get_supported_configs()), {n: [("f", ["1"], False)] for n in flags},
             "plain configurations")


WORKLOADS = [Workload(relay, 240, 3000), Workload(invalid, 240, 3000), Workload(empty, 48, 400),
             Workload(conflicts, 80, 800), Workload(references, 160, 1600), Workload(fixed, 80, 800)]
