"""V19 loader life cycle: random call sequences against a two-state model."""
import importlib
import os
import sys

from vmon import env, gen
from vmon.core import Workload
from vmon.lib import cfgs, read
from variantlib.errors import NoPluginFoundError, PluginError, ValidationError
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader

RULE = ("random sequences of entering, leaving (normally or by an exception), querying, breaking and "
        "repairing plugins on the three loaders, each call's outcome predicted by a two-state model; "
        "distinct by loader and sequence")
REQUIRED = ("entered", "left", "failed_entries", "reentered", "queries_inside", "queries_outside",
            "double_enter", "leave_outside", "left_by_exception", "recovered")


class Boom(Exception):
    pass


def sequence(c):
    rng = c.rng
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    flag = c.tmp / "broken"
    plugs, data = [], {}
    n = rng.choice([0, 1, 1, 2, 3]) if c.i % 4 else 1
    for k in range(n):
        ns = f"n{k}"
        all_ = [("f", gen.distinct(rng, gen.val, 3), False)]
        sup = [("f", gen.some(rng, all_[0][1], lo=1), False)]
        mod, api = w.add(ns, all_, sup, style=rng.choice(env.STYLES))
        path = w.dir / f"{mod}.py"
        path.write_text(path.read_text().replace(
            '_log("import")', f'_log("import")\nif _os.path.exists({str(flag)!r}):\n'
            '    raise RuntimeError("broken")\n', 1))
        plugs.append((ns, api))
        data[ns] = (all_, sup)
    kind = rng.choice(["list", "info", "entry"])
    if kind == "list":
        ld = ListPluginLoader([a for _, a in plugs])
    elif kind == "info":
        info = read({"default-priorities": {"namespace": [n for n, _ in plugs]},
                     "providers": {n: {"requires": ["x"], "plugin-api": a} for n, a in plugs}}, "pyproject")
        ld = PluginLoader(info, include_aot_plugins=True)
    else:
        site = c.tmp / "site"
        site.mkdir()
        for i, (n_, a) in enumerate(plugs):
            env.fake_dist(site, f"d{i}", "1", [(f"e{i}", a)])
        # only the scratch distributions
        sys.path[:] = [str(site)] + [p for p in sys.path if "site-packages" not in p]
        importlib.invalidate_caches()
        ld = EntryPointPluginLoader()
    inside = False
    known = False       # namespaces were answered once (may be remembered)
    asked = set()
    seen_ns = None
    failed = False
    ever = False
    trace = []
    queries = ["namespaces", "plugin_api_values", "get_all_configs", "get_supported_configs"]
    if kind == "entry":
        queries.append("plugin_provider_packages")
    for _ in range(rng.randint(6, 16)):
        op = rng.choice(["enter", "enter", "leave", "leave_exc", "query", "query", "query", "break", "repair"])
        trace.append(op)
        ctx = f"{kind} with {len(plugs)} plugins: {trace}"
        broken = flag.exists() and bool(plugs)
        if op == "enter":
            if inside:
                c.obs("double_enter")
                c.raises(RuntimeError, ld.__enter__, f"entering twice; {ctx}")
                if rng.random() < 0.5:
                    c.eq(sorted(ld.namespaces), sorted(data), f"namespaces after a double entry; {ctx}")
            elif broken and not known:
                c.obs("failed_entries")
                failed = True
                c.raises(PluginError, ld.__enter__, f"entering with a broken plugin; {ctx}")
            elif broken:
                # may be answered from memory, or fail
                try:
                    ld.__enter__()
                    inside = True
                except PluginError:
                    c.obs("failed_entries")
                    failed = True
            else:
                r = ld.__enter__()
                c.check(r is ld, "entering returned something else; {}", ctx)
                c.obs("entered")
                if failed:
                    c.obs("recovered")
                if ever:
                    c.obs("reentered")
                inside = known = ever = True
                failed = False
            if inside:
                seen_ns = list(ld.namespaces)
        elif op in ("leave", "leave_exc"):
            exc = (None, None, None)
            if op == "leave_exc":
                b = Boom()
                exc = (Boom, b, None)
            if inside:
                r = ld.__exit__(*exc)
                c.check(not r, "leaving suppresses exceptions; {}", ctx)
                c.obs("left")
                if op == "leave_exc":
                    c.obs("left_by_exception")
                inside = False
            else:
                c.obs("leave_outside")
                c.raises(RuntimeError, lambda: ld.__exit__(None, None, None), f"leaving outside; {ctx}")
        elif op == "query":
            q = rng.choice(queries)
            trace[-1] = q

            def ask():
                r = getattr(ld, q)
                return r() if callable(r) else r
            if not inside:
                c.obs("queries_outside")
                c.raises(NoPluginFoundError, ask, f"query outside; {ctx}")
                continue
            c.obs("queries_inside")
            if q.startswith("get_"):
                i = 0 if q == "get_all_configs" else 1
                want = {n_: d[i] for n_, d in data.items()}
                if broken:
                    try:
                        got = cfgs(ask())
                    except PluginError:
                        continue
                    c.eq(got, want, f"{q}; {ctx}")
                else:
                    c.eq(cfgs(ask()), want, f"{q}; {ctx}")
                    c.eq(cfgs(ask()), want, f"repeated {q}; {ctx}")
                    asked.add(q)
            elif q == "namespaces":
                c.eq(list(ask()), seen_ns, f"namespaces within one entry; {ctx}")
                c.eq(sorted(ask()), sorted(data), f"namespaces; {ctx}")
            elif q == "plugin_api_values":
                c.eq({n_: a.rstrip(":") for n_, a in ask().items()}, dict(plugs), f"references; {ctx}")
            else:
                c.eq({a: d.name for a, d in ask().items()},
                     {a: f"d{i}" for i, (_, a) in enumerate(plugs)}, f"packages; {ctx}")
        elif op == "break":
            flag.write_text("")
        else:
            flag.unlink(missing_ok=True)
    c.distinct(kind, len(plugs), str(trace))
    c.sample({"loader": kind, "trace": trace})


def context(c):
    """Through the with statement, with exceptions and failing entries in between."""
    rng = c.rng
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    _, api = w.add("n", [("f", ["1"], False)], [("f", ["1"], False)])
    ld = ListPluginLoader([api])
    for _ in range(rng.randint(1, 4)):
        mode = rng.randrange(3)
        if mode == 0:
            with ld:
                c.eq(ld.namespaces, ["n"], "namespaces")
        elif mode == 1:
            e = c.raises(Boom, lambda: _boom(ld), "exception inside")
            c.check(isinstance(e, Boom), "another exception")
            c.obs("left_by_exception")
        else:
            bad = ListPluginLoader([api, api + "_missing" if ":" not in api else "nope_zz"])
            c.raises((PluginError, ValidationError), bad.__enter__, "missing plugin")
            c.raises(NoPluginFoundError, lambda: bad.namespaces, "query after failed entry")
            c.raises(RuntimeError, lambda: bad.__exit__(None, None, None), "leaving after failed entry")
        c.raises(NoPluginFoundError, lambda: ld.namespaces, "query after leaving")
    # a foreign namespace fails the entry as well
    info = read({"default-priorities": {"namespace": ["m"]},
                 "providers": {"m": {"requires": ["x"], "plugin-api": api}}}, "pyproject")
    pl = PluginLoader(info, include_aot_plugins=True)
    for _ in range(2):
        c.raises((PluginError, ValidationError, RuntimeError), pl.__enter__, "foreign namespace")
        c.obs("failed_entries")
        c.raises(NoPluginFoundError, lambda: pl.namespaces, "query after failed entry")
        c.raises(RuntimeError, lambda: pl.__exit__(None, None, None), "leaving after failed entry")
    c.distinct("context", c.i)


def _boom(ld):
    with ld:
        ld.get_supported_configs()
        raise Boom


WORKLOADS = [Workload(sequence, 720, 6000), Workload(context, 96, 600)]
