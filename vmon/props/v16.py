"""V16 isolation and containment: audit events, process and file accounting around hostile plugins."""
import copy
import os
import pathlib
import subprocess
import sys
import tempfile

from vmon import env, gen, model
from vmon.core import Workload
from vmon.lib import VD, cfgs, read
from vmon.scenario import Scenario
from variantlib.api import check_variant_supported, get_variants_by_priority, validate_variant
from variantlib.errors import PluginError, ValidationError
from variantlib.plugins.loader import ListPluginLoader, PluginLoader

RULE = ("library operations over well-behaved, failing and noisy plugins in real interpreters; the "
        "calling process is watched through audit events, its modules, environment, descriptors, "
        "temporary directory and children; distinct by plugin behaviour and operation")
REQUIRED = ("operations", "plugin_processes", "audit_events", "contained_failures", "harmless_noise",
            "followups", "foreign_interpreters", "bare_environments", "decoys")

HEAD = '''
class _C:
    def __init__(self, name, values, multi_value=False):
        self.name, self.values, self.multi_value = name, values, multi_value
'''
GOOD = HEAD + '''
namespace = "hostile"
is_aot_plugin = True
def get_all_configs():
    return [_C("f", ["1", "2"]), _C("g", ["x"], True)]
def get_supported_configs():
    return [_C("f", ["2"])]
'''


def hook(where, code):
    """Plugin whose import or both queries run `code` first."""
    if where == "import":
        return code + "\n" + GOOD
    body = "\n".join("    " + x for x in code.splitlines())
    return (GOOD.replace("def get_all_configs():\n", f"def get_all_configs():\n{body}\n")
            .replace("def get_supported_configs():\n", f"def get_supported_configs():\n{body}\n"))


FAILING = {
    "raise": "raise ValueError('no')", "raise_base": "raise KeyboardInterrupt",
    "raise_unicode": "raise ValueError('\\udcff\\u2603')",
    "exit0": "import sys; sys.exit(0)", "exit3": "import sys; sys.exit(3)",
    "os_exit0": "import os; os._exit(0)", "os_exit1": "import os; os._exit(1)",
    "abort": "import os; os.abort()", "kill": "import os, signal; os.kill(os.getpid(), signal.SIGKILL)",
    "term": "import os, signal; os.kill(os.getpid(), signal.SIGTERM)",
    "recursion": "def r(): return r()\nr()",
    "missing_import": "import no_such_module_at_all",
    "spoof_exit": "import os, sys\n"
                  "sys.stdout.write('{\"namespaces\": {\"%s:\" % __name__: \"hostile\"}, "
                  "\"get_all_configs\": {}, \"get_supported_configs\": {}}')\n"
                  "sys.stdout.flush()\nos._exit(0)",
    "segv": "import os, signal; os.kill(os.getpid(), signal.SIGSEGV)",
}
NOISE = {
    "print": "print('hello')",
    "print_json": "print('{\"namespaces\": {\"x\": \"y\"}}')",
    "print_empty_json": "print('{}', flush=True)",
    "write1": "import os; os.write(1, b'{}\\xff\\n')",
    "stderr": "import sys; sys.stderr.write('x' * 200000); sys.stderr.flush()",
    "stderr_bytes": "import os; os.write(2, b'\\xff\\xfe\\x00bad')",
    "stdout_big": "import sys; sys.stdout.write('y' * 300000); sys.stdout.flush()",
    "child_output": "import subprocess; subprocess.run(['echo', '{}'])",
    "warn": "import warnings; warnings.warn('careful')",
    "atexit_out": "import atexit; atexit.register(lambda: print('{}'))",
    "chdir": "import os; os.chdir('/')",
    "environ": "import os; os.environ.clear()",
    "argv": "import sys; sys.argv[:] = ['x']",
    "stdin": "import sys; sys.stdin.read()",
    "tempfile": "import tempfile; tempfile.mkstemp(dir=DUMP)",
    "thread": "import threading; threading.Thread(target=lambda: print('{}')).start()",
    "logging": "import logging; logging.basicConfig(); logging.warning('w')",
    "syspath": "import sys; sys.path.insert(0, '/nonexistent')",
    "umask": "import os; os.umask(0o777)",
}
# replacements of the whole answer, each of which is an error for both queries
WRONG = {
    "none": "None", "str": "'abc'", "int": "5", "dict": "{'f': ['1']}", "tuple": "(_C('f', ['1']),)",
    "gen": "(_C('f', ['1']) for _ in range(1))", "list_none": "[None]", "list_str": "['f']",
    "list_dict": "[{'name': 'f', 'values': ['1'], 'multi_value': False}]",
    "mixed": "[_C('f', ['1']), 3]", "values_str": "[_C('f', 'abc')]", "values_none": "[_C('f', None)]",
    "values_int": "[_C('f', [1])]", "values_empty": "[_C('f', [])]", "values_dup": "[_C('f', ['1', '1'])]",
    "values_set": "[_C('f', {'1'})]", "values_dict": "[_C('f', {'1': 2})]",
    "values_bytes": "[_C('f', [b'1'])]", "values_bad": "[_C('f', ['A'])]", "values_nl": "[_C('f', ['a\\n'])]",
    "name_bad": "[_C('F', ['1'])]", "name_none": "[_C(None, ['1'])]", "name_int": "[_C(1, ['1'])]",
    "name_dup": "[_C('f', ['1']), _C('f', ['2'])]", "name_nl": "[_C('f\\n', ['1'])]",
    "name_list": "[_C(['f'], ['1'])]", "unserialisable": "[_C('f', [object()])]",
    "name_empty": "[_C('', ['1'])]", "value_empty": "[_C('f', [''])]",
    "missing_attr": "[type('X', (), {'name': 'f', 'values': ['1']})()]",
    "missing_values": "[type('X', (), {'name': 'f', 'multi_value': False})()]",
}
SHAPES = {
    "no_namespace": GOOD.replace('namespace = "hostile"', ""),
    "no_all": GOOD.replace("get_all_configs", "get_other"),
    "no_supported": GOOD.replace("get_supported_configs", "get_other"),
    "namespace_bad": GOOD.replace('"hostile"', '"Hostile"'),
    "namespace_none": GOOD.replace('"hostile"', "None"),
    "namespace_int": GOOD.replace('"hostile"', "7"),
    "namespace_list": GOOD.replace('"hostile"', "['hostile']"),
    "namespace_dict": GOOD.replace('"hostile"', "{'a': 1}"),
    "namespace_bytes": GOOD.replace('"hostile"', "b'hostile'"),
    "namespace_other": GOOD.replace('"hostile"', "'other'"),
    "not_callable": GOOD + "\nget_all_configs = 3\nget_supported_configs = 4\n",
    "wrong_arity": GOOD.replace("def get_all_configs()", "def get_all_configs(x)")
                       .replace("def get_supported_configs()", "def get_supported_configs(x)"),
    "syntax": "def x(:\n",
    "binary": "\x00\x01",
    "property_raises": HEAD + '''
class P:
    @property
    def namespace(self): raise RuntimeError("no")
    def get_all_configs(self): return [_C("f", ["1"])]
    def get_supported_configs(self): return [_C("f", ["1"])]
import sys
sys.modules[__name__] = P()
''',
}


class Watch:
    """Observes the calling process around an operation."""

    def __init__(self, c, mods):
        self.c, self.mods = c, set(mods)

    def __enter__(self):
        if self.c.rng.random() < 0.6:
            # settings that may come from outside, and that an operation has no business making
            for k in ("PYTHONDONTWRITEBYTECODE", "PYTHONHASHSEED", "PYTHONUNBUFFERED", "PYTHONIOENCODING", "PYTHONUTF8",
                      "PYTHONNOUSERSITE", "PYTHONSAFEPATH", "COLUMNS", "LANG", "PIP_NO_INDEX",
                      "PIP_DISABLE_PIP_VERSION_CHECK", "VIRTUAL_ENV"):
                os.environ.pop(k, None)
            os.environ["PYTHONPYCACHEPREFIX"] = str(self.c.tmp / "pyc")
            self.c.obs("bare_environments")
        self.tmpdir = pathlib.Path(tempfile.gettempdir())
        self.before = (dict(os.environ), os.getcwd(), list(sys.path), env.snapshot(self.tmpdir),
                       len(os.listdir("/proc/self/fd")), os.umask(0o022))
        os.umask(self.before[5])
        self.argv = list(sys.argv)
        self.audit = env.Audit()
        self.audit.__enter__()
        return self

    def __exit__(self, *exc):
        self.audit.__exit__(*exc)
        if exc[0] is not None:
            return
        c = self.c
        c.obs("audit_events", len(self.audit.events))
        for args in self.audit.of("import"):
            c.check(args[0] not in self.mods, "plugin module {} imported in the calling process", args[0])
        c.check(not (self.mods & set(sys.modules)), "plugin module present in the calling process")
        for args in self.audit.of("compile"):
            name = os.path.basename(str(args[1])) if len(args) > 1 else ""
            c.check(name.removesuffix(".py") not in self.mods, "plugin source compiled by the caller")
        um = os.umask(0o022)
        os.umask(um)
        after = (dict(os.environ), os.getcwd(), list(sys.path), env.snapshot(self.tmpdir),
                 len(os.listdir("/proc/self/fd")), um)
        for what, a, b in zip(("environment", "working directory", "sys.path", "temporary files",
                               "open descriptors", "umask"), self.before, after):
            c.check(a == b, "{} changed: {} -> {}", what, a, b)
        c.check(sys.argv == self.argv, "sys.argv changed")
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            c.fail(f"child process {pid} left behind")
        except ChildProcessError:
            c.obs("children_accounted")


def ops(c, info, opt=True):
    d = VD([("hostile", "f", "2"), ("good", "h", "v")])
    return {
        "validate": lambda: validate_variant(d, info).results,
        "check": lambda: check_variant_supported(vdesc=d, variant_info=info,
                                                 enable_optional_plugins=opt),
        "select": lambda: get_variants_by_priority(variants_json=info, enable_optional_plugins=opt),
        "supported": lambda: _load(info, "get_supported_configs"),
        "all": lambda: _load(info, "get_all_configs"),
    }


def _load(info, method):
    with PluginLoader(info, include_aot_plugins=True, enable_optional_plugins=True) as ld:
        return cfgs(getattr(ld, method)())


def right_answer(op):
    from variantlib.models.variant import VariantProperty
    return {
        "validate": {VariantProperty("hostile", "f", "2"): True, VariantProperty("good", "h", "v"): True},
        "check": True, "select": ["x", "null"],
        "supported": {"hostile": [("f", ["2"], False)], "good": [("h", ["v"], False)]},
        "all": {"hostile": [("f", ["1", "2"], False), ("g", ["x"], True)],
                "good": [("h", ["v", "w"], False)]},
    }[op]


def world(c):
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{c.rng.randrange(1 << 20):x}").activate()
    gm, gapi = w.add("good", [("h", ["v", "w"], False)], [("h", ["v"], False)],
                     style=c.rng.choice(env.STYLES), aot=True)
    return w, gm, gapi


def document(c, hapi, gapi, order=None):
    provs = {"hostile": {"requires": ["x"], "plugin-api": hapi},
             "good": {"requires": ["y"], "plugin-api": gapi}}
    if c.rng.random() < 0.5:
        provs = dict(reversed(provs.items()))
    return {"default-priorities": {"namespace": ["hostile", "good"]}, "providers": provs,
            "variants": {"x": {"hostile": {"f": ["2"]}, "good": {"h": ["v"]}}}}


def one(c, source, mode, what):
    rng = c.rng
    w, gm, gapi = world(c)
    dump = c.tmp / "dump"
    dump.mkdir()
    hm = w.add_source(f"DUMP = {str(dump)!r}\n" + source)
    info = read(document(c, hm, gapi), "index")
    good_info = read({"default-priorities": {"namespace": ["good"]},
                      "providers": {"good": {"requires": ["y"], "plugin-api": gapi}},
                      "variants": {}}, "index")
    op = rng.choice(["validate", "check", "select", "supported", "all"])
    c.distinct(what, op)
    with Watch(c, w.mods):
        for _ in range(2 if rng.random() < 0.3 else 1):
            c.obs("operations")
            try:
                got = ops(c, info)[op]()
            except (PluginError, ValidationError) as e:
                c.check(mode != "noise", "{} over a harmless plugin ({}) failed: {}", op, what, str(e))
                c.obs("contained_failures")
            except Exception as e:  # noqa: BLE001
                c.fail(f"{op} over plugin {what}: raised {type(e).__name__}: {e}")
            else:
                c.check(mode != "fail", "{} over plugin {} returned {}", op, what, got)
                c.eq(got, right_answer(op), f"{op} over plugin {what}")
                c.obs("harmless_noise")
    with Watch(c, w.mods):
        c.obs("followups")
        got = _load(good_info, "get_supported_configs")
        c.eq(got, {"good": [("h", ["v"], False)]}, f"good plugin after {what}")
        with ListPluginLoader([gapi]) as ld:
            c.eq(ld.namespaces, ["good"], f"good plugin listed after {what}")
    pids = {e[0] for e in w.events()}
    c.obs("plugin_processes", len(pids))
    c.check(os.getpid() not in pids, "plugin code ran in the calling process")


def failing(c):
    names = sorted(FAILING)
    name = names[c.i % len(names)]
    where = "import" if (c.i // len(names)) % 2 == 0 else "query"
    one(c, hook(where, FAILING[name]), "fail", f"{name} at {where}")


def noisy(c):
    names = sorted(NOISE)
    name = names[c.i % len(names)]
    where = "import" if (c.i // len(names)) % 2 == 0 else "query"
    one(c, hook(where, NOISE[name]), "noise", f"{name} at {where}")


def wrong(c):
    names = sorted(WRONG)
    name = names[c.i % len(names)]
    one(c, GOOD.replace('[_C("f", ["1", "2"]), _C("g", ["x"], True)]', WRONG[name])
        .replace('[_C("f", ["2"])]', WRONG[name]), "fail", f"answer {name}")


def shapes(c):
    names = sorted(SHAPES)
    name = names[c.i % len(names)]
    one(c, SHAPES[name], "fail", f"shape {name}")


def isolation(c):
    """Well-behaved scenarios, watched."""
    rng = c.rng
    sc = Scenario(c, max_ns=4, min_ns=1)
    info = read(copy.deepcopy(sc.doc), "index")
    d = VD(sc.space.desc())
    with Watch(c, sc.world.mods):
        c.obs("operations", 4)
        labels = get_variants_by_priority(variants_json=info, enable_optional_plugins=True)
        check_variant_supported(vdesc=d, variant_info=info, enable_optional_plugins=True)
        validate_variant(d, info)
        with PluginLoader(info, include_aot_plugins=True) as ld:
            ld.get_all_configs()
    c.eq(labels, sc.expected_labels(True), "selection")
    pids = {e[0] for e in sc.world.events()}
    c.obs("plugin_processes", len(pids))
    c.check(os.getpid() not in pids, "plugin code ran in the calling process")
    c.distinct("isolation", str(sc.doc))


VENVS = []


def prepare(scratch):
    for i in range(2):
        p = os.path.join(scratch, f"venv{i}")
        VENVS.append((p, env.make_venv(p)))


def interpreters(c):
    """Plugins installed in a bare environment without this library."""
    rng = c.rng
    prefix, py = VENVS[c.i % len(VENVS)]
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{rng.randrange(1 << 20):x}")
    os.environ.pop("PYTHONPATH", None)
    site = next(pathlib.Path(prefix).glob("lib/python*/site-packages"))
    sup = [("f", gen.some(rng, ["1", "2", "3"], lo=1), False)]
    src = ("import importlib.util\n"
           "_log('lib' if importlib.util.find_spec('variantlib') else 'nolib')\n"
           "_log('pkg' if importlib.util.find_spec('packaging') else 'nopkg')\n" + HEAD +
           "namespace = 'v'\nis_aot_plugin = True\n"
           "def get_all_configs():\n    return [_C('f', ['1', '2', '3'])]\n"
           f"def get_supported_configs():\n    return [_C('f', {sup[0][1]!r})]\n")
    mod = w.add_source(src)
    os.rename(w.dir / f"{mod}.py", site / f"{mod}.py")
    info = read({"default-priorities": {"namespace": ["v"]},
                 "providers": {"v": {"requires": ["x"], "plugin-api": mod}},
                 "variants": {"one": {"v": {"f": [sup[0][1][0]]}}, "zero": {"v": {"f": ["0"]}}}}, "index")
    try:
        with Watch(c, w.mods):
            c.obs("operations")
            arg = rng.choice([py, str(py)])
            got = get_variants_by_priority(variants_json=info, venv_python_executable=arg)
            c.eq(got, ["one", "null"], "selection with a foreign interpreter")
            res = validate_variant(VD([("v", "f", "3"), ("v", "f", "9")]), info, py)
            c.eq(sorted(res.results.values()), [False, True], "validation with a foreign interpreter")
            # not present in the calling interpreter
            c.raises(PluginError, lambda: get_variants_by_priority(variants_json=info),
                     "plugin absent from the calling interpreter")
    finally:
        (site / f"{mod}.py").unlink()
    evs = w.events()
    c.obs("foreign_interpreters")
    c.obs("plugin_processes", len({e[0] for e in evs}))
    c.check(evs and all(os.path.realpath(e[1]) == os.path.realpath(prefix) for e in evs),
            "plugin ran in another interpreter: {}", evs)
    c.check(not any(e[3] == "lib" for e in evs),
            "the library was importable in the bare interpreter: {}", evs)
    c.distinct("interp", c.i)
    # an interpreter that does not work
    bad = c.tmp / "badpython"
    bad.write_text("#!/bin/sh\n" + rng.choice(["exit 1", "exit 0", "echo '[]'; exit 2", "kill -9 $$"]) + "\n")
    bad.chmod(0o755)
    with Watch(c, w.mods):
        c.raises(PluginError, lambda: get_variants_by_priority(
            variants_json=info, venv_python_executable=bad), "broken interpreter")


DECOYS = ("json", "argparse", "dataclasses", "functools", "typing", "importlib", "inspect", "re", "enum",
          "collections", "abc", "loader", "variantlib", "_variantlib_protocols",
          "_variantlib_validators_base", "_variantlib_loader", "protocols", "packaging")


def surroundings(c):
    """Files of the current directory, and next to the plugin's, never replace or add modules."""
    rng = c.rng
    w = env.PluginWorld(c.tmp / "p", f"{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    helper = f"hlp_{w.tag}"
    src = ("try:\n    import " + helper + "\n    _log('stray helper')\nexcept ImportError:\n    pass\n"
           + rng.choice(["import json, re, typing\n", "import functools\n", ""]) + HEAD +
           "namespace = 's'\nis_aot_plugin = True\n"
           "def get_all_configs():\n    return [_C('f', ['1', '2'])]\n"
           "def get_supported_configs():\n    return [_C('f', ['2'])]\n")
    mod = w.add_source(src)
    absent = w.new_name()
    here = c.tmp / "cwd"
    here.mkdir()
    decoy = (f"import os\nfd = os.open({str(w.log)!r}, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)\n"
             "os.write(fd, ('[0, \"\", \"' + __name__ + '\", \"decoy\"]\\n').encode())\nos.close(fd)\n"
             "namespace = 's'\ndef get_all_configs():\n    return []\nget_supported_configs = get_all_configs\n")
    names = {mod, helper, absent, *gen.some(rng, list(DECOYS), lo=1)}
    for n in names:
        if rng.random() < 0.3:
            (here / n).mkdir()
            (here / n / "__init__.py").write_text(decoy)
        else:
            (here / f"{n}.py").write_text(decoy)
    os.chdir(here)
    info = read({"default-priorities": {"namespace": ["s"]},
                 "providers": {"s": {"requires": ["x"], "plugin-api": mod}},
                 "variants": {"one": {"s": {"f": ["2"]}}, "zero": {"s": {"f": ["1"]}}}}, "index")
    missing = read({"default-priorities": {"namespace": ["s"]},
                    "providers": {"s": {"requires": ["x"], "plugin-api": absent}}, "variants": {}}, "index")
    with Watch(c, w.mods):
        c.obs("operations", 3)
        c.eq(get_variants_by_priority(variants_json=info), ["one", "null"], "selection among decoys")
        c.eq(_load(info, "get_all_configs"), {"s": [("f", ["1", "2"], False)]}, "configurations among decoys")
        c.raises(PluginError, lambda: _load(missing, "get_supported_configs"),
                 "plugin found only in the current directory")
    evs = w.events()
    c.check(evs and all(e[3] != "decoy" for e in evs), "code of the current directory was run: {}", evs)
    c.check(all(e[3] != "stray helper" for e in evs), "module of the current directory was imported: {}", evs)
    c.obs("decoys", len(names))
    c.obs("plugin_processes", len({e[0] for e in evs}))
    c.distinct("surroundings", str(sorted(names)))


WORKLOADS = [Workload(isolation, 96, 1200), Workload(failing, 2 * len(FAILING), 24 * len(FAILING)),
             Workload(noisy, 2 * len(NOISE), 24 * len(NOISE)), Workload(wrong, len(WRONG), 16 * len(WRONG)),
             Workload(shapes, len(SHAPES), 16 * len(SHAPES)), Workload(interpreters, 32, 300),
             Workload(surroundings, 48, 400)]
