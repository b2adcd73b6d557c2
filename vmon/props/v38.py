"""V38 calls and commands, finished, refused or interrupted, leave the process as they found it."""
import contextlib
import copy
import decimal
import gc
import json
import locale
import logging
import os
import pathlib
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import warnings
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.lib import VD, VPs, cfgs, read
from vmon.scenario import Scenario
from variantlib.api import (
    check_variant_supported,
    get_variant_environment_dict,
    get_variants_by_priority,
    make_variant_dist_info,
    validate_variant,
)
from variantlib.configuration import VariantConfiguration
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.resolver.lib import sort_and_filter_supported_variants
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

RULE = ("random sequences of library calls and commands over random worlds (good, refused and failing ones, with plugins "
        "that answer, fail, crash or hang), a process monitor around each: descriptors, children, threads, temporary and "
        "other files, environment, directory, paths, signal handlers, hooks, standard streams, locale, warnings, random "
        "state, limits, unclosed files; the same calls interrupted at a random line of the library or by a signal while a "
        "plugin works; repeated many times while living objects are counted; importing any module in a fresh process; "
        "distinct by operation and outcome")
REQUIRED = ("calls", "finished", "failed", "plugin_calls", "commands", "commands_failed", "interrupted", "interrupted_deep",
            "signalled", "windows", "imports", "files_accounted", "objects_counted", "resource_warnings_watched")
HERE = {}


def prepare(scratch):
    import variantlib
    HERE["lib"] = os.path.dirname(os.path.realpath(variantlib.__file__)) + os.sep
    # compiled files of modules loaded while their writing is on
    sys.pycache_prefix = os.path.join(str(scratch), "pyc")
    gc.collect()


def descriptors():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
    return {k: v for k, v in out.items() if not v.startswith(f"/proc/{os.getpid()}/fd")}


def state():
    um = os.umask(0o022)
    os.umask(um)
    root = logging.getLogger()
    lib = logging.getLogger("variantlib")
    return {
        "environment": dict(os.environ), "directory": os.getcwd(), "sys.path": list(sys.path), "umask": um,
        "sys.argv": list(sys.argv), "signal handlers": [signal.getsignal(s) for s in signal.valid_signals()],
        "signal mask": signal.pthread_sigmask(signal.SIG_BLOCK, []), "timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "streams": [id(s) for s in (sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__)],
        "closed": [s.closed for s in (sys.stdin, sys.stdout, sys.stderr) if s],
        "hooks": [sys.excepthook, sys.unraisablehook, sys.displayhook, sys.breakpointhook, threading.excepthook,
                  list(sys.meta_path), list(sys.path_hooks), sys.getprofile()],
        "locale": locale.setlocale(locale.LC_ALL), "warnings": [list(map(str, f)) for f in warnings.filters],
        "warning hook": warnings.showwarning,
        "random state": hash(random.getstate()), "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(), "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "limits": [resource.getrlimit(getattr(resource, n)) for n in dir(resource) if n.startswith("RLIMIT_")],
        "temporary directory": tempfile.tempdir, "socket timeout": socket.getdefaulttimeout(),
        "bytecode": (sys.dont_write_bytecode, sys.pycache_prefix), "int digits": sys.get_int_max_str_digits(),
        "decimal context": str(decimal.getcontext()), "niceness": os.getpriority(os.PRIO_PROCESS, 0),
        "root logger": (root.level, [id(h) for h in root.handlers], logging.root.manager.disable, id(logging.getLoggerClass())),
        "logger": (lib.propagate, lib.disabled, len(lib.filters)),
        "prefix": (sys.prefix, sys.base_prefix, sys.executable),
        "user": (os.getuid(), os.getgid(), os.getpgrp(), os.getsid(0)),
    }


class Monitor:
    """Asserts that the process is the same afterwards. `outputs`: directories files may appear in."""

    def __init__(self, c, what, outputs=(), changes=()):
        self.c, self.what = c, what
        self.outputs = [str(o) for o in outputs]
        self.changes = {str(o) for o in changes}
        self.dirs = [c.tmp, os.environ["HOME"], tempfile.gettempdir(), os.getcwd()]

    def files(self):
        out = {}
        for d in self.dirs:
            d = os.path.realpath(d)
            for k, v in env.snapshot(d).items():
                p = os.path.join(d, k)
                if os.path.dirname(p) in self.outputs or p in self.changes or "__pycache__" in p or p == HERE.get("log"):
                    continue
                out[p] = v
        return out

    def made(self):
        return {os.path.join(o, n) for o in self.outputs for n in os.listdir(o)}

    def __enter__(self):
        HERE["log"] = str(getattr(self.c, "plugin_log", ""))
        # settings other than the usual, so that setting them to any fixed value shows
        r = self.c.rng
        self.usual = (sys.dont_write_bytecode, sys.getrecursionlimit(), sys.getswitchinterval(), os.umask(0o022))
        sys.dont_write_bytecode = r.random() < 0.5
        sys.setrecursionlimit(r.choice([900, 1000, 1003, 5000]))
        sys.setswitchinterval(r.choice([0.005, 0.0041, 0.02]))
        os.umask(r.choice([0o022, 0o027, 0o002]))
        self.before = state()
        self.f = self.files()
        self.o = self.made()
        self.d = descriptors()
        self.t = list(threading.enumerate())
        self.unclosed = []
        self.saved = (warnings.filters[:], warnings.showwarning)
        warnings.simplefilter("always", ResourceWarning)
        self.filters = [list(map(str, f)) for f in warnings.filters]
        warnings.showwarning = self.shown = lambda m, cat, *a, **k: (
            self.unclosed.append(str(m)) if issubclass(cat, ResourceWarning) else None)
        self.hook = sys.unraisablehook
        self.unraisable = []
        sys.unraisablehook = self.mine = lambda u: self.unraisable.append(f"{u.exc_value!r} in {u.object!r}")
        return self

    def __exit__(self, et, ev, tb):
        c, what = self.c, self.what
        hook, show, filters = sys.unraisablehook, warnings.showwarning, [list(map(str, f)) for f in warnings.filters]
        sys.unraisablehook = self.hook
        warnings.filters[:], warnings.showwarning = self.saved
        warnings._filters_mutated()
        after = state()
        sys.dont_write_bytecode = self.usual[0]
        sys.setrecursionlimit(self.usual[1])
        sys.setswitchinterval(self.usual[2])
        os.umask(self.usual[3])
        if et is not None:
            return
        c.check(hook is self.mine and show is self.shown, "hooks replaced by {}", what)
        c.eq(filters, self.filters, f"warning filters changed by {what}")
        for k, v in after.items():
            c.check(v == self.before[k], "{} changed by {}: {} -> {}", k, what, self.before[k], v)
        c.eq([t.name for t in threading.enumerate() if t not in self.t], [], f"threads left by {what}")
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pass
        else:
            c.fail(f"process {pid} left by {what}")
        c.eq(descriptors(), self.d, f"descriptors after {what}")
        c.obs("resource_warnings_watched")
        c.eq(self.unclosed, [], f"resources left for the collector by {what}")
        c.eq(self.unraisable, [], f"errors in finalizers after {what}")
        after = self.files()
        c.obs("files_accounted", len(after))
        c.eq({k: v for k, v in after.items() if self.f.get(k) != v}, {}, f"files left or changed by {what}")
        c.eq([k for k in self.f if k not in after], [], f"files removed by {what}")
        new = self.made() - self.o
        c.eq([n for n in new if not n.endswith((".whl", "-variants.json"))], [], f"other files next to the outputs of {what}")
        c.eq([n for n in self.o if not os.path.exists(n)], [], f"files removed next to the outputs of {what}")


# -- operations -----------------------------------------------------------------------------------
BROKEN = ["raise RuntimeError('no')", "import os; os._exit(3)", "import sys; sys.exit(2)", "raise KeyboardInterrupt",
          "import os, signal; os.kill(os.getpid(), signal.SIGKILL)", "import sys; sys.stdout.close()", "x = (",
          "import nowhere_to_be_found", "import os; os.close(1)", "import threading"]


def library(c, sc, plugins):
    """name -> (function, uses plugins)"""
    rng = c.rng
    parsed = VariantsJson(copy.deepcopy(sc.doc))
    common = {k: v for k, v in copy.deepcopy(sc.doc).items() if k != "variants"}
    d = VD(sc.space.desc(null=0.1))
    single = json.dumps({**sc.doc, "variants": {"lab": model.to_nested(sc.space.desc(null=0))}} if sc.space.tree else {})
    bad = [gen.corrupt(rng, sc.doc, rng.randint(1, 2)) for _ in range(2)]
    pp = c.tmp / "pp.toml"
    if rng.random() < 0.7:
        pp.write_text(rng.choice([wheels.toml({"variant": common}), "[variant\n", "variant = 3\n", ""]), encoding="utf8")
    opt = sc.optional_option()
    long = [("n", f"f{k % 7}", f"v{k}") for k in range(rng.choice([3, 300, 1200]))]
    apis = [p["api"] for p in sc.prov.values() if p["mod"]] + rng.choice([[], [], ["no.such.module"], ["os:path"]])

    def loader(cls, *args, **kw):
        with cls(*args, **kw) as ld:
            return cfgs(getattr(ld, rng.choice(["get_all_configs", "get_supported_configs"]))())

    ops = {
        "select": (lambda: get_variants_by_priority(variants_json=parsed, **sc.optional_kw(opt)), plugins),
        "select-document": (lambda: get_variants_by_priority(variants_json=copy.deepcopy(rng.choice([sc.doc, *bad]))), plugins),
        "check": (lambda: check_variant_supported(vdesc=d, variant_info=parsed), plugins),
        "validate": (lambda: validate_variant(d, parsed), plugins),
        "metadata": (lambda: make_variant_dist_info(d, parsed, rng.choice([None, "lab"]), rng.random() < 0.5), plugins),
        "loader": (lambda: loader(PluginLoader, parsed, include_aot_plugins=True, enable_optional_plugins=opt), plugins),
        "list-loader": (lambda: loader(ListPluginLoader, apis), plugins),
        "entry-points": (lambda: loader(EntryPointPluginLoader), plugins),
        "read-index": (lambda: VariantsJson(copy.deepcopy(rng.choice([sc.doc, *bad]))), False),
        "read-wheel": (lambda: VariantDistInfo(rng.choice([single, "{", "[]", b"\xff"]), rng.choice(["lab", None])), False),
        "read-settings": (lambda: VariantPyProjectToml.from_path(pp), False),
        "merge": (lambda: VariantsJson(copy.deepcopy(sc.doc)).merge(VariantDistInfo(single, "lab")), False),
        "write": (parsed.to_str, False),
        "markers": (lambda: get_variant_environment_dict(d), False),
        "environment": (VariantConfiguration.get_config, False),
        "hash": (lambda: VD(sc.space.desc()).hexdigest, False),
        "rank": (lambda: sort_and_filter_supported_variants([VD(long[:1]), VD(long[-1:]), VD([])], VPs(long), ["n"]), False),
    }
    return ops


def command(c, sc):
    """(arguments, directories of outputs, files that may change)"""
    rng = c.rng
    base = c.tmp / f"cmd{rng.randrange(1 << 30)}"
    src, out = base / "src", base / "out"
    src.mkdir(parents=True)
    out.mkdir()
    kind = rng.choice(["make", "make", "unmake", "generate", "add", "analyze", "hash", "platform", "plugins", "config", "update"])
    parts = wheels.name_parts(rng)
    doc, _ = gen.document(rng, "wheel")
    lab = next(iter(doc["variants"]))
    variant = wheels.make(rng, src, parts, lab, json.dumps(doc), simple=rng.random() < 0.5)
    fault = rng.choice([None, None, "missing", "truncated", "text", "nodoc", "baddoc", "crc"])
    if kind not in ("make", "unmake", "generate", "add", "analyze"):
        fault = None
    target = variant
    pt = base / "pyproject.toml"
    common = {k: v for k, v in copy.deepcopy(sc.doc).items() if k != "variants"}
    pt.write_text(rng.choice([wheels.toml({"project": {"name": "x"}, "variant": common}),
                              "[project]\nname = 'x'\n", "[variant\n", "variant = 1\n"]), encoding="utf8")
    if kind == "make":
        target = wheels.make(rng, src, wheels.name_parts(rng), simple=rng.random() < 0.5)
    if rng.random() < 0.2:      # members of the same name
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with zipfile.ZipFile(target, "a") as z:
                for k in range(2):
                    z.writestr("same/name.py", b"x = %d" % k)
                    z.writestr(z.namelist()[0], b"")
    if fault == "missing":
        target.unlink()
    elif fault == "truncated":
        b = target.read_bytes()
        target.write_bytes(b[:rng.randrange(len(b))])
    elif fault == "text":
        target.write_text("not an archive")
    elif fault == "crc":
        b = bytearray(target.read_bytes())
        for k in range(40, min(len(b), 400), 7):
            b[k] ^= 0x55
        target.write_bytes(bytes(b))
    elif fault in ("nodoc", "baddoc") and kind != "make":
        target.unlink()
        wheels.make(rng, src, parts, lab, None if fault == "nodoc" else rng.choice(["{", "[]", '{"variants": 3}']))
    if kind == "make":
        props = [":: ".join(p) for p in sc.space.desc(null=0.1)] + rng.choice([[], [], ["broken"]])
        args = ["make-variant", "-f", target, "-o", out, "--no-isolation", "--pyproject-toml", pt,
                *(["-p", *props] if props else ["--null-variant"])]
        if rng.random() < 0.6:
            args.append("--skip-plugin-validation")
        if rng.random() < 0.2:
            args += ["--variant-label", rng.choice(["lab", "UPPER", "x" * 17])]
    elif kind == "unmake":
        args = ["unmake-variant", "-f", target, "-o", out]
    elif kind == "generate":
        args = ["generate-index-json", "-d", src]
        if rng.random() < 0.2:
            (src / f"{parts[0]}-{parts[1]}-variants.json").mkdir()     # in the way of the index
        return args, [src], []
    elif kind == "add":
        args = ["add-wheel-to-index-json", "-f", target, "-o", out]
        if rng.random() < 0.4:
            i = base / "i.json"
            i.write_text(rng.choice(["{", "{}", json.dumps(doc), "[]"]))
            args += ["-i", i]
    elif kind == "analyze":
        args = ["analyze-wheel", "-i", target]
    elif kind == "hash":
        args = ["get-variant-hash", "-p", rng.choice(["a :: b :: c", "a :: b", ""])]
    elif kind == "platform":
        args = ["analyze-platform"]
    elif kind == "plugins":
        args = ["plugins", *rng.choice([["list"], ["get-configs"], ["get-configs", "-a"], ["get-configs", "-s"], ["bogus"]])]
    elif kind == "config":
        args = ["config", rng.choice(["show", "list-paths", "bogus"])]
    else:
        args = ["update-pyproject-toml", "-f", pt, *rng.choice([["-d", "a"], ["-a", "no-such-package"], [], ["-d", "nothing"]])]
        return args, [], [pt]
    return args, [out], []


def world(c, broken=0.3):
    rng = c.rng
    plugins = rng.random() < 0.5
    sc = Scenario(c, plugins=plugins, max_ns=3, min_ns=1, max_variants=4, config=rng.random() < 0.5)
    c.plugin_log = ""
    if plugins and rng.random() < broken:
        mods = [p["mod"] for p in sc.prov.values() if p["mod"]]
        for m in gen.some(rng, mods, lo=min(1, len(mods)), hi=1):
            p = sc.world.dir / f"{m}.py"
            p.write_text(p.read_text() + "\n" + rng.choice(BROKEN) + "\n")
    site = c.tmp / "site"
    site.mkdir()
    for i, p in enumerate(sc.prov.values()):
        if p["mod"] and rng.random() < 0.7:
            env.fake_dist(site, f"dist-{i}", "1", [(f"e{i}", p["api"].removesuffix(":"))])
    sys.path.insert(0, str(site))
    # what plugins write is theirs
    c.plugin_log = str(getattr(sc.world, "log", ""))
    return sc, plugins


def attempt(c, func):
    try:
        func()
        c.obs("finished")
        return "finished"
    except Exception as e:  # noqa: BLE001
        c.obs("failed")
        return type(e).__name__


def calls(c):
    rng = c.rng
    sc, plugins = world(c)
    ops = library(c, sc, plugins)
    for _ in range(6):
        name = rng.choice(list(ops))
        func, uses = ops[name]
        with Monitor(c, f"{name} on {json.dumps(sc.doc)}"):
            how = attempt(c, func)
        c.obs("calls")
        c.obs("plugin_calls", uses)
        c.distinct(name, how, len(sc.prov), json.dumps(sc.doc))
        sc.world.events()


def commands(c):
    rng = c.rng
    sc, _ = world(c)
    for _ in range(4):
        args, outs, changes = command(c, sc)
        with Monitor(c, f"{args}", outs, changes):
            res = env.cli(*args)
            res.exc = None if res.ok else type(res.exc).__name__
        c.obs("commands")
        c.obs("commands_failed", bool(res.exc))
        c.distinct(args[0], str(res.exc), res.out[:200])


def interrupted(c):
    """Stopped (Ctrl-C) at a random line of the library."""
    rng = c.rng
    sc, plugins = world(c, 0.1)
    ops = library(c, sc, plugins)
    if rng.random() < 0.45:
        args, outs, changes = command(c, sc)
        fault = rng.randint(1, rng.choice([30, 100, 300]))
        func, name = (lambda: env.cli(*args)), str(args)
    else:
        name = rng.choice(list(ops))
        func, outs, changes = ops[name][0], [], []
        fault = rng.randint(1, rng.choice([20, 100, 400]))
    lib = HERE["lib"]
    seen = []

    def local(frame, event, _):
        if event == "line":
            seen.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            if len(seen) == fault:
                raise KeyboardInterrupt
        return local

    def tracer(frame, event, _):
        if frame.f_code.co_filename.startswith(lib) and len(seen) < fault:
            return local
        return None

    class Stop(Exception):
        pass

    if True:
        with Monitor(c, f"{name}, interrupted at line event {fault}", outs, changes) as mon:
            sys.settrace(tracer)
            try:
                func()
                how = "finished"
            except KeyboardInterrupt:
                how = "interrupted"
                c.obs("interrupted")
                c.obs("interrupted_deep", fault > 30)
            except Exception as e:  # noqa: BLE001
                how = type(e).__name__
            finally:
                sys.settrace(None)
            mon.what += f" ({seen[-1:]}, {how})"
            gc.collect()
            # closing is left to the collector when interrupted
            mon.unclosed.clear()
        c.distinct(name.split("'")[0], seen[-1:], how)


SLOW = '''
import time as _t, os as _o
_n = {n!r}
_f = {f!r}
open(_f, "w").close()
_t.sleep({s})
'''


def signalled(c):
    """A signal's handler raises while a plugin process is at work."""
    rng = c.rng
    sc = Scenario(c, plugins=True, max_ns=2, min_ns=1, max_variants=3, kinds=["install"], optional=False, markers=False,
                  config=False)
    c.plugin_log = str(getattr(sc.world, "log", ""))
    mods = [p["mod"] for p in sc.prov.values() if p["mod"]]
    flag = c.tmp / "working"
    p = sc.world.dir / f"{rng.choice(mods)}.py"
    p.write_text(p.read_text() + SLOW.format(n=c.i, f=str(flag), s=30))
    parsed = VariantsJson(copy.deepcopy(sc.doc))
    flag.write_text("")
    d = VD(sc.space.desc(null=0))
    func = rng.choice([lambda: get_variants_by_priority(variants_json=parsed),
                       lambda: validate_variant(d, parsed) if False else check_variant_supported(vdesc=d, variant_info=parsed)])

    class Alarm(BaseException):
        pass

    def ring(*_):
        raise Alarm

    old = signal.signal(signal.SIGALRM, ring)
    try:
        with Monitor(c, f"a call interrupted by a signal; {json.dumps(sc.doc)}") as mon:
            signal.setitimer(signal.ITIMER_REAL, rng.choice([0.2, 0.5, 0.8]))
            try:
                func()
                how = "finished"
            except Alarm:
                how = "signalled"
                c.obs("signalled")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            mon.unclosed.clear()
        c.distinct(how, c.i)
    finally:
        signal.signal(signal.SIGALRM, old)


def census():
    gc.collect()
    n = {}
    for o in gc.get_objects():
        m = type(o).__module__
        if isinstance(m, str) and m.partition(".")[0] in ("variantlib", "zipfile", "tempfile", "subprocess", "_io"):
            k = f"{m}.{type(o).__qualname__}"
            n[k] = n.get(k, 0) + 1
    return n


def repeated(c):
    """The same calls over and over: living objects do not add up."""
    rng = c.rng
    sc, plugins = world(c, 0)
    ops = {k: v for k, v in library(c, sc, plugins).items()}
    name = rng.choice(list(ops))
    func, uses = ops[name]
    if rng.random() < 0.4:
        args, outs, changes = command(c, sc)
        func, name, uses = (lambda: env.cli(*args)), str(args), True
    times = 3 if uses else 25
    st = rng.getstate()
    counts, fds = [], []
    for w in range(4):
        for _ in range(times):
            rng.setstate(st)
            with contextlib.suppress(Exception):
                func()
        counts.append(census())
        fds.append(len(descriptors()))
        c.obs("windows")
        c.obs("objects_counted", sum(counts[-1].values()))
    c.distinct(name.split("'")[0], json.dumps(sc.doc))
    for k in counts[-1]:
        seq = [x.get(k, 0) for x in counts]
        c.check(not all(b - a >= times for a, b in zip(seq, seq[1:])),
                "living {} grow by {} per {} calls of {}", k, [b - a for a, b in zip(seq, seq[1:])], times, name)
    c.check(not all(b > a for a, b in zip(fds, fds[1:])), "descriptors grow with calls of {}: {}", name, fds)


CHILD = '''
import sys, os, json
sys.path.insert(0, {repo!r})
{pre}
def st():
    import signal, locale, warnings, threading, logging, tempfile, gc, random
    um = os.umask(0o22); os.umask(um)
    return dict(env=dict(os.environ), cwd=os.getcwd(), path=list(sys.path), umask=um, argv=list(sys.argv),
        signals=[str(signal.getsignal(s)) for s in signal.valid_signals()], locale=locale.setlocale(locale.LC_ALL),
        filters=len(warnings.filters), threads=threading.active_count(), root=[logging.root.level, len(logging.root.handlers)],
        tmp=tempfile.tempdir, gc=[gc.isenabled(), gc.get_threshold()], rec=sys.getrecursionlimit(),
        hooks=[sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__, len(sys.meta_path), len(sys.path_hooks)],
        streams=[sys.stdout is sys.__stdout__, sys.stderr is sys.__stderr__], fds=sorted(os.listdir("/proc/self/fd")))
import packaging.requirements, zipfile, subprocess, tomlkit, importlib.metadata, build.env, platformdirs, email.parser, tomllib, argparse
events = []
WATCH = ("subprocess.Popen", "os.system", "os.exec", "os.fork", "os.posix_spawn", "socket.connect", "os.mkdir", "os.remove",
         "os.rename", "os.putenv", "os.unsetenv", "os.chdir", "signal.pthread_kill", "os.kill", "tempfile.mkstemp", "tempfile.mkdtemp")
on = [False]
def hook(name, args):
    if not on[0]: return
    if name in WATCH: events.append([name, repr(args)[:200]])
    elif name == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and args[0] != os.devnull:
        events.append([name, repr(args)[:200]])
import importlib
b = st()
b = st()
sys.addaudithook(hook)
on[0] = True
for m in {mods!r}:
    importlib.import_module(m)
on[0] = False
a = st()
print("@@" + json.dumps([[k, b[k], a[k]] for k in a if a[k] != b[k]] + events))
'''


def imports(c):
    """Importing the library's modules, in any order, does nothing to the process."""
    rng = c.rng
    lib = pathlib.Path(HERE["lib"])
    mods = sorted(".".join(p.relative_to(lib.parent).with_suffix("").parts).removesuffix(".__init__")
                  for p in lib.rglob("*.py"))
    mods = [m for m in mods if not m.endswith("._subprocess") and not m.endswith("__main__")]
    mods = rng.choice([gen.shuffled(rng, mods), [rng.choice(mods)], gen.some(rng, mods, lo=1)])
    c.distinct(mods[0], len(mods))
    r = subprocess.run([sys.executable, "-c", CHILD.format(repo=env.REPO, mods=mods, pre="")], capture_output=True, text=True,
                       cwd=c.tmp, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, check=False)
    c.obs("imports", len(mods))
    c.check(r.returncode == 0, "importing {} fails: {}", mods, r.stderr)
    out = r.stdout.splitlines()
    c.eq(out[:-1], [], f"printed by importing {mods}")
    c.eq(r.stderr, "", f"error output of importing {mods}")
    c.eq(json.loads(out[-1].removeprefix("@@")), [], f"changes made by importing {mods}")


WORKLOADS = [Workload(calls, 130, 4000), Workload(commands, 160, 5000), Workload(interrupted, 260, 8000),
             Workload(signalled, 16, 160), Workload(repeated, 60, 1200), Workload(imports, 24, 300)]
