"""Execution environment of the monitored code: isolation, audit events, plugins, CLI."""
from __future__ import annotations

import contextlib
import hashlib
import importlib
import io
import json
import logging
import os
import pathlib
import subprocess
import sys
import tempfile
import threading

REPO = "/repo"
_STATE = {}


def setup_process(scratch_root, repo):
    home = os.path.join(scratch_root, "home")
    os.makedirs(home, exist_ok=True)
    os.makedirs(os.path.join(scratch_root, "cwd"), exist_ok=True)
    os.environ.update({
        "HOME": home,
        "XDG_CONFIG_HOME": os.path.join(home, "xdg"),
        "XDG_CONFIG_DIRS": os.path.join(home, "xdg-global"),
        "XDG_CACHE_HOME": os.path.join(home, "cache"),
        "LANG": "C.UTF-8",
        "PIP_NO_INDEX": "1",
        "PIP_DISABLE_PIP_VERSION_CHECK": "1",
        "COLUMNS": "200",
    })
    os.chdir(os.path.join(scratch_root, "cwd"))
    import variantlib
    where = os.path.realpath(variantlib.__file__)
    if not where.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"variantlib comes from {where}, not {repo}")
    lg = logging.getLogger("variantlib")
    lg.propagate = False
    lg.addHandler(logging.NullHandler())
    lg.setLevel(logging.WARNING)
    _STATE["main_pid"] = os.getpid()
    remember_state()


def setup_worker(scratch):
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp, exist_ok=True)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    _STATE["scratch"] = scratch


def teardown():
    with contextlib.suppress(OSError):
        os.chdir("/")


def _library_modules():
    import pkgutil
    import variantlib
    names = ["variantlib"] + [m.name for m in pkgutil.walk_packages(variantlib.__path__, "variantlib.")
                              if not m.name.endswith("__main__")]
    for n in names:
        with contextlib.suppress(Exception):
            importlib.import_module(n)
    return [sys.modules[n] for n in sorted(sys.modules)
            if (n == "variantlib" or n.startswith("variantlib.")) and sys.modules[n] is not None]


_CONTAINERS = (dict, list, set)
_PRISTINE = []


def _own_classes(mod):
    return [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == mod.__name__]


def remember_state():
    """Process-wide state of the library as it is right after importing it, whatever its names."""
    _PRISTINE.clear()
    for mod in _library_modules():
        for holder in [mod, *_own_classes(mod)]:
            attrs = {k: v for k, v in vars(holder).items() if not k.startswith("__")}
            copies = {k: (v.copy() if isinstance(v, _CONTAINERS) and type(v).__module__ in
                          ("builtins", "collections") else None) for k, v in attrs.items()}
            _PRISTINE.append((holder, attrs, copies))


def reset_caches():
    """Forget process-wide state (fresh-process behaviour, whatever the state is called)."""
    if not _PRISTINE:
        remember_state()
    for holder, attrs, copies in _PRISTINE:
        now = vars(holder)
        for k in [k for k in now if not k.startswith("__") and k not in attrs]:
            if not isinstance(now[k], type(sys)):     # submodules
                with contextlib.suppress(Exception):
                    delattr(holder, k)
        for k, v in attrs.items():
            if k not in now or now[k] is not v:
                with contextlib.suppress(Exception):
                    setattr(holder, k, v)
            if copies[k] is not None and v != copies[k]:
                with contextlib.suppress(Exception):
                    v.clear()
                    v.extend(copies[k]) if isinstance(v, list) else v.update(copies[k])
            f = getattr(v, "__func__", v)
            if hasattr(f, "cache_clear"):
                with contextlib.suppress(Exception):
                    f.cache_clear()


@contextlib.contextmanager
def case_guard():
    """Undo everything a case did to the process."""
    environ = dict(os.environ)
    cwd = os.getcwd()
    path = list(sys.path)
    prefix, base_prefix = sys.prefix, sys.base_prefix
    lg = logging.getLogger("variantlib")
    handlers, level = list(lg.handlers), lg.level
    reset_caches()
    importlib.invalidate_caches()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.environ.clear()
        os.environ.update(environ)
        os.chdir(cwd)
        sys.path[:] = path
        sys.prefix, sys.base_prefix = prefix, base_prefix
        lg.handlers[:] = handlers
        lg.setLevel(level)
        reset_caches()


# ---------------------------------------------------------------------------
# Audit events of the calling process
class Audit:
    """Records audit events while active (also from other threads)."""

    _installed = False
    _active = []

    KINDS = {"import", "open", "os.remove", "os.rename", "os.rmdir", "os.mkdir",
             "subprocess.Popen", "os.truncate", "os.chmod", "os.link", "os.symlink",
             "shutil.rmtree", "tempfile.mkdtemp", "exec", "compile"}

    def __init__(self):
        self.events = []

    @classmethod
    def _hook(cls, name, args):
        if cls._active and name in cls.KINDS:
            for a in list(cls._active):
                a.events.append((name, args))

    def __enter__(self):
        if not Audit._installed:
            sys.addaudithook(Audit._hook)
            Audit._installed = True
        Audit._active.append(self)
        return self

    def __exit__(self, *exc):
        Audit._active.remove(self)

    def of(self, kind):
        return [a for n, a in self.events if n == kind]

    def written_paths(self):
        out = []
        for name, args in self.events:
            if name == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
                mode, flags = args[1], args[2]
                if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                        isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)):
                    out.append(os.fsdecode(args[0]))
            elif name in ("os.remove", "os.rmdir") and args[1] != -1:
                pass       # relative to an open directory: within a tree being removed
            elif name in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod"):
                out.append(os.fsdecode(args[0]) if not isinstance(args[0], int) else "")
            elif name == "os.rename":
                out += [os.fsdecode(args[0]), os.fsdecode(args[1])]
        return out


# ---------------------------------------------------------------------------
def snapshot(*dirs):
    """relative path -> (kind, digest) of everything below the directories."""
    out = {}
    for d in dirs:
        d = pathlib.Path(d)
        for root, dn, fn in os.walk(d):
            for n in dn:
                p = os.path.join(root, n)
                out[os.path.relpath(p, d)] = ("dir", None)
            for n in fn:
                p = os.path.join(root, n)
                if os.path.islink(p) and not os.path.exists(p):
                    out[os.path.relpath(p, d)] = ("link", os.readlink(p))
                    continue
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = ("file", hashlib.sha256(f.read()).hexdigest())
    return out


# ---------------------------------------------------------------------------
class Outcome:
    def __init__(self, exc, value, out, err, logs):
        self.exc, self.value, self.out, self.err, self.logs = exc, value, out, err, logs

    @property
    def ok(self):
        return self.exc is None or (isinstance(self.exc, SystemExit)
                                    and self.exc.code in (0, None))

    def __repr__(self):
        return (f"Outcome(exc={type(self.exc).__name__ if self.exc else None}: "
                f"{str(self.exc)[:300]!r}, out={self.out[-300:]!r}, err={self.err[-600:]!r})")


class _ListHandler(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        try:
            self.records.append((record.levelname, record.getMessage()))
        except Exception as e:  # noqa: BLE001
            self.records.append(("BROKEN", f"{record.msg!r} {record.args!r}: {e!r}"))


@contextlib.contextmanager
def captured_logs(level=logging.INFO):
    lg = logging.getLogger("variantlib")
    h = _ListHandler()
    old = (list(lg.handlers), lg.level)
    lg.addHandler(h)
    lg.setLevel(level)
    try:
        yield h.records
    finally:
        lg.handlers[:] = old[0]
        lg.setLevel(old[1])


def cli(*args):
    """Run the command line interface in this process."""
    from variantlib.commands.main import main
    out, err = io.StringIO(), io.StringIO()
    exc = value = None
    with captured_logs() as logs, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            value = main([str(a) for a in args])
        except (Exception, SystemExit) as e:  # noqa: BLE001
            exc = e
    return Outcome(exc, value, out.getvalue(), err.getvalue(), logs)


# ---------------------------------------------------------------------------
PLUGIN_TEMPLATE = '''\
import json as _json, os as _os, sys as _sys
from collections import namedtuple as _nt
from dataclasses import dataclass as _dc
_DATA = _json.loads({data!r})
_LOG = {log!r}
_NAME = {name!r}


def _log(ev):
    fd = _os.open(_LOG, _os.O_WRONLY | _os.O_APPEND | _os.O_CREAT, 0o644)
    _os.write(fd, (_json.dumps([_os.getpid(), _sys.prefix, _NAME, ev]) + "\\n").encode())
    _os.close(fd)


_log("import")


class _Plain:
    def __init__(self, name, values, multi_value):
        self.name = name
        self.values = values
        self.multi_value = multi_value


@_dc(frozen=True)
class _Data:
    name: str
    values: list
    multi_value: bool


_Tup = _nt("_Tup", "name values multi_value")
_KIND = [_Plain, _Data, _Tup][_DATA["kind"] % 3]


def _configs(which):
    _log(which)
    return [_KIND(*f) for f in _DATA[which]]

{body}
'''

STYLES = ("module", "class", "static", "instance", "nested")


def _style_body(style, ns, aot):
    aot_line = f"is_aot_plugin = {aot}" if aot is not None else "pass"
    if style == "module":
        return (f"namespace = {ns!r}\n{aot_line}\n"
                "def get_all_configs():\n    return _configs('get_all_configs')\n"
                "def get_supported_configs():\n    return _configs('get_supported_configs')\n"), ""
    deco, self_ = {"class": ("@classmethod", "cls"), "static": ("@staticmethod", ""),
                   "instance": ("", "self"), "nested": ("", "self")}[style]
    body = (f"class Plug:\n    namespace = {ns!r}\n    {aot_line}\n"
            f"    {deco}\n    def get_all_configs({self_}):\n"
            "        return _configs('get_all_configs')\n"
            f"    {deco}\n    def get_supported_configs({self_}):\n"
            "        return _configs('get_supported_configs')\n")
    if style in ("class", "static"):
        return body, "Plug"
    if style == "instance":
        return body + "the_plugin = Plug()\n", "the_plugin"
    return body + "class holder:\n    class inner:\n        obj = Plug()\n", "holder.inner.obj"


class PluginWorld:
    """Plugin modules written to a scratch directory, with an event log."""

    def __init__(self, directory, tag):
        self.dir = pathlib.Path(directory)
        self.dir.mkdir(parents=True, exist_ok=True)
        self.log = self.dir / "events.log"
        self.tag = tag
        self.mods = {}
        self.n = 0

    def activate(self):
        os.environ["PYTHONPATH"] = str(self.dir)
        return self

    def new_name(self):
        self.n += 1
        return f"{'plg' if self.n % 3 else 'PlgIn'}_{self.tag}_{self.n}"

    def add(self, ns, all_, supported, style="module", aot=None, name=None, kind=0):
        """Configs: lists of (feature name, values, multi_value). Returns (module, plugin_api)."""
        name = name or self.new_name()
        body, attr = _style_body(style, ns, aot)
        data = json.dumps({"get_all_configs": all_, "get_supported_configs": supported,
                           "kind": kind})
        (self.dir / f"{name}.py").write_text(PLUGIN_TEMPLATE.format(
            data=data, log=str(self.log), name=name, body=body))
        self.mods[name] = ns
        return name, f"{name}:{attr}" if attr else name

    def add_source(self, source, name=None):
        name = name or self.new_name()
        pre = (f"import os as _os, sys as _sys, json as _json\n_LOG={str(self.log)!r}\n"
               "def _log(ev):\n"
               "    fd = _os.open(_LOG, _os.O_WRONLY | _os.O_APPEND | _os.O_CREAT, 0o644)\n"
               f"    _os.write(fd, (_json.dumps([_os.getpid(), _sys.prefix, {name!r}, ev]) + '\\n').encode())\n"
               "    _os.close(fd)\n_log('import')\n")
        (self.dir / f"{name}.py").write_text(pre + source)
        self.mods[name] = None
        return name

    def events(self, clear=True):
        try:
            lines = self.log.read_text().splitlines()
        except FileNotFoundError:
            return []
        if clear:
            self.log.unlink()
        return [json.loads(x) for x in lines]


def fake_dist(directory, name, version, entry_points=None, files=None):
    """A minimal installed distribution in `directory`."""
    d = pathlib.Path(directory)
    di = d / f"{name.replace('-', '_')}-{version}.dist-info"
    di.mkdir(parents=True, exist_ok=True)
    (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n")
    if entry_points:
        (di / "entry_points.txt").write_text(
            "[variant_plugins]\n" + "".join(f"{k} = {v}\n" for k, v in entry_points))
    return di


def make_venv(path):
    subprocess.run([sys.executable, "-m", "venv", "--without-pip", str(path)], check=True,
                   stdout=subprocess.DEVNULL)
    return pathlib.Path(path) / "bin" / "python"


def abi_props():
    """abi_dependency properties of the running environment, computed independently."""
    import re
    from importlib.metadata import distributions
    from packaging.version import Version
    out = {}
    for d in distributions():
        n = re.sub(r"[-_.]+", "_", d.name).lower()
        if n in out:
            continue
        v = Version(d.version)
        rel = list(v.release) + [0, 0]
        out[n] = [f"{rel[0]}", f"{rel[0]}.{rel[1]}", f"{rel[0]}.{rel[1]}.{rel[2]}"]
    return dict(sorted(out.items()))
