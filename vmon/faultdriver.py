"""Runs one conversion again and again, with a fault at every file operation in turn.

Started with native/faultio.so preloaded; job on standard input, results on standard output.
Every run happens in a forked child on a restored copy of the directories.
"""
import ctypes
import gc
import hashlib
import json
import os
import pathlib
import shutil
import signal
import sys
import time

MODES = {"count": 1, "fail": 2, "fail_writes_from": 3, "kill": 4, "torn_kill": 5, "sigint": 6, "short": 7}


def main():
    job = json.load(sys.stdin)
    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.path[:0] = job["path"]
    lib = ctypes.CDLL(None)
    lib.vmon_trace.restype = ctypes.c_char_p
    lib.vmon_count.restype = lib.vmon_fired.restype = ctypes.c_long
    lib.vmon_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    from variantlib.commands import main as m
    for mod in ("make_variant", "unmake_variant", "generate_index_json", "add_wheel_to_index_json",
                "update_pyproject_toml"):
        __import__(f"variantlib.commands.{mod}")
    import zipfile, bz2, lzma, zlib, csv  # noqa
    if job.get("warm"):
        # have the installed plugins remembered, rather than asked in every run
        from variantlib.plugins.loader import EntryPointPluginLoader
        with EntryPointPluginLoader() as loader:
            loader.namespaces  # noqa: B018
    work, pristine, keep = (pathlib.Path(job[k]) for k in ("work", "pristine", "keep"))
    known = {}
    results = []

    def run(mode, k, err):
        if work.exists():
            shutil.rmtree(work)
        shutil.copytree(pristine, work)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                os.chdir(work)
                lib.vmon_arm(str(work).encode(), MODES[mode], k, err)
                try:
                    m.main(list(job["args"]))
                    code = 0
                except SystemExit as e:
                    code = 0 if e.code in (0, None) else 2
                except BaseException:  # noqa: BLE001
                    code = 1
                gc.collect()
                lib.vmon_disarm()
                os.write(w, json.dumps([lib.vmon_count(), lib.vmon_fired(),
                                        lib.vmon_trace().decode()]).encode())
            finally:
                os._exit(code)
        os.close(w)
        data = b""
        while chunk := os.read(r, 65536):
            data += chunk
        os.close(r)
        _, status = os.waitpid(pid, 0)
        count, fired, trace = json.loads(data) if data else (None, 1, None)
        files = {}
        for p in sorted(work.rglob("*")):
            if p.is_file():
                b = p.read_bytes()
                h = hashlib.sha256(b).hexdigest()
                if h not in known:
                    known[h] = str(keep / h)
                    (keep / h).write_bytes(b)
                files[str(p.relative_to(work))] = h
        results.append({"mode": mode, "k": k, "errno": err, "count": count, "fired": fired,
                        "trace": trace, "files": files,
                        "exit": os.waitstatus_to_exitcode(status)})
        return results[-1]

    base = run("count", -1, 0)
    n = base["count"] or 0
    for mode, errs in job["modes"]:
        for err in errs:
            for k in range(n + 1):
                run(mode, k, err)
    shutil.rmtree(work, ignore_errors=True)
    os.write(out, json.dumps(results).encode()) if False else None
    with os.fdopen(out, "w") as f:
        json.dump(results, f)


main()
