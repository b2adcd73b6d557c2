"""Monitor core: seeded cases, worker pool, verdicts, evidence, known findings."""
from __future__ import annotations

import collections
import contextlib
import errno
import hashlib
import importlib
import io
import json
import logging
import os
import pathlib
import random
import re
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

MAX_VIOLATIONS = 25


class Violation(BaseException):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Inconclusive(BaseException):
    pass


class Workload:
    """`func(case)` executed for indices 0..n-1 of the tier."""

    def __init__(self, func, quick, thorough, name=None, serial=False, weight=1):
        self.func = func
        self.name = name or func.__name__
        self.n = {"quick": quick, "thorough": thorough}
        self.serial = serial


class Case:
    def __init__(self, pid, wl, index, seed, tier, scratch):
        self.pid, self.wl, self.i, self.seed, self.tier = pid, wl.name, index, seed, tier
        self.rng = random.Random(f"{seed}:{pid}:{wl.name}:{index}")
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.known = []
        self._scratch = scratch
        self._tmp = None
        self.notes = []

    # -- observation ---------------------------------------------------------
    def obs(self, kind, n=1):
        self.counters[kind] += n

    def distinct(self, *sig):
        self.sigs.add(hashlib.blake2b(repr(sig).encode("utf8", "surrogatepass"),
                                      digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, *args):
        self.notes.append(" ".join(str(a) for a in args)[:4000])

    # -- verdicts ------------------------------------------------------------
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, *args):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(msg.format(*[_short(a) for a in args]) if args else msg)

    def eq(self, got, want, what):
        self.counters["assertions"] += 1
        if type(got) is not type(want) and not (
                isinstance(got, (dict, list, set, frozenset)) and isinstance(want, type(got))) and not (
                isinstance(want, (dict, list, set, frozenset)) and isinstance(got, type(want))):
            raise Violation(f"{what}: got {_short(got)} ({type(got).__name__}), "
                            f"expected {_short(want)} ({type(want).__name__})")
        if got != want:
            raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}")

    def raises(self, exc_types, func, what):
        """Call func; it must raise one of exc_types. Returns the exception."""
        self.counters["assertions"] += 1
        try:
            res = func()
        except exc_types as e:
            return e
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what}: raised {type(e).__name__}: {_short(e)}, expected "
                            f"{_names(exc_types)}") from e
        raise Violation(f"{what}: returned {_short(res)}, expected {_names(exc_types)}")

    def known_finding(self, key, msg):
        """A failure with a mechanism key: counted as known iff listed in the file."""
        self.known.append((key, msg))

    # -- scratch -------------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"c{self.i}-", dir=self._scratch))
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def _names(t):
    return "/".join(x.__name__ for x in t) if isinstance(t, tuple) else t.__name__


def _short(o, n=1500):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + f"...[{len(s)} chars]"


# ---------------------------------------------------------------------------
class Result:
    FIELDS = ("cases", "counters", "sigs", "samples", "violations", "known", "errors", "per_wl",
              "timed_out")

    def __init__(self):
        self.cases = 0
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []   # dict(wl, i, msg)
        self.known = collections.Counter()
        self.errors = []
        self.per_wl = collections.Counter()
        self.timed_out = 0

    def absorb(self, o):
        self.cases += o["cases"]
        self.counters.update(o["counters"])
        self.sigs.update(o["sigs"])
        self.samples.extend(o["samples"])
        self.violations.extend(o["violations"])
        self.known.update(o["known"])
        self.errors.extend(o["errors"])
        self.per_wl.update(o["per_wl"])
        self.timed_out += o["timed_out"]

    def dump(self):
        return {"cases": self.cases, "counters": dict(self.counters), "sigs": sorted(self.sigs),
                "samples": self.samples[:6], "violations": self.violations[:MAX_VIOLATIONS],
                "known": dict(self.known), "errors": self.errors[:5],
                "per_wl": dict(self.per_wl), "timed_out": self.timed_out}


def load_known(here, pid):
    """key -> description, for findings recorded (not repaired) for this property."""
    out = {}
    path = pathlib.Path(here) / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_case(pid, wl, i, seed, tier, scratch, res, known_keys, verbose=False):
    case = Case(pid, wl, i, seed, tier, scratch)
    viol = None
    from vmon import env
    try:
        with env.case_guard():
            wl.func(case)
    except Violation as e:
        viol = (e.msg, e.key)
    except Inconclusive as e:
        res.errors.append(f"{wl.name}:{i}: inconclusive: {e}")
    except MemoryError:
        res.errors.append(f"{wl.name}:{i}: MemoryError")
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
            res.errors.append(f"{wl.name}:{i}: environment: {e}")
        else:
            viol = ("unexpected exception: " + _tb(e), None)
    except (Exception, SystemExit) as e:  # noqa: BLE001
        viol = ("unexpected exception: " + _tb(e), None)
    finally:
        case.cleanup()
    for key, msg in case.known:
        if key in known_keys:
            res.known[key] += 1
        elif viol is None:
            viol = (msg, key)
    if viol is not None and viol[1] is not None and viol[1] in known_keys:
        res.known[viol[1]] += 1
        viol = None
    if viol is not None:
        res.violations.append({"wl": wl.name, "i": i, "msg": viol[0][:6000],
                               "notes": case.notes[-20:]})
        if verbose:
            print(f"--- {wl.name}:{i}\n{viol[0]}\n" + "\n".join(case.notes), file=sys.__stderr__)
    res.cases += 1
    res.per_wl[wl.name] += 1
    res.counters.update(case.counters)
    res.sigs.update(case.sigs)
    if case.samples and len(res.samples) < 6:
        res.samples.append({"case": f"{wl.name}:{i}", "what": json.loads(
            json.dumps(case.samples, default=repr))})


def _tb(e):
    lines = traceback.format_exception(type(e), e, e.__traceback__)
    return _short(f"{type(e).__name__}: {e}", 500) + "\n" + "".join(lines)[-3500:]


def worker(pid, wls, jobs, k, seed, tier, scratch, deadline, known_keys, wfd, verbose):
    from vmon import env
    res = Result()
    try:
        wscratch = os.path.join(scratch, f"w{k}")
        os.makedirs(wscratch)
        env.setup_worker(wscratch)
        # Interleave the workloads, so that a deadline cuts all of them evenly.
        todo = []
        for wl in wls:
            n = wl.n[tier]
            todo += [(i / n, wl, i) for i in range(k, n, jobs)]
        todo.sort(key=lambda t: t[0])
        for _, wl, i in todo:
            if time.monotonic() > deadline:
                res.timed_out += 1
                continue
            if len(res.violations) >= MAX_VIOLATIONS:
                break
            run_case(pid, wl, i, seed, tier, wscratch, res, known_keys, verbose)
    except BaseException as e:  # noqa: BLE001
        res.errors.append("worker: " + _tb(e))
    data = json.dumps(res.dump()).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def run_pool(pid, wls, jobs, seed, tier, scratch, budget, known_keys, verbose):
    total = Result()
    deadline = time.monotonic() + budget
    procs = {}
    for k in range(jobs):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                worker(pid, wls, jobs, k, seed, tier, scratch, deadline, known_keys, w, verbose)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        procs[p] = [r, b""]
    hard = deadline + max(60, budget * 0.5)
    fds = {v[0]: v for v in procs.values()}
    open_fds = set(fds)
    while open_fds:
        timeout = hard - time.monotonic()
        if timeout <= 0:
            break
        ready, _, _ = select.select(list(open_fds), [], [], min(timeout, 5))
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            if chunk:
                fds[fd][1] += chunk
            else:
                open_fds.discard(fd)
    for p, (fd, data) in procs.items():
        if fd in open_fds:
            with contextlib.suppress(ProcessLookupError):
                os.killpg(p, signal.SIGKILL)
            total.errors.append(f"worker {p} did not finish (watchdog)")
        _, status = os.waitpid(p, 0)
        os.close(fd)
        try:
            total.absorb(json.loads(data))
        except ValueError:
            total.errors.append(f"worker {p} died (status {status})")
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(p, signal.SIGKILL)
    return total


def run(args, here, repo):
    t0 = time.monotonic()
    pid, tier, seed = args.pid, args.tier, args.seed
    from vmon import env
    env.REPO = repo
    scratch_root = tempfile.mkdtemp(prefix=f"vmon-{pid}-")
    try:
        env.setup_process(scratch_root, repo)
        try:
            mod = importlib.import_module(f"vmon.props.{pid.lower()}")
        except Exception as e:  # noqa: BLE001
            # The library does not even import: nothing was observed.
            print(f"inconclusive: cannot load the check: {_tb(e)}")
            return 2
        wls = mod.WORKLOADS
        for wl in wls:
            wl.n = {t: max(1, int(n * args.scale)) for t, n in wl.n.items()}
        known = load_known(here, pid)
        if args.case:
            name, _, idx = args.case.partition(":")
            wl = next(w for w in wls if w.name == name)
            if hasattr(mod, "prepare"):
                mod.prepare(scratch_root)
            env.setup_worker(scratch_root)
            total = Result()
            run_case(pid, wl, int(idx), seed, tier, scratch_root, total, known, True)
        else:
            if hasattr(mod, "prepare"):
                mod.prepare(scratch_root)
            budget = getattr(mod, "BUDGET", {"quick": 150, "thorough": 700})[tier]
            total = run_pool(pid, wls, args.jobs, seed, tier, scratch_root, budget, known,
                             args.verbose)
            missing = [k for k in getattr(mod, "REQUIRED", ()) if not total.counters.get(k)]
            if missing and not total.violations:
                total.errors.append(f"monitors never reached: {missing}")
            for wl in wls:
                if not total.per_wl.get(wl.name) and not total.violations:
                    total.errors.append(f"workload {wl.name} never ran")
            if not total.sigs and not total.violations:
                total.errors.append("nothing non-trivial was observed")
    finally:
        env.teardown()
        shutil.rmtree(scratch_root, ignore_errors=True)

    rc = 0
    for key in known:
        if total.known.get(key):
            print(f"KNOWN-FINDING: property={pid} {key}: {known[key]} "
                  f"(observed {total.known[key]} times)")
    if total.violations:
        rc = 1
        total.violations.sort(key=lambda v: (v["i"], v["wl"]))
        rdir = pathlib.Path(here) / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        seen = set()
        for v in total.violations[:5]:
            if v["wl"] in seen:
                continue
            seen.add(v["wl"])
            rp = rdir / f"{pid}-{v['wl']}-{v['i']}-s{seed}.json"
            rp.write_text(json.dumps({
                "property": pid, "tier": tier, "seed": seed, "case": f"{v['wl']}:{v['i']}",
                "message": v["msg"], "notes": v["notes"],
                "replay": f"cd /verif && ./run.py {pid} --seed {seed} --tier {tier} "
                          f"--case {v['wl']}:{v['i']}"}, indent=1))
            print(f"VIOLATION property={pid} replay={rp}")
            print("  " + v["msg"][:1500].replace("\n", "\n  "))
    elif total.errors:
        rc = 2
        for e in total.errors[:5]:
            print(f"INCONCLUSIVE property={pid}: {e}")
    wall = time.monotonic() - t0
    if not args.case:
        level = getattr(mod, "LEVEL", "exploration")
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": level,
            "coverage": {
                "evaluations": total.cases,
                "distinct_nontrivial": len(total.sigs),
                "rule": mod.RULE,
                "samples": total.samples[:6] or ["none"],
                "observed": dict(sorted(total.counters.items())),
                "cases_per_workload": dict(total.per_wl),
                "skipped_for_time": total.timed_out,
                "known_findings_observed": dict(total.known),
                "inconclusive": total.errors[:5],
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(total.violations),
        }
        edir = pathlib.Path(here) / "evidence"
        edir.mkdir(exist_ok=True)
        (edir / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
    print(f"{pid} {tier} seed={seed}: {'held' if rc == 0 else 'VIOLATED' if rc == 1 else 'inconclusive'}; "
          f"{total.cases} cases, {len(total.sigs)} distinct, "
          f"{sum(total.counters.values())} observations, {wall:.1f}s")
    return rc
