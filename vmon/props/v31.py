"""V31 concurrent calls: recorded histories under controlled and free-running thread schedules,
each call's result compared with its result when made alone."""
import copy
import importlib
import itertools
import json
import os
import sys
import threading
import time

from vmon import env, gen
from vmon.core import Inconclusive, Workload
from vmon.lib import VD, VPs, cfgs, content, td
from vmon.scenario import Scenario
from variantlib.api import (
    check_variant_supported,
    get_variant_environment_dict,
    get_variant_label,
    get_variants_by_priority,
    make_variant_dist_info,
    validate_variant,
)
from variantlib.configuration import VariantConfiguration
from variantlib.models.variant_info import VariantInfo
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader
from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants
from variantlib.resolver.sorting import sort_variants_descriptions
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

RULE = ("pairs of library calls (over shared and separate objects, cold and warm memory) run under "
        "schedules that hand over between the threads at chosen line (or bytecode) events of the "
        "library, and groups of threads running freely with random delays injected; results compared "
        "with the calls made alone; distinct by pair of calls and hand-over locations")
REQUIRED = ("schedules", "handovers", "handovers_in_loader", "cold_pairs", "warm_pairs", "plugin_calls",
            "pure_calls", "failing_calls", "storm_calls", "storm_switches", "scrambled",
            "calls_repeated_after", "opcode_schedules", "shared_objects", "crowded_schedules")
HERE = {}


def prepare(scratch):
    import variantlib
    HERE["lib"] = os.path.dirname(os.path.realpath(variantlib.__file__)) + os.sep
    # the first use of opcode events in a process yields none
    b = Baton([lambda: VD([("n", "f", "v")]).hexdigest], [set()], True)
    b.run()


# -- calls ----------------------------------------------------------------------------------------
class World:
    """Objects the calls work with; rebuilt for every schedule (they may carry lazily made state)."""

    def __init__(self, sc, descs):
        self.parsed = VariantsJson(copy.deepcopy(sc.doc))
        self.info = VariantInfo(**self.parsed.copy_as_kwargs())
        self.vds = [VD(d) for d in descs]


def scrambling(c, r):
    out = cfgs(r)
    for pc in r.values():
        for f in pc.configs:
            f.values.append("scrambled")
        pc.configs.clear()
    r.clear()
    c.obs("scrambled")
    return out


def make_calls(c, plugins):
    """[(name, needs plugins?, function of the world -> comparable result)]"""
    rng = c.rng
    # few installed packages, so that most of the events are not about them
    sys.path[:] = [p for p in sys.path if "site-packages" not in p]
    few = c.tmp / "few"
    few.mkdir()
    for i in range(3):
        env.fake_dist(few, f"torch{i}", f"{i}.{i + 1}")
    sys.path.insert(0, str(few))
    importlib.invalidate_caches()
    sc = Scenario(c, max_ns=4 if plugins else 6, max_variants=5, plugins=plugins, min_ns=1)
    descs = sc.space.descs(4) + [v for v in sc.variants.values()][:4]
    descs = [d for d in dict.fromkeys(descs) if d]
    if not descs:
        raise_empty = sc.space.descs(6)
        descs = [d for d in raise_empty if d] or [(("n", "f", "v"),)]
    calls = []

    def add(name, func, uses=False):
        calls.append((name, uses, func))

    opts = [False, True, sc.optional_option()]
    for o in {json.dumps(o): o for o in opts}.values():
        add(f"select-parsed {o}", lambda w, o=o: get_variants_by_priority(
            variants_json=w.parsed, enable_optional_plugins=o), plugins)
        add(f"select-doc {o}", lambda w, o=o: get_variants_by_priority(
            variants_json=copy.deepcopy(sc.doc), enable_optional_plugins=o), plugins)
    for i in range(min(3, len(descs))):
        k = rng.randrange(len(descs))
        add(f"check {k}", lambda w, k=k: check_variant_supported(
            vdesc=w.vds[k], variant_info=w.parsed), plugins)
        add(f"validate {k}", lambda w, k=k: verdict(validate_variant(w.vds[k], w.info)), plugins)
        add(f"metadata {k}", lambda w, k=k: json.loads(make_variant_dist_info(
            w.vds[k], w.info, variant_label=rng_label(k))), plugins)
        add(f"hash {k}", lambda w, k=k: (w.vds[k].hexdigest, td(w.vds[k])))
        add(f"label {k}", lambda w, k=k: (get_variant_label(w.vds[k]), get_variant_label(
            w.vds[k], "custom")))
        add(f"markers {k}", lambda w, k=k: plain_env(get_variant_environment_dict(w.vds[k])))
        add(f"new-hash {k}", lambda w, k=k: (VD(descs[k]).hexdigest, hash(VD(descs[k]))
                                             == hash(w.vds[k])))
        add(f"plain-metadata {k}", lambda w, k=k: json.loads(make_variant_dist_info(w.vds[k])))
        docs = [make_doc(sc, d, lab) for lab, d in (("a", descs[k]), ("b", descs[0]), ("a", descs[-1]))]
        order = rng.sample(range(3), 3)
        add(f"merge {k}{order}", lambda w, docs=docs, order=order: merge([docs[j] for j in order]))
        add(f"read-wheel {k}", lambda w, docs=docs: content(VariantDistInfo(json.dumps(docs[0]), "a"))
            ["static_properties"])
    sup = sc.supported(True)
    for j in range(2):
        allowed = gen.some(rng, sup) if sup else []
        add(f"filter {j}", lambda w, a=allowed: [td(x) for x in filter_variants(
            w.vds, VPs(a), forbidden_namespaces=[], forbidden_features=[], forbidden_properties=[])])
        pri = sc.priorities()
        add(f"resolve {j}", lambda w, a=allowed: [td(x) for x in sort_and_filter_supported_variants(
            list(w.vds), VPs(a), namespace_priorities=list(pri[0]),
            feature_priorities=copy.deepcopy(pri[1]), property_priorities=copy.deepcopy(pri[2]))])
        vps = sorted({p for d in descs for p in d})
        rng.shuffle(vps)
        add(f"sort {j}", lambda w, vps=list(vps): [td(x) for x in sort_variants_descriptions(
            list(w.vds), VPs(vps))])
    add("index-text", lambda w: json.loads(w.parsed.to_str()))
    add("config", lambda w: conf(VariantConfiguration.get_config()))
    add("config-lazy", lambda w: (VariantConfiguration.namespace_priorities,
                                  VariantConfiguration.feature_priorities,
                                  VariantConfiguration.property_priorities))
    if plugins:
        apis = {n: p["api"] for n, p in sc.prov.items() if p["api"]}
        lists = [gen.some(rng, list(apis.values()), lo=1) for _ in range(3)] if apis else []
        lists += [x[::-1] for x in lists if len(x) > 1]
        same, api2 = sc.world.add("same_ns", [("f", ["v"], False)], [("f", ["v"], False)])
        _, api3 = sc.world.add("same_ns", [("f", ["w"], False)], [("f", ["w"], False)])
        bad = sc.world.add_source("raise RuntimeError('no')\n")
        bad_cfg = sc.world.add_source(
            "namespace = 'half'\nclass C:\n  name='f'; values=['a']; multi_value=False\n"
            "def get_all_configs(): return [C()]\ndef get_supported_configs(): raise ValueError\n")
        lists += [[api2], [api3], [api2, api3], [bad], [bad_cfg]]
        lists.append([bad_cfg] + list(apis.values())[:1])
        for j, lst in enumerate(lists):
            for m in ("get_all_configs", "get_supported_configs", "fixed", "names"):
                if rng.random() < 0.5:
                    add(f"list {j} {m}", lambda w, lst=lst, m=m: query(c, ListPluginLoader(list(lst)), m),
                        True)
        add("info-all", lambda w: query(c, PluginLoader(
            w.info, include_aot_plugins=True, enable_optional_plugins=True), "get_all_configs"), True)
        add("info-sup", lambda w: query(c, PluginLoader(w.info), "get_supported_configs"), True)
        site = c.tmp / "site"
        site.mkdir()
        for i, a in enumerate(list(apis.values())[:2] + [api3]):
            env.fake_dist(site, f"vmdist{i}", "1", [(f"e{i}", a)])
        sys.path.insert(0, str(site))
        add("entry", lambda w: query(c, EntryPointPluginLoader(), "get_supported_configs"), True)
    return sc, descs, calls


def rng_label(k):
    return [None, "lab", "x1"][k % 3]


def make_doc(sc, d, lab):
    doc = copy.deepcopy(sc.doc)
    doc["variants"] = {lab: {}}
    for n, f, v in d:
        doc["variants"][lab].setdefault(n, {}).setdefault(f, []).append(v)
    return doc


def merge(docs):
    own = VariantsJson(VariantDistInfo(json.dumps(docs[0])))
    out = []
    for d in docs[1:]:
        try:
            own.merge(VariantDistInfo(json.dumps(d)))
            out.append("merged")
        except Exception as e:  # noqa: BLE001
            out.append(type(e).__name__)
        out.append(content(own))
    return out


def conf(m):
    return (m.namespace_priorities, m.feature_priorities, m.property_priorities)


def plain_env(d):
    return {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in dict(d).items()}


def verdict(r):
    return ({(p.namespace, p.feature, p.value): v for p, v in r.results.items()},
            sorted((f.namespace, f.feature) for f in r.multi_value_violations))


def query(c, loader, m):
    with loader as ld:
        names = list(ld.namespaces)
        if m == "names":
            return names, dict(ld.plugin_api_values)
        if m == "fixed":
            return names, scrambling(c, ld.get_supported_configs(require_fixed=True))
        return names, scrambling(c, getattr(ld, m)())


def run(call, world):
    try:
        return ("value", repr_stable(call[2](world)))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__)


def repr_stable(v):
    return copy.deepcopy(v)


# -- controlled schedules -------------------------------------------------------------------------
class Baton:
    """Two threads, one running at a time; they hand over at chosen events of the library."""

    PATIENCE = 2.5

    def __init__(self, jobs, points, opcodes):
        self.jobs, self.points, self.opcodes = jobs, points, opcodes
        self.cv = threading.Condition()
        self.turn = 0
        self.done = [False] * len(jobs)
        self.count = [0] * len(jobs)
        self.where = []
        self.seen = None
        self.results = [None] * len(jobs)
        self.stalled = 0

    def _other(self, me):
        n = len(self.jobs)
        for k in range(1, n):
            o = (me + k) % n
            if not self.done[o]:
                return o
        return me

    def wait_turn(self, me):
        # The running thread may be waiting for something this one holds: do not wait forever.
        if not self.cv.wait_for(lambda: self.turn == me, timeout=self.PATIENCE):
            self.stalled += 1
            self.turn = me

    def event(self, me, frame):
        n = self.count[me]
        self.count[me] = n + 1
        if self.seen is not None:
            key = (frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno)
            occ = self.seen.setdefault(key, [])
            if len(occ) < 40:
                occ.append(n)
            else:
                occ[20 + n % 20] = n
        if n in self.points[me]:
            with self.cv:
                nxt = self._other(me)
                if nxt != me:
                    self.where.append((me, os.path.basename(frame.f_code.co_filename),
                                       frame.f_code.co_name, frame.f_lineno))
                    self.turn = nxt
                    self.cv.notify_all()
                    self.wait_turn(me)

    def thread(self, me):
        lib, ops = HERE["lib"], self.opcodes

        def local(frame, ev, arg):
            if ev == ("opcode" if ops else "line"):
                self.event(me, frame)
            return local

        def glob(frame, ev, arg):
            if frame.f_code.co_filename.startswith(lib):
                if ops:
                    frame.f_trace_opcodes = True
                return local
            return None

        with self.cv:
            self.wait_turn(me) if me else None
        sys.settrace(glob)
        try:
            self.results[me] = self.jobs[me]()
        except BaseException as e:  # noqa: BLE001
            self.results[me] = ("crashed", repr(e))
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[me] = True
                if self.turn == me:
                    self.turn = self._other(me)
                self.cv.notify_all()

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(k,), daemon=True) for k in range(len(self.jobs))]
        for t in ts:
            t.start()
        end = time.monotonic() + 120
        for t in ts:
            t.join(max(0.1, end - time.monotonic()))
        return not any(t.is_alive() for t in ts)


def alone(c, call, sc, descs):
    """The call's result when made alone in a fresh process state, and how many events it has."""
    out = []
    counts = []
    for ops in (False, True):
        env.reset_caches()
        w = World(sc, descs)
        b = Baton([lambda: run(call, w)], [set()], ops)
        b.seen = {}
        if not b.run():
            raise Inconclusive(f"{call[0]} does not finish")
        out.append(b.results[0])
        counts.append(list(b.seen.values()))
    c.eq(out[1], out[0], f"{call[0]} made twice from a fresh state")
    return out[0], counts


def pick_points(rng, seen, k):
    """Hand-over points: a place in the code, then one of the times it is reached."""
    return {rng.choice(rng.choice(seen)) for _ in range(k)} if seen else set()


def controlled(c, plugins, schedules):
    rng = c.rng
    sc, descs, calls = make_calls(c, plugins)
    pool = [x for x in calls if x[1]] if plugins and c.i % 3 else calls
    if not pool:
        pool = calls
    known = {}
    if plugins:
        base = rng.choice(pool)
        chosen = [base] + [rng.choice(pool) for _ in range(2)]
    else:
        chosen = [rng.choice(pool) for _ in range(8)]
    for x in chosen:
        if x[0] not in known:
            known[x[0]] = alone(c, x, sc, descs)
    for s in range(schedules):
        a, b = rng.choice(chosen), rng.choice(chosen)
        if rng.random() < 0.3:
            b = a
        cold = rng.random() < 0.7
        if cold:
            env.reset_caches()
        c.obs("cold_pairs" if cold else "warm_pairs")
        ops = rng.random() < 0.3
        pts = []
        for k, x in enumerate((a, b)):
            pts.append(pick_points(rng, known[x[0]][1][ops], rng.choice([1, 1, 2, 4]) if k == 0 else
                                   rng.choice([0, 0, 1, 3])))
        shared = rng.random() < 0.6
        w1 = World(sc, descs)
        w2 = w1 if shared else World(sc, descs)
        c.obs("shared_objects", shared)
        bat = Baton([lambda: run(a, w1), lambda: run(b, w2)], pts, ops)
        ok = bat.run()
        c.obs("schedules")
        c.obs("opcode_schedules", ops)
        c.obs("handovers", len(bat.where))
        c.obs("handovers_in_loader", sum("loader" in w[1] for w in bat.where))
        c.obs("forced_handovers", bat.stalled)
        for x in (a, b):
            c.obs("plugin_calls" if x[1] else "pure_calls")
        ctx = (f"{a[0]} and {b[0]} ({'cold' if cold else 'warm'}, {'shared' if shared else 'separate'} "
               f"objects), hand-overs {bat.where}; {json.dumps(sc.doc)} configuration={sc.config}")
        c.distinct(a[0].split()[0], b[0].split()[0], tuple(bat.where))
        c.check(ok, "calls hang: {}", ctx)
        for k, x in enumerate((a, b)):
            c.obs("failing_calls", known[x[0]][0][0] == "raised")
            c.eq(bat.results[k], known[x[0]][0], f"result of {x[0]} in {ctx}")
        if rng.random() < (0.5 if plugins else 0.3):
            x = rng.choice(chosen)
            c.obs("calls_repeated_after")
            c.eq(run(x, rng.choice([w1, w2])), known[x[0]][0], f"{x[0]} made after {ctx}")
        if s == 0:
            c.sample({"calls": [a[0], b[0]], "handovers": bat.where})


def schedules_plugins(c):
    controlled(c, True, 8)


def schedules_pure(c):
    controlled(c, False, 40)


def crowded(c):
    """A call whose answers are remembered, while another thread asks many new questions."""
    rng = c.rng
    w0 = env.PluginWorld(c.tmp / "plug", f"v31{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    apis = []
    for k in range(3):
        vals = gen.distinct(rng, gen.val, rng.randint(1, 3))
        apis.append(w0.add(f"n{k}", [("f", vals, False)], [("f", gen.some(rng, vals, lo=1), False)])[1])
    site = c.tmp / "site"
    site.mkdir()
    sys.path[:] = [str(site)] + [p for p in sys.path if "site-packages" not in p]
    env.fake_dist(site, "vmcrowd", "1", [("e", apis[0])])
    importlib.invalidate_caches()
    doc = {"default-priorities": {"namespace": ["n0"]}, "providers": {"n0": {"requires": ["x"], "plugin-api": apis[0]}},
           "variants": {"x": {"n0": {"f": ["v"]}}}}
    questions = [(list(p), m) for r in (1, 2, 3) for p in itertools.permutations(apis, r)
                 for m in ("get_all_configs", "get_supported_configs", "fixed")]
    rng.shuffle(questions)
    asks = [(f"ask {i} {m}", True, lambda w, q=q, m=m: query(c, ListPluginLoader(list(q)), m))
            for i, (q, m) in enumerate(questions[:10])]
    asks.append(("select", True, lambda w: get_variants_by_priority(variants_json=copy.deepcopy(doc))))
    asks.append(("entry", True, lambda w: query(c, EntryPointPluginLoader(), "get_supported_configs")))
    known = {}
    for x in asks:
        env.reset_caches()
        known[x[0]] = run(x, None)
    for s in range(5):
        a = rng.choice(asks)
        rest = gen.shuffled(rng, [x for x in asks if x is not a])
        env.reset_caches()
        before = rest[:rng.choice([0, 0, 2, 4])]
        for x in gen.shuffled(rng, [a, *before]):
            run(x, None)
        ops = rng.random() < 0.3
        b = Baton([lambda: run(a, None)], [set()], ops)
        b.seen = {}
        b.run()
        c.eq(b.results[0], known[a[0]], f"{a[0]} made again after {[x[0] for x in before]}")
        points = pick_points(rng, list(b.seen.values()), rng.choice([1, 2, 3]))
        jobs = rest[len(before):][:rng.randint(1, 6)]
        bat = Baton([lambda: run(a, None), lambda: [run(x, None) for x in jobs]],
                    [points, pick_points(rng, list(b.seen.values()), rng.choice([0, 0, 1]))], ops)
        ok = bat.run()
        c.obs("crowded_schedules")
        c.obs("schedules")
        c.obs("handovers", len(bat.where))
        c.obs("handovers_in_loader", sum("loader" in w[1] for w in bat.where))
        ctx = (f"{a[0]} remembered along with {[x[0] for x in before]}, then concurrently with {[x[0] for x in jobs]}, "
               f"hand-overs {bat.where}")
        c.distinct("crowded", a[0].split()[0], tuple(bat.where))
        c.check(ok, "calls hang: {}", ctx)
        c.eq(bat.results[0], known[a[0]], f"result of {a[0]}; {ctx}")
        c.eq(bat.results[1], [known[x[0]] for x in jobs], f"results of the other calls; {ctx}")
        for x in (a, rng.choice(jobs)):
            c.obs("calls_repeated_after")
            c.eq(run(x, None), known[x[0]], f"{x[0]} made after {ctx}")


# -- free running ---------------------------------------------------------------------------------
def storm(c):
    rng = c.rng
    plugins = c.i % 2 == 0
    sc, descs, calls = make_calls(c, plugins)
    chosen = [rng.choice(calls) for _ in range(8 if plugins else 14)]
    known = {}
    for x in chosen:
        if x[0] not in known:
            known[x[0]] = alone(c, x, sc, descs)[0]
    env.reset_caches()
    nthr = rng.randint(3, 8)
    w = World(sc, descs)
    work = [[rng.choice(chosen) for _ in range(2 if plugins else 10)] for _ in range(nthr)]
    history, switches, last = [], [0], [None]
    barrier = threading.Barrier(nthr)
    lib = HERE["lib"]

    def body(k):
        import random
        r = random.Random(f"{c.seed}:{c.i}:{k}")

        def local(frame, ev, arg):
            if ev == "line":
                if last[0] != k:
                    switches[0] += 1
                    last[0] = k
                q = r.random()
                if q < 0.03:
                    time.sleep(0)
                elif q < 0.032:
                    time.sleep(r.random() * 0.004)
            return local

        def glob(frame, ev, arg):
            return local if frame.f_code.co_filename.startswith(lib) else None

        barrier.wait()
        sys.settrace(glob)
        try:
            for x in work[k]:
                t0 = time.monotonic()
                res = run(x, w)
                history.append((k, x[0], t0, time.monotonic(), res))
        finally:
            sys.settrace(None)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(nthr)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(180)
        ok = not any(t.is_alive() for t in ts)
    finally:
        sys.setswitchinterval(interval)
    hist = sorted(history, key=lambda h: h[2])
    ctx = (f"{nthr} threads, history {[(h[0], h[1], round(h[2] - hist[0][2], 4), round(h[3] - hist[0][2], 4)) for h in hist]}; "
           f"{json.dumps(sc.doc)} configuration={sc.config}")
    c.check(ok, "calls hang: {}", ctx)
    c.eq(len(hist), sum(map(len, work)), f"calls finished; {ctx}")
    c.obs("storm_switches", switches[0])
    for k, name, t0, t1, res in hist:
        c.obs("storm_calls")
        c.obs("storm_overlapping", sum(1 for h in hist if h[0] != k and h[2] < t1 and h[3] > t0))
        c.eq(res, known[name], f"result of {name} (thread {k}); {ctx}")
    for x in chosen[:3]:
        c.obs("calls_repeated_after")
        c.eq(run(x, w), known[x[0]], f"{x[0]} made after {ctx}")
    c.distinct("storm", tuple(sorted({x[0].split()[0] for x in chosen})), nthr)


WORKLOADS = [Workload(schedules_plugins, 56, 1500), Workload(schedules_pure, 64, 1600),
             Workload(storm, 32, 700), Workload(crowded, 40, 1200)]
