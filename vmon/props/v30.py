"""V30 inspection commands report exactly the truth and modify nothing."""
import ast
import json
import os
import re
import sys
import tempfile

from vmon import env, gen, model, wheels
from vmon.core import Workload

RULE = ("analyze-wheel on hostile wheels with any valid document, on plain, broken, mislabelled and misnamed ones; plugins "
        "commands and analyze-platform over installed plugin distributions with every filter; get-variant-hash with any "
        "spelling of any property list; each run watched for file modifications; distinct by inputs")
REQUIRED = ("analyzed", "analyzed_null", "analyzed_custom", "plain", "err_missing", "err_invalid", "err_label", "err_name",
            "err_suffix", "err_absent", "err_archive", "listed", "configs_all", "configs_supported", "filtered_namespace",
            "filtered_feature", "platform", "empty_supported", "no_plugins", "plugin_errors", "hashes", "bad_hash",
            "watched")


def watched(c, *args):
    """Run a command; it must not touch any file."""
    before = env.snapshot(c.tmp)
    with env.Audit() as a:
        res = env.cli(*args)
    c.obs("watched")
    after = {k: v for k, v in env.snapshot(c.tmp).items() if not k.startswith("plugins")}
    c.eq(after, {k: v for k, v in before.items() if not k.startswith("plugins")}, f"files after {args}")
    tmp = os.path.realpath(tempfile.gettempdir())
    bad = [p for p in a.written_paths() if p and p != os.devnull
           and not os.path.realpath(p).startswith(tmp + os.sep)]
    c.eq(bad, [], f"paths written by {args}")
    c.eq(os.listdir(tmp), [], f"temporary files left by {args}")
    return res


def printed(out):
    """The property lines of analyze-wheel."""
    return [x for x in out.splitlines() if x.strip() and not x.startswith("#")]


def analyze(c):
    rng = c.rng
    doc, _ = gen.document(rng, "wheel")
    label = next(iter(doc["variants"]))
    props = model.from_nested(doc["variants"][label])
    if label != "null" and rng.random() < 0.4:
        new = model.vhash(props)
        doc["variants"] = {new: doc["variants"][label]}
        label = new
    model.read_document(doc, "wheel", label)
    d = c.tmp / "in"
    d.mkdir()
    text = json.dumps(doc, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1, 4]))
    p = wheels.make(rng, d, label=label, doc=text)
    c.distinct(p.name, props)
    arg = os.path.relpath(p) if rng.random() < 0.3 else str(p)
    res = watched(c, "analyze-wheel", rng.choice(["-i", "--input_file"]), arg)
    ctx = f"{p.name} with {doc}: {res}"
    c.check(res.ok, f"failed; {ctx}")
    c.obs("analyzed")
    c.obs("analyzed_null" if not props else "analyzed_custom" if label != model.vhash(props) else "analyzed_hash")
    c.eq(printed(res.out), sorted(" :: ".join(x) for x in props), f"printed properties; {ctx}")
    heads = re.findall(r"Variant: `([^`]*)`", res.out)
    c.eq(len(heads), 1, f"headers; {ctx}")
    c.check(heads[0] in (label, model.default_label(props)), f"header {heads}; {ctx}")
    logged = [re.findall(r"Label: `([^`]*)`", m) for _, m in res.logs]
    c.check([label] in logged or label in heads, f"the label was not reported: {logged}; {ctx}")
    c.check(all(x in ([], [label]) for x in logged), f"logged label {logged}; {ctx}")
    c.check(not any(lv in ("ERROR", "CRITICAL", "BROKEN") for lv, _ in res.logs), f"{res.logs}; {ctx}")
    if c.i < 2:
        c.sample({"wheel": p.name, "printed": res.out})


def plain(c):
    rng = c.rng
    d = c.tmp / "in"
    d.mkdir()
    p = wheels.make(rng, d)
    res = watched(c, "analyze-wheel", "-i", p)
    c.distinct(p.name, c.i)
    c.obs("plain")
    c.check(res.ok, f"plain wheel {p.name}: {res}")
    c.eq(res.out.strip(), "", f"printed for the plain wheel {p.name}")
    c.check(any("tandard" in m for _, m in res.logs), f"not reported as a standard wheel: {res.logs}")


def broken(c):
    rng = c.rng
    d = c.tmp / "in"
    d.mkdir()
    doc, _ = gen.document(rng, "wheel")
    label = next(iter(doc["variants"]))
    text = json.dumps(doc)
    how = rng.choice(["missing", "invalid", "invalid", "label", "name", "suffix", "absent", "archive"])
    parts = wheels.name_parts(rng)
    p = d / wheels.join(parts, label)
    if how == "missing":
        wheels.write(p, wheels.contents(rng, parts, None))
    elif how == "invalid":
        for k in range(200):
            bad = gen.corrupt(rng, doc, rng.randint(1, 2))
            try:
                model.read_document(bad, "wheel", label)
            except model.Unknown:
                continue
            except model.Bad:
                break
        else:
            return
        text = json.dumps(bad)
        wheels.write(p, wheels.contents(rng, parts, text))
    elif how == "label":
        other = gen.label(rng)
        if other in doc["variants"] or (label == "null") != (other == "null") and rng.random() < 0.5:
            other = "other.label" if label != "other.label" else "other2"
        p = d / wheels.join(parts, other)
        wheels.write(p, wheels.contents(rng, parts, text))
    elif how == "name":
        good = wheels.join(parts, label)[:-4]
        name = rng.choice([good + "-" + "x" * 17, good + "-a-b-c", good + "-ABC", "x", "a-b", good.replace("-", "_"),
                           good + "-", good + "-lab el"]) + ".whl"
        try:
            if model.split_wheel_name(name) is not None:
                return
        except model.Unknown:
            return
        p = d / name
        wheels.write(p, wheels.contents(rng, parts, text))
    elif how == "suffix":
        p = d / (p.name[:-4] + rng.choice([".zip", ".whl.zip", "", ".WHL", ".whl.bak"]))
        wheels.write(p, wheels.contents(rng, parts, text))
    elif how == "archive":
        wheels.write(p, wheels.contents(rng, parts, text, simple=True))
        raw = p.read_bytes()
        p.write_bytes(rng.choice([b"", raw[:rng.randint(1, len(raw) - 30)], b"not a zip", raw[:len(raw) // 2] + b"xx"]))
    c.distinct(how, p.name, text)
    c.obs("err_" + how)
    res = watched(c, "analyze-wheel", "-i", p)
    c.check(not res.ok, f"accepted ({how}): {p.name} with {text}: {res}")


def platform_world(c, bad=False):
    rng = c.rng
    w = env.PluginWorld(c.tmp / "plugins", f"v30{c.wl}{c.i}x{rng.randrange(1 << 20):x}").activate()
    site = c.tmp / "site"
    site.mkdir()
    sys.path.insert(0, str(site))
    data = {}
    names = gen.distinct(rng, gen.ns, 0 if rng.random() < 0.08 and not bad else rng.randint(1, 4))
    for k, ns in enumerate(names):
        big = rng.random() < 0.2
        all_ = [(f, gen.distinct(rng, gen.val, rng.randint(1, 60 if big else 5)), rng.random() < 0.4)
                for f in gen.distinct(rng, gen.feat, rng.randint(1, rng.choice([4, 30]) if big else 4))]
        sup = [(f, gen.shuffled(rng, gen.some(rng, vs, lo=1)), m) for f, vs, m in gen.some(rng, all_)]
        data[ns] = (all_, sup)
        _, api = w.add(ns, all_, sup, style=rng.choice(env.STYLES), aot=rng.choice([None, True]), kind=rng.randrange(3))
        env.fake_dist(site, f"prov{k}", f"{k}.1", [(f"e{k}", api)])
    if bad:
        api = rng.choice([w.add_source("raise ValueError(1)\n"), "nope_" + w.tag,
                          w.add("zz", [("F", ["1"], False)], [("F", ["1"], False)])[1],
                          w.add("zz", [("f", ["1", "1"], False)], [("f", ["1", "1"], False)])[1],
                          w.add("zz", [("f", [], False)], [("f", [], False)])[1],
                          w.add(names[0], [("f", ["1"], False)], [])[1]])
        env.fake_dist(site, "bad", "1", [("bad", api)])
    import importlib
    importlib.invalidate_caches()
    return data


def shown_platform(out):
    res, cur = {}, None
    for line in out.splitlines():
        if m := re.search(r"`([^`]*)`", line):
            cur = m.group(1)
            assert cur not in res
            res[cur] = []
        elif m := re.search(r":\s*(\S+) :: (\[.*\])\s*$", line):
            res[cur].append((m.group(1), ast.literal_eval(m.group(2))))
    return res


def plugins(c):
    rng = c.rng
    data = platform_world(c)
    c.distinct(data)
    c.obs("no_plugins", not data)
    res = watched(c, "plugins", "list")
    c.check(res.ok, f"list-plugins: {res}")
    c.eq(sorted(res.out.splitlines()), sorted(data), "listed plugins")
    c.obs("listed")
    for which, opt in ((0, rng.choice(["-a", "--all"])), (1, rng.choice(["-s", "--supported"]))):
        args, ns, f = [opt], None, None
        if rng.random() < 0.5:
            ns = rng.choice([*data, *data, "nope", ""])
            args += [rng.choice(["-n", "--namespace"]), ns]
            c.obs("filtered_namespace")
        if rng.random() < 0.5:
            f = rng.choice([x[0] for d in data.values() for x in d[0]] + ["nope", ""])
            args += [rng.choice(["-f", "--feature"]), f]
            c.obs("filtered_feature")
        rng.shuffle(args[1:])
        c.obs("configs_supported" if which else "configs_all")
        res = watched(c, "plugins", "get-configs", *args)
        c.check(res.ok, f"get-configs {args}: {res}")
        want = {n: [{"name": x, "values": vs, "multi_value": m} for x, vs, m in d[which] if f in (None, x)]
                for n, d in data.items() if ns in (None, n)}
        got = json.loads(res.out)
        c.eq({n: v for n, v in got.items() if v}, {n: v for n, v in want.items() if v}, f"get-configs {args} of {data}")
        c.check(set(got) <= set(want), f"get-configs {args} of {data}: {got}")
    res = watched(c, "analyze-platform")
    c.check(res.ok, f"analyze-platform: {res}")
    want = {n: [(x, vs) for x, vs, _ in d[1]] for n, d in data.items() if d[1]}
    c.obs("empty_supported", len(want) < len(data))
    c.eq(shown_platform(res.out), want, f"analyze-platform: {res.out}")
    c.obs("platform")
    if c.i < 1:
        c.sample({"plugins": data, "platform": res.out})


def plugin_errors(c):
    data = platform_world(c, bad=True)
    c.distinct(data, c.i)
    c.obs("plugin_errors")
    for args in (["plugins", "get-configs", "-a"], ["analyze-platform"]):
        res = watched(c, *args)
        if args[0] == "analyze-platform" and res.ok:
            # the plugin that reuses a namespace or is ill-formed must not go unnoticed
            c.fail(f"{args} accepted a bad plugin: {res}")
        c.check(not res.ok, f"{args} accepted a bad plugin: {res}")


def hashes(c):
    rng = c.rng
    props = list(gen.Space(rng, min_ns=1).desc(max_props=7, null=0.05))
    ws = ["", " ", "  ", "\t"]
    args, todo = [], gen.shuffled(rng, props)
    bad = rng.random() < 0.3 and bool(props)
    k = rng.randrange(len(props)) if props else 0
    for i, p in enumerate(todo):
        t = (rng.choice(ws) + p[0] + rng.choice(ws) + "::" + rng.choice(ws) + p[1] + rng.choice(ws) + "::"
             + rng.choice(ws) + p[2] + rng.choice(ws))
        if bad and i == k:
            t = rng.choice([f"{p[0]}::{p[1]}", f"{p[0]}:{p[1]}::{p[2]}", t.strip() + "::x", t.strip() + "/",
                            f"{p[0].upper()}A::{p[1]}::{p[2]}", f"{p[0]}::{p[1]}::", f"{p[0]}:: ::{p[2]}", "",
                            f"{p[0]}::{p[1]}::{p[2]} {p[2]}", f"{p[0]}.::{p[1]}::{p[2]}"])
        if i and args and rng.random() < 0.5:
            args.append(t)
        else:
            args += ["-p", t]
    if not bad and props and rng.random() < 0.1:
        # a repeated property
        args += ["-p", " :: ".join(rng.choice(props))]
        res = watched(c, "get-variant-hash", *args)
        c.obs("bad_hash")
        c.check(not res.ok, f"repeated property accepted: {args}: {res}")
        return
    c.distinct(args)
    res = watched(c, "get-variant-hash", *args)
    if bad:
        c.obs("bad_hash")
        c.check(not res.ok, f"accepted {args}: {res}")
        return
    c.obs("hashes")
    c.check(res.ok, f"{args}: {res}")
    c.eq(res.out.split(), [model.vhash(props)], f"hash of {args}")


WORKLOADS = [Workload(analyze, 750, 5000), Workload(plain, 120, 600), Workload(broken, 600, 4000),
             Workload(plugins, 240, 1200), Workload(plugin_errors, 72, 250), Workload(hashes, 600, 4000)]
