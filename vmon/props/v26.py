"""V26 adding wheels one by one against indexing them all at once."""
import copy
import json
import shutil

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.props.v06 import tweak
from vmon.props.v25 import SHARED, plain_wheel, release

RULE = ("releases added wheel by wheel in random orders (to one or changing directories), compared with "
        "the index generated at once; overwriting allowed or not; conflicting, mislabelled, malformed "
        "and plain wheels, malformed indexes; distinct by release and order")
REQUIRED = ("added", "orders", "refused_exists", "refused_conflict", "refused_metadata",
            "refused_plain", "refused_name", "refused_input", "already_present", "separate_output", "renamed_input")


def read_index(p):
    return model.read_document(json.loads(p.read_text(encoding="utf8")), "index")


def orders(c):
    """Every order gives the index generated from all."""
    rng = c.rng
    pool = c.tmp / "wheels"
    pool.mkdir()
    parts = wheels.name_parts(rng)
    n = rng.randint(1, 6)
    valid, _, _ = release(c, pool, parts, n, faults=False)
    if not valid:
        return
    key = "-".join(parts[:2])
    name = f"{key}-variants.json"
    names = sorted(valid)
    res = env.cli("generate-index-json", "-d", pool)
    c.check(res.ok, f"generating: {res}")
    want = read_index(pool / name)
    want_text = (pool / name).read_text(encoding="utf8")
    (pool / name).unlink()
    ref = {**valid[names[0]][0], "variants": {lab: tuple(sorted(d)) for _, lab, d in valid.values()}}
    c.eq(want, ref, f"index generated from {names}")
    wheels_before = env.snapshot(pool)
    for _ in range(3):
        order = gen.shuffled(rng, names)
        if rng.random() < 0.3:
            order.append(rng.choice(order))      # again
            c.obs("already_present")
        out = c.tmp / f"o{rng.random()}"
        out.mkdir()
        cur = None
        steps = []
        for w in order:
            dest = out
            move = cur is not None and rng.random() < 0.3
            if move:
                dest = c.tmp / f"o{rng.random()}"
                dest.mkdir()
                c.obs("separate_output")
            if cur is not None and rng.random() < 0.25:
                # an index kept under a name of its own
                other = c.tmp / rng.choice(["index.json", "x-1.0-variants.json", f"{key}.json", "old"])
                shutil.copyfile(cur, other)
                if not move:
                    cur.unlink()
                cur = other
                c.obs("renamed_input")
            cur_bytes = cur.read_bytes() if cur else None
            args = [rng.choice(["-f", "--wheel-file"]), pool / w, "-o", dest]
            if cur is not None:
                args += ["-i", cur]
            if not move and cur is not None or rng.random() < 0.3:
                args += ["-w"]
            res = env.cli("add-wheel-to-index-json", *args)
            steps.append(w)
            ctx = f"adding {steps}; {res}"
            c.check(res.ok, f"failed: {ctx}")
            c.obs("added")
            c.eq([p.name for p in dest.iterdir()], [name], f"files written; {ctx}")
            if cur is not None and cur.parent != dest:
                c.check(cur.read_bytes() == cur_bytes, f"the input index was modified; {ctx}")
            out = dest
            cur = dest / name
            got = read_index(cur)
            c.eq(got, {**ref, "variants": {valid[x][1]: tuple(sorted(valid[x][2])) for x in steps}}, f"index after {ctx}")
        c.eq(read_index(cur), want, f"index after {ctx}")
        c.eq(json.loads(cur.read_text(encoding="utf8")), json.loads(want_text), f"document after {ctx}")
        c.obs("orders")
        c.distinct(names, order)
    c.eq(env.snapshot(pool), wheels_before, "the wheels themselves")
    c.sample({"wheels": names, "index": want["variants"]})


def refusals(c):
    rng = c.rng
    pool, out = c.tmp / "wheels", c.tmp / "out"
    pool.mkdir()
    out.mkdir()
    parts = wheels.name_parts(rng)
    key = "-".join(parts[:2])
    name = f"{key}-variants.json"
    shared, space = gen.document(rng, "wheel", max_ns=3)
    shared.pop("variants")
    index = out / name
    have = {}
    pair = None
    if rng.random() < 0.05:
        pair = [(("a", "f", v),) for v in rng.choice(gen.COLLIDING)]
        have["pair"] = pair[0]
    for d in space.descs(rng.randint(1, 4), null=0.1):
        have["null" if not d else gen._fresh(rng, have)] = d
    if not have:
        have["null"] = ()
    index.write_text(json.dumps({**shared, "variants": {k: model.to_nested(v) for k, v in have.items()}}))
    label, d = gen._fresh(rng, have), space.desc(null=0)
    doc = {**copy.deepcopy(shared), "variants": {label: model.to_nested(d)}}
    args = ["-i", index, "-o", out, "-w"]
    wname = wheels.join(parts, label)
    text = json.dumps(doc)
    kind = rng.choice(["exists", "settings", "label", "metadata", "plain", "name", "input", "missing", "outdir"])
    if pair:
        kind = "label"
    ok = False
    if kind == "exists":
        args.remove("-w")
        if rng.random() < 0.4:
            args = ["-o", out]           # from scratch
        c.obs("refused_exists")
    elif kind == "settings":
        new = tweak(rng, doc)
        if new is None:
            return
        text = json.dumps(new)
        c.obs("refused_conflict")
    elif kind == "label":
        lab = next((x for x in have if x != "null"), None)
        if pair:
            d = pair[1]
        if lab is None or tuple(sorted(d)) == tuple(sorted(have[lab])):
            return
        text = json.dumps({**doc, "variants": {lab: model.to_nested(d)}})
        wname = wheels.join(parts, lab)
        c.obs("refused_conflict")
    elif kind == "metadata":
        c.obs("refused_metadata")
        how = rng.randrange(4)
        if how == 0:
            text = None
        elif how == 1:
            text = rng.choice(["", "{", "[]", text[:len(text) // 2]])
        elif how == 2:
            text = json.dumps({**doc, "variants": {gen._fresh(rng, {label}): model.to_nested(d)}})
        else:
            text = json.dumps({**doc, "variants": {}})
    elif kind == "plain":
        wname = wheels.join(parts)
        c.obs("refused_plain")
    elif kind == "name":
        wname = rng.choice(["x.whl", wname[:-4] + "-a-b.whl", wname.replace(label, "A" + label[1:]),
                            wname[:-4] + ".zip"])
        c.obs("refused_name")
    elif kind == "input":
        how = rng.randrange(4)
        c.obs("refused_input")
        if how == 0:
            args[1] = c.tmp / "missing.json"
        else:
            if rng.random() < 0.5:
                args[1] = c.tmp / "index.json"
                args[1].write_text("")
            args[1].write_text(["", "{", "[]", json.dumps({**doc, "variants": {"NULL": {}}})][how])
    elif kind == "outdir":
        args[3] = rng.choice([c.tmp / "missing", index])
    plain_wheel(rng, pool / wname, parts, text)
    if kind == "metadata" and rng.random() < 0.2:
        (pool / wname).write_bytes(b"no archive")
    if kind == "missing":
        (pool / wname).unlink()
        if rng.random() < 0.5:
            (pool / wname).mkdir()
    before = env.snapshot(c.tmp)
    res = env.cli("add-wheel-to-index-json", "-f", pool / wname, *args)
    ctx = f"{kind}: {wname} {args} index {sorted(have)}; {text}; {res}"
    c.check(not res.ok, f"accepted; {ctx}")
    c.eq(env.snapshot(c.tmp), before, f"files after a refusal; {ctx}")
    c.distinct(kind, text, wname)


WORKLOADS = [Workload(orders, 900, 12000), Workload(refusals, 1800, 12000)]
