"""V25 generated indexes against the wheels in the directory."""
import copy
import json
import os
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Workload
from vmon.props.v06 import tweak

RULE = ("directories of wheels of several releases: variants sharing settings, several platforms per "
        "label, plain wheels, foreign files, invalid names, damaged archives, missing, malformed or "
        "mislabelled metadata, conflicting settings or labels; listed by the file system in shuffled "
        "order; distinct by directory")
REQUIRED = ("indexed", "plain", "bad_name", "bad_metadata", "damaged", "conflict_settings",
            "conflict_label", "same_label_twice", "same_variant_twice", "several_releases",
            "shuffled_listings", "repeated", "nothing_to_index")
SHARED = ("namespace_priorities", "feature_priorities", "property_priorities", "providers",
          "static_properties")


class Shuffled:
    """The file system lists entries in another order."""

    def __init__(self, rng):
        self.rng, self.calls = rng, 0

    def __enter__(self):
        self.saved = os.scandir, os.listdir
        real_scan, real_list = self.saved
        outer = self

        class Scan:
            def __init__(self, *a):
                with real_scan(*a) as it:
                    self.items = list(it)
                outer.rng.shuffle(self.items)
                outer.calls += 1

            def __iter__(self):
                return iter(self.items)

            def __next__(self):
                if not self.items:
                    raise StopIteration
                return self.items.pop()

            def __enter__(self):
                return self

            def __exit__(self, *e):
                pass

            def close(self):
                pass

        def listdir(*a):
            out = real_list(*a)
            outer.rng.shuffle(out)
            outer.calls += 1
            return out
        os.scandir, os.listdir = Scan, listdir
        return self

    def __exit__(self, *e):
        os.scandir, os.listdir = self.saved


def variant_doc(rng, shared, label, space):
    d = () if label == "null" else space.desc(null=0)
    return {**copy.deepcopy(shared), "variants": {label: model.to_nested(d)}}, d


def plain_wheel(rng, path, parts, doc):
    """A small wheel with the document (None: without)."""
    members = wheels.contents(rng, parts, doc, nfiles=rng.randint(0, 3))
    wheels.write(path, members)


def release(c, directory, parts, n, faults=True):
    """Wheels of one release. Returns (valid {file: (shared content, label, desc)}, left out, ignored)."""
    rng = c.rng
    shared, space = gen.document(rng, "wheel")
    shared.pop("variants")
    if rng.random() < 0.1:
        space.colliding = rng.choice(gen.COLLIDING)
    valid, out, plain = {}, set(), set()
    alts = [shared]
    pool = []
    for _ in range(n):
        p = parts[:3] + (rng.choice(wheels.PY), rng.choice(wheels.ABIS), rng.choice(wheels.PLATS))
        if faults and rng.random() < 0.12:
            new = tweak(rng, {**copy.deepcopy(shared), "variants": {"null": {}}})
            if new is not None:
                new.pop("variants")
                alts.append(new)
        sh = shared if not faults or rng.random() < 0.8 else rng.choice(alts)
        r = rng.random()
        if pool and r < 0.25:
            label, d = rng.choice(pool)          # another platform of the same variant
            c.obs("same_label_twice")
        elif pool and faults and r < 0.33 and any(x[1] for x in pool):
            label, old = rng.choice([x for x in pool if x[1]])
            d = gen.same_hash(old) or space.desc(null=0)       # perhaps the same label for something else
            if not d:
                continue
        elif pool and r < 0.4 and any(x[1] for x in pool):
            d = rng.choice([x[1] for x in pool if x[1]])
            label = gen._fresh(rng, {x[0] for x in pool})
            c.obs("same_variant_twice")
        else:
            d = space.desc(null=0.15)
            label = "null" if not d else rng.choice([model.vhash(d), gen._fresh(rng, {x[0] for x in pool})])
            if any(x[0] == label and x[1] != d for x in pool):
                continue
        pool.append((label, d))
        doc = {**copy.deepcopy(sh), "variants": {label: model.to_nested(d)}}
        name = wheels.join(p, label)
        path = directory / name
        if path.exists():
            continue
        kind = rng.random() if faults else 1
        text = json.dumps(doc, indent=rng.choice([None, 4]))
        if kind < 0.06:
            plain.add(wheels.join(p))
            plain_wheel(rng, directory / wheels.join(p), p, text if rng.random() < 0.3 else None)
            c.obs("plain")
            continue
        if kind < 0.12:
            name = rng.choice([name[:-4] + "-x-y.whl", name[:-4] + "UPPER.whl", "bad.whl", "a-b.whl",
                               wheels.join(p, "l" * 17), name.replace("-" + label, "-A+b")])
            plain_wheel(rng, directory / name, p, text)
            out.add(name)
            c.obs("bad_name")
            continue
        if kind < 0.28:
            c.obs("bad_metadata")
            how = rng.randrange(5)
            if how == 0:
                text = None
            elif how == 1:
                text = rng.choice(["", "{", "[]", "null", "1", '"x"', text[:len(text) // 2]])
            elif how == 2:
                other = gen._fresh(rng, {label})
                text = json.dumps({**doc, "variants": {other: {"n": {"f": ["v"]}}}})
            elif how == 3:
                text = json.dumps({**doc, "variants": {}})
            else:
                for _ in range(30):
                    bad = gen.corrupt(rng, doc)
                    try:
                        model.read_document(bad, "wheel", label)
                    except model.Bad:
                        break
                    except model.Unknown:
                        continue
                else:
                    bad = {}
                text = json.dumps(bad)
            plain_wheel(rng, path, p, text)
            out.add(name)
            continue
        plain_wheel(rng, path, p, text)
        if kind < 0.34:
            b = path.read_bytes()
            how = rng.randrange(4)
            path.write_bytes([b[:len(b) // 2], b"", b"PK" + bytes(100), b[:-30]][how])
            out.add(name)
            c.obs("damaged")
            continue
        got = model.read_document(doc, "wheel", label)
        valid[name] = ({k: got[k] for k in SHARED}, label, d)
    return valid, out, plain


def judge_index(c, doc, valid, what):
    """The document must be a maximal consistent collection of the valid wheels.

    Returns the wheels left out because of conflicts.
    """
    got = model.read_document(doc, "index")
    shared = {k: got[k] for k in SHARED}
    cls = {n: v for n, v in valid.items() if v[0] == shared}
    c.check(cls, f"settings of no wheel in {what}: {shared}")
    labels = {}
    for n, (_, lab, d) in cls.items():
        labels.setdefault(lab, []).append(tuple(sorted(d)))
    c.eq(sorted(got["variants"]), sorted(labels), f"labels in {what}")
    for lab, d in got["variants"].items():
        c.check(d in labels[lab], f"variant {lab!r} in {what}: {d} is none of {labels[lab]}")
    c.obs("indexed", len(labels))
    return {n for n, (sh, lab, d) in valid.items()
            if sh != shared or got["variants"][lab] != tuple(sorted(d))}


def directory(c):
    rng = c.rng
    d = c.tmp / "dir"
    d.mkdir()
    rels = {}
    left, plain = set(), set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        parts = wheels.name_parts(rng)
        key = "-".join(parts[:2])
        if key in rels:
            continue
        rels[key], o, p = release(c, d, parts, rng.randint(0, 7))
        left |= o
        plain |= p
    c.obs("several_releases", len(rels) > 1)
    if rng.random() < 0.3:
        (d / "notes.txt").write_text("x")
        (d / "x.whl.bak").write_text("x")
        (d / "sub").mkdir()
        (d / "sub" / "p-1-py3-none-any-lab.whl").write_text("x")
    if rng.random() < 0.2:
        (d / "old-9-variants.json").write_text("{}")
    for key in rels:
        if rng.random() < 0.2:
            (d / f"{key}-variants.json").write_text(rng.choice(["", "{}", "junk"]))
    before = env.snapshot(d)
    outs = []
    for k in range(3):
        if k and rng.random() < 0.4:    # an earlier result must not matter
            for key in rels:
                (d / f"{key}-variants.json").unlink(missing_ok=True)
        with Shuffled(rng) as sh:
            res = env.cli("generate-index-json", "-d", d)
        c.obs("shuffled_listings", sh.calls > 0)
        c.obs("repeated")
        ctx = f"{sorted(p.name for p in d.iterdir())}; {res}"
        c.check(res.ok, f"failed: {ctx}")
        after = env.snapshot(d)
        expected = {f"{key}-variants.json" for key, v in rels.items() if v}
        c.obs("nothing_to_index", not expected)
        c.eq({n for n in after if after[n] != before.get(n)} - expected, set(), f"other files written; {ctx}")
        c.eq({n for n in before if n not in after} - {f"{k}-variants.json" for k in rels}, set(), f"files removed; {ctx}")
        texts = {}
        conflicts = set()
        for key, valid in rels.items():
            if not valid:
                continue
            p = d / f"{key}-variants.json"
            c.check(p.is_file(), f"no index for {key}; {ctx}")
            texts[key] = p.read_text(encoding="utf8")
            bad = judge_index(c, json.loads(texts[key]), valid, f"the index of {key}: {texts[key]}; {ctx}")
            conflicts |= bad
            for n in bad:
                sh_, lab, _ = valid[n]
                got = model.read_document(json.loads(texts[key]), "index")
                c.obs("conflict_settings" if sh_ != {k: got[k] for k in SHARED} else "conflict_label")
        log = "\n".join(m for lvl, m in res.logs if lvl in ("WARNING", "ERROR", "CRITICAL"))
        for n in left | conflicts:
            c.check(n in log, f"{n} was left out without a report; {ctx}; {log}")
        outs.append(texts)
        c.eq(outs[-1], outs[0], f"result of run {k + 1}; {ctx}")
    c.distinct(sorted(before))
    c.sample({"files": sorted(before), "left out": sorted(left | conflicts)})


def missing(c):
    rng = c.rng
    p = c.tmp / "x"
    if rng.random() < 0.5:
        p.write_text("a file")
    before = env.snapshot(c.tmp)
    res = env.cli("generate-index-json", "-d", p)
    c.check(not res.ok, f"a missing directory was accepted; {res}")
    c.eq(env.snapshot(c.tmp), before, "files after a missing directory")
    c.distinct(p.exists())


WORKLOADS = [Workload(directory, 3000, 40000), Workload(missing, 4, 20)]
