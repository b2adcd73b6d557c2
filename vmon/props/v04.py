"""V04 document readers against the reference reader, on valid and corrupted documents."""
import copy
import json

from vmon import gen, model
from vmon.core import Workload
from vmon.lib import content, read
from variantlib.errors import ValidationError

RULE = ("generated valid documents of the three kinds and random corruptions of them (0-3 mutations), "
        "decided by an independent reader; distinct by document text")
REQUIRED = ("accepted", "rejected", "read_back")
KINDS = ("index", "wheel", "pyproject")


def judge(c, doc, kind, label=None):
    try:
        want = model.read_document(doc, kind, label)
    except model.Unknown:
        c.obs("undecided")
        return
    except model.Bad as e:
        c.obs("rejected")
        c.obs(f"rejected: {str(e).split(':')[0].split('.')[0].split(' ')[0]}")
        c.distinct("bad", kind, json.dumps(doc, sort_keys=True))
        c.raises(ValidationError, lambda: content(read(doc, kind, label)),
                 f"{kind} document with {e}: {json.dumps(doc)} label={label!r}")
        return
    c.obs("accepted")
    c.distinct("ok", kind, json.dumps(doc))
    before = copy.deepcopy(doc)
    try:
        obj = read(doc, kind, label)
    except Exception as e:  # noqa: BLE001
        c.fail(f"valid {kind} document refused with {type(e).__name__}: {e}: "
               f"{json.dumps(doc)} label={label!r}")
    got = content(obj)
    for k in want:
        c.obs("read_back")
        c.eq(got[k], want[k], f"{k} of {kind} document {json.dumps(doc)}")
    c.eq(list(got["providers"]), list(want["providers"]), "provider order")
    if kind != "pyproject":
        c.eq(list(got["variants"]), list(want["variants"]), "variant order")
    c.eq(list(got), list(want), "sections")
    c.eq(doc, before, "the document passed in")
    c.sample({"kind": kind, "doc": doc})


def _label(rng, doc):
    labels = list(doc.get("variants", {})) if isinstance(doc.get("variants"), dict) else []
    r = rng.random()
    if r < 0.5 and labels:
        return labels[0]
    return None if r < 0.75 else gen.label(rng)


def valid(c):
    kind = c.rng.choice(KINDS)
    doc, _ = gen.document(c.rng, kind)
    judge(c, doc, kind, _label(c.rng, doc) if kind == "wheel" else None)
    # the same content as the other kinds
    other = c.rng.choice(KINDS)
    d2 = {k: v for k, v in doc.items() if other != "pyproject" or k not in ("variants", "$schema")}
    judge(c, d2, other)


def corrupted(c):
    rng = c.rng
    kind = rng.choice(KINDS)
    doc, _ = gen.document(rng, kind)
    for _ in range(5):
        judge(c, gen.corrupt(rng, doc, rng.choice([1, 1, 1, 2, 3])), kind,
              _label(rng, doc) if kind == "wheel" else None)


def targeted(c):
    """Every cross-field rule broken alone."""
    rng = c.rng
    kind = rng.choice(KINDS)
    doc, sp = gen.document(rng, kind)
    if not doc.get("providers"):
        return
    ns = rng.choice(list(doc["providers"]))
    prio = doc.setdefault("default-priorities", {})
    todo = []

    def variant(f):
        d = copy.deepcopy(doc)
        try:
            f(d)
        except (KeyError, IndexError, ValueError):
            return
        todo.append(d)
    variant(lambda d: d["default-priorities"]["namespace"].remove(ns))
    variant(lambda d: d["default-priorities"]["namespace"].append("other"))
    variant(lambda d: d["default-priorities"]["namespace"].append(ns))
    variant(lambda d: d["providers"].pop(ns))
    variant(lambda d: d["providers"][ns].pop("requires"))
    variant(lambda d: d["providers"][ns].pop("install-time"))
    variant(lambda d: d["providers"][ns].update({"install-time": False}))
    variant(lambda d: d["providers"][ns].update({"install-time": True}))
    variant(lambda d: d["static-properties"].pop(ns))
    variant(lambda d: d.setdefault("static-properties", {}).update({ns: {"f": ["1"]}}))
    variant(lambda d: d.setdefault("static-properties", {}).update({"other": {"f": ["1"]}}))
    variant(lambda d: d["static-properties"][ns].update({"extra_1": ["1"], "extra_2": ["1"]}))
    variant(lambda d: d["default-priorities"]["feature"].pop(ns))
    variant(lambda d: d["default-priorities"]["feature"][ns].pop())
    if kind != "pyproject":
        variant(lambda d: d["variants"].update({"null": {"a": {"b": ["c"]}}}))
        variant(lambda d: d["variants"].update({"some": {}}))
        variant(lambda d: d["variants"].update({"x" * 17: {"a": {"b": ["c"]}}}))
        variant(lambda d: d["variants"].update({"x" * 16: {"a": {"b": ["c"]}}}))
        variant(lambda d: d["variants"].update({"null": {}}))
        variant(lambda d: d.pop("variants"))
        variant(lambda d: d.update(variants={}))
        variant(lambda d: d["variants"].update({"dup": {"a": {"b": ["c", "c"]}}}))
    for d in todo:
        c.obs("targeted")
        judge(c, d, kind, _label(rng, d) if kind == "wheel" else None)
    del prio


def pyproject_file(c):
    """pyproject files on disk, with other tables around."""
    import tomlkit
    from variantlib.pyproject_toml import VariantPyProjectToml
    rng = c.rng
    doc, _ = gen.document(rng, "pyproject")
    if rng.random() < 0.5:
        doc = gen.corrupt(rng, doc)
    whole = {"project": {"name": "x", "version": "1"}, "tool": {"variant": {"junk": 1}}}
    if rng.random() < 0.9:
        whole["variant"] = doc
    path = c.tmp / "pyproject.toml"
    try:
        path.write_text(tomlkit.dumps(whole), encoding="utf8")
        import tomllib
        if tomllib.loads(path.read_text(encoding="utf8")).get("variant") != whole.get("variant"):
            return
    except Exception:  # noqa: BLE001  not expressible in TOML
        return
    c.obs("toml_files")
    try:
        want = model.read_document(whole.get("variant", {}), "pyproject")
    except model.Unknown:
        return
    except model.Bad as e:
        c.obs("rejected")
        c.raises(ValidationError, lambda: VariantPyProjectToml.from_path(path), f"{e}: {doc}")
        return
    c.obs("accepted")
    c.distinct("toml", str(doc))
    c.eq(content(VariantPyProjectToml.from_path(path)), want, "content of pyproject.toml")


WORKLOADS = [Workload(valid, 12000, 60000), Workload(corrupted, 12000, 80000),
             Workload(targeted, 3200, 16000), Workload(pyproject_file, 3200, 16000)]
