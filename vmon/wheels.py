"""Wheels: generation, reading and comparison, sharing nothing with variantlib."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import json
import pathlib
import random
import zipfile

from vmon import gen, model

DOC = "variant.json"
METHODS = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2,
           zipfile.ZIP_LZMA]
PY = ["py3", "py2.py3", "cp312", "cp39.cp310"]
ABIS = ["none", "abi3", "cp312"]
PLATS = ["any", "linux_x86_64", "manylinux_2_17_x86_64.manylinux2014_x86_64", "win_amd64"]


def digest(data):
    return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def name_parts(rng):
    name = rng.choice(["pkg", "Some_Package", "a.b", "x", "foo_bar2", "p0", "cp312", "py3"])
    ver = rng.choice(["1.0", "0", "1.0.dev1+local.2", "2!3.4", "1.0rc1", "2024.1.1"])
    build = rng.choice([None, None, None, "1", "0abc", "2_x", "123.4"])
    return name, ver, build, rng.choice(PY), rng.choice(ABIS), rng.choice(PLATS)


def long_name(rng, parts):
    """With a name as long as file names can be, with a label (or nearly)."""
    room = 255 - len(join(("", *parts[1:]), "l" * 16))
    return ("n" * (room - rng.choice([0, 0, 1, 5, 9, 20])), *parts[1:])


def join(parts, label=None):
    name, ver, build, py, abi, plat = parts
    return "-".join([name, ver] + ([build] if build else []) + [py, abi, plat]
                    + ([label] if label else [])) + ".whl"


def record_bytes(rng, rows, eol, quoting, terminated=True, blank=False):
    out = io.StringIO()
    w = csv.writer(out, lineterminator=eol, quoting=quoting)
    for i, r in enumerate(rows):
        w.writerow(r)
        if blank and i == 0:
            out.write(eol)
    text = out.getvalue()
    if not terminated:
        text = text[:-len(eol)]
    return text.encode("utf8")


class Wheel:
    """members: list of (ZipInfo, bytes); `doc` (text) adds variant metadata."""


def _info(rng, name, method=None):
    zi = zipfile.ZipInfo(name, date_time=(rng.randint(1980, 2100), rng.randint(1, 12), rng.randint(1, 28),
                                          rng.randint(0, 23), rng.randint(0, 59), rng.randrange(0, 60, 2)))
    zi.compress_type = rng.choice(METHODS) if method is None else method
    zi.create_system = rng.choice([3, 3, 3, 0])
    if name.endswith("/"):
        zi.external_attr = (0o40755 << 16) | 0x10
        zi.compress_type = zipfile.ZIP_STORED
    else:
        zi.external_attr = rng.choice([0o644, 0o100644, 0o100755, 0o100664, 0o755, 0o600]) << 16
    if rng.random() < 0.1:
        zi.comment = b"a comment"
    return zi


def blob(rng, big=True):
    r = rng.random()
    if r < 0.15:
        return b""
    if r < 0.5:
        return rng.randbytes(rng.randint(1, 200))
    if r < 0.75:
        return b"line\r\n" * rng.randint(1, 50)
    if r < 0.95 or not big:
        return rng.randbytes(rng.randint(200, 9000))
    return rng.randbytes(rng.choice([8192, 65536, 65537, 200000]))


def contents(rng, parts, doc=None, nfiles=None, simple=False):
    """[(ZipInfo, bytes)] of a legal wheel; metadata document included if given."""
    name, ver = parts[:2]
    di = f"{name}-{ver}.dist-info"
    files = []
    if simple:
        files += [(f"{name}/__init__.py", b"x = 1\n"), (f"{name}/data.bin", rng.randbytes(5000))]
    else:
        pool = [f"{name}/__init__.py", f"{name}/mod.py", f"{name}/data.bin", f"{name}/with space.txt",
                f"{name}/comma,name.txt", f'{name}/quo"te.txt', f"{name}/ünï-çödé.txt",
                f"{name}/日本語.bin", f"{name}/sub/deep/er/x", f"{name}-{ver}.data/scripts/run",
                f"{name}-{ver}.data/data/etc/{DOC}", f"{name}/{DOC}", f"{name}/RECORD", "top.py",
                f"{name}.dist-info.txt", DOC, "RECORD", f"{di}/licenses/LICENSE.txt",
                f"{di}/sboms/{DOC}", f"{di}/licenses/RECORD", f"{di}/RECORD.jws", f"{di}/{DOC}.bak",
                f"{di}/x{DOC}", f"{name}/empty_dir/", f"{di}/", f"{name}/", f"{di}/variants.json",
                f"{name}/a;b.txt", f"{name}/'s.txt", f"{name}/x.dist-info/{DOC}",
                f"vendored.dist-info/METADATA", f"{name}/{di}/RECORD"]
        near = [f"{name}/{di}/{DOC}", f"{di}/{di}/{DOC}", f"{di}/sub/{DOC}", f"{di}/{DOC.upper()}", f"{di}/variant-json",
                f"{di}/{DOC}.py", f"{name}/{DOC}.txt", f"x{di}/{DOC}.x", f"{di}x/{DOC}x", f"{name}/{di}/RECORD.txt",
                f"{di}/record", f"{di}/record.d/RECORD", f"{name}/a{di}/RECORD", f"vendored/{di}/{DOC}", f"{di}/ {DOC}",
                f"./{name}.py", f"{name}/back\\slash.txt", f"{name}/tab\there", f"{name}/semi;,'\".x"]
        k = rng.randint(0, 9) if nfiles is None else nfiles
        names = rng.sample(pool, min(k, len(pool)))
        if nfiles is None:
            names += rng.sample(near, rng.choice([0, 0, 1, 2, 3]))
        files += [(f, b"" if f.endswith("/") else blob(rng)) for f in names]
        rng.shuffle(files)
    meta = [(f"{di}/METADATA", f"Metadata-Version: 2.1\nName: {name}\nVersion: {ver}\n".encode()),
            (f"{di}/WHEEL", b"Wheel-Version: 1.0\nGenerator: vmon\nRoot-Is-Purelib: true\nTag: x\n")]
    if not simple and rng.random() < 0.3:
        meta.append((f"{di}/entry_points.txt", b"[console_scripts]\nx=y:z\n"))
    if doc is not None:
        meta.insert(rng.randint(0, len(meta)), (f"{di}/{DOC}", doc.encode("utf8")))
    members = files + meta if rng.random() < 0.8 or simple else meta + files
    rows = [(n, digest(b), str(len(b))) for n, b in members if not n.endswith("/")]
    if rng.random() < 0.2 and not simple:
        rng.shuffle(rows)
    eol = rng.choice(["\n", "\n", "\r\n"])
    rec = f"{di}/RECORD"
    rows.insert(rng.choice([len(rows), len(rows), rng.randint(0, len(rows))]),
                (rec, "", ""))
    data = record_bytes(rng, rows, eol, rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL]),
                        rng.random() < 0.8, rng.random() < 0.1)
    pos = len(members) if simple or rng.random() < 0.75 else rng.randint(0, len(members))
    members.insert(pos, (rec, data))
    method = None if rng.random() < 0.5 else rng.choice(METHODS)
    return [(_info(rng, n, method), b) for n, b in members]


def write(path, members):
    with zipfile.ZipFile(path, "w") as z:
        for zi, data in members:
            z.writestr(zi, data, compress_type=zi.compress_type)


def make(rng, directory, parts=None, label=None, doc=None, **kw):
    """Writes a wheel; returns its path."""
    parts = parts or name_parts(rng)
    p = pathlib.Path(directory) / join(parts, label)
    write(p, contents(rng, parts, doc, **kw))
    return p


def meta_of(zi):
    attr = zi.external_attr
    if attr >> 16 in (0, 0o600) and not attr & 0xffff:
        attr = 0o600 << 16
    return (zi.compress_type, zi.date_time, zi.comment, attr, zi.create_system)


def load(path):
    """([(name, metadata, bytes)], document name or None). Verifies the checksums."""
    with zipfile.ZipFile(path) as z:
        out = [(zi.filename, meta_of(zi), z.read(zi)) for zi in z.infolist()]
    return out


def is_top(name, what):
    c = name.split("/")
    return len(c) == 2 and c[0].endswith(".dist-info") and c[1] == what


def find_doc(members):
    return [m for m in members if is_top(m[0], DOC)]


def rows_of(data):
    return [tuple(r) for r in csv.reader(io.StringIO(data.decode("utf8"), newline="")) if r]


def split(members):
    """(members without document and RECORD content, records {name: rows}, documents)"""
    plain, recs = [], {}
    for n, m, b in members:
        if is_top(n, DOC):
            continue
        if is_top(n, "RECORD"):
            recs[n] = rows_of(b)
            b = None
        plain.append((n, m, b))
    return plain, recs, find_doc(members)


def same_but_doc(c, got, orig, what, doc=None):
    """`got` must be `orig` with `doc` (JSON, a judge, or None: without any) as its
    metadata document."""
    gp, gr, gd = split(got)
    op, orr, _ = split(orig)
    c.eq([x[0] for x in gp], [x[0] for x in op], f"files of {what}")
    for g, o in zip(gp, op):
        c.check(g[2] == o[2], f"content of {g[0]} in {what}: {len(g[2] or b'')} bytes "
                              f"instead of {len(o[2] or b'')}")
        c.eq(g[1], o[1], f"member metadata of {g[0]} in {what}")
    want = {n: [r for r in rows if not is_top(r[0], DOC)] for n, rows in orr.items()}
    if doc is None:
        c.eq([d[0] for d in gd], [], f"metadata documents in {what}")
        c.eq(gr, want, f"RECORD of {what}")
        return
    c.eq(len(gd), 1, f"number of metadata documents in {what}")
    name, _, data = gd[0]
    for n, rows in gr.items():
        if n.rpartition("/")[0] != name.rpartition("/")[0]:
            continue
        mine = [r for r in rows if r[0] == name]
        c.eq(mine, [(name, digest(data), str(len(data)))], f"RECORD entry of {name} in {what}")
        c.eq([r for r in rows if r[0] != name], want[n], f"other RECORD entries of {what}")
    c.check(f"{name.rpartition('/')[0]}/RECORD" in gr, f"no RECORD beside {name} in {what}")
    if callable(doc):
        doc(data)
    else:
        c.eq(json.loads(data), doc, f"metadata document of {what}")


def toml(obj):
    """A TOML document for nested tables of strings, booleans and lists."""
    def string(v):
        return json.dumps(v, ensure_ascii=False).replace("\x7f", "\\u007f")

    def val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, (int, float)):
            return repr(v)
        if isinstance(v, str):
            return string(v)
        if isinstance(v, list):
            return "[" + ", ".join(val(x) for x in v) + "]"
        return "{" + ", ".join(f"{string(k)} = {val(x)}" for k, x in v.items()) + "}"
    lines = []
    for k, v in obj.items():
        if not isinstance(v, dict):
            lines.append(f"{string(k)} = {val(v)}")

    def table(path, d):
        scal = {k: v for k, v in d.items() if not isinstance(v, dict)}
        subs = {k: v for k, v in d.items() if isinstance(v, dict)}
        lines.append("[" + ".".join(string(p) for p in path) + "]")
        for k, v in scal.items():
            lines.append(f"{string(k)} = {val(v)}")
        for k, v in subs.items():
            table(path + [k], v)
    for k, v in obj.items():
        if isinstance(v, dict):
            table([k], v)
    return "\n".join(lines) + "\n"


def join_name(name, label):
    return name[:-4] + "-" + label + ".whl"
