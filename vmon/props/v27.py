"""V27 wheel file names: the pattern and the commands against a splitter written from the text."""
import os
import random
import zipfile

from vmon import env, gen, model, wheels
from vmon.core import Workload
from variantlib import constants

RULE = ("composed names (with and without build and label, hostile characters, digits leading other "
        "components, labels resembling tags and builds) and mutations of them (dashes, case, lengths, "
        "suffixes, characters), judged by the pattern and by the commands; distinct by name")
REQUIRED = ("plain", "build", "label", "build_and_label", "rejected", "long_label", "commands_label",
            "commands_plain", "commands_rejected", "roundtrips")
NAMES = ["pkg", "Some_Package", "a.b", "x", "1", "0abc", "py3", "none", "any", "p+q", "é", "名", "__", "..", "a!b",
         "cp312", "null", "2to3"]
VERS = ["1.0", "0", "1.0.dev1+local.2", "2!3.4", "a", "1_0", "null", "1.0.whl", "x" * 40]
BUILDS = ["1", "0abc", "2_x", "123.4", "9+x", "1é", "0"]
TAGS = ["py3", "cp39.cp310", "none", "any", "1", "0x", "linux_x86_64", "abi3", "x.whl", "null", "PY3", "é"]
LABELS = ["null", "a", "0", "1abc", "x" * 16, "any", "none", "py3", ".", "_", "a.b_c", "00000000", "any.whl"[:3]]
BAD_LABELS = ["", "A", "x" * 17, "a+b", "é", "٣", "a~b", "a b", "ſ", "K", "a\n"]


def compose(rng):
    name, ver = rng.choice(NAMES), rng.choice(VERS)
    build = rng.choice([None, rng.choice(BUILDS)])
    label = rng.choice([None, rng.choice(LABELS), gen.label(rng)])
    tags = [rng.choice(TAGS) for _ in range(3)]
    parts = {"name": name, "ver": ver, "build": build, "pyver": tags[0], "abi": tags[1], "plat": tags[2],
             "variant_label": label}
    return parts, "-".join([name, ver] + ([build] if build else []) + tags + ([label] if label else [])) + ".whl"


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        op = rng.randrange(8)
        k = rng.randint(0, len(s))
        if op == 0:
            s = s[:k] + "-" + s[k:]
        elif op == 1:
            dashes = [i for i, ch in enumerate(s) if ch == "-"]
            if dashes:
                k = rng.choice(dashes)
                s = s[:k] + rng.choice(["", "_", "."]) + s[k + 1:]
        elif op == 2:
            s = s[:k] + rng.choice("aA09._+~é٣ſK²!@:") + s[k:]
        elif op == 3:
            s = s[:k] + s[k + 1:]
        elif op == 4:
            s = s.removesuffix(".whl") + rng.choice(["", ".WHL", ".whl.zip", ".whl.whl", "whl", ".wh", "-.whl", ".whl~"])
        elif op == 5:
            s = s[:-4] + "-" + rng.choice(LABELS + BAD_LABELS) + ".whl"
        elif op == 6:
            s = "-".join(gen.shuffled(rng, s[:-4].split("-"))) + ".whl"
        else:
            p = s[:-4].split("-")
            p[-1] = p[-1] + rng.choice(["x" * 16, "A", "."])
            s = "-".join(p) + ".whl"
    return s


def expectation(s):
    parts = s[:-4].split("-") if s.endswith(".whl") else []
    if len(parts) > 2 and parts[2][:1].isdigit() and not parts[2][:1].isascii():
        raise model.Unknown("digit")
    if any(ch in s for ch in "/\0"):
        raise model.Unknown("no file name")
    return model.split_wheel_name(s)


def pattern(c):
    rng = c.rng
    rx = constants.VALIDATION_WHEEL_NAME_REGEX
    for _ in range(120):
        parts, s = compose(rng)
        six = s[:-4].split("-")
        if parts["build"] is None and len(six) in (6, 7) and six[2][0] in "0123456789":
            parts = None      # the third component would be a build
        if rng.random() < 0.5:
            s, parts = mutate(rng, s), None
        try:
            want = expectation(s)
        except model.Unknown:
            continue
        if parts is not None:
            c.eq(want, parts, f"splitting {s!r}")
        m = rx.fullmatch(s)
        got = None if m is None else {k: m.group(k) for k in
                                      ("name", "ver", "build", "pyver", "abi", "plat", "variant_label")}
        c.eq(got, want, f"components of {s!r}")
        c.distinct(s)
        if want is None:
            c.obs("rejected")
            continue
        base = s[:-4] if want["variant_label"] is None else s[:-5 - len(want["variant_label"])]
        c.eq(m.group("base_wheel_name"), base, f"name without label of {s!r}")
        c.eq(m.group("namever"), f"{want['name']}-{want['ver']}", f"name and version of {s!r}")
        c.obs("build_and_label" if want["build"] and want["variant_label"] else
              "build" if want["build"] else "label" if want["variant_label"] else "plain")
        c.obs("long_label", want["variant_label"] is not None and len(want["variant_label"]) == 16)


def commands(c):
    """The same decisions as seen by the commands."""
    rng = c.rng
    pt = c.tmp / "pyproject.toml"
    pt.write_text("")
    for _ in range(12):
        d = c.tmp / f"x{rng.random()}"
        out = d / "out"
        out.mkdir(parents=True)
        _, s = compose(rng)
        if rng.random() < 0.5:
            s = mutate(rng, s)
        try:
            want = expectation(s)
        except model.Unknown:
            continue
        if len(s.encode()) > 200:
            continue
        p = d / s
        label = (want or {}).get("variant_label") or "lab"
        doc = {"default-priorities": {"namespace": []}, "providers": {},
               "variants": {label: {} if label == "null" else {"n": {"f": ["v"]}}}}
        mem = wheels.contents(random.Random(1), ("p", "1", None, "", "", ""),
                              __import__("json").dumps(doc), simple=True)
        wheels.write(p, mem)
        c.distinct(s)
        an = env.cli("analyze-wheel", "-i", p)
        un = env.cli("unmake-variant", "-f", p, "-o", out)
        made_un = sorted(q.name for q in out.iterdir())
        out2 = d / "out2"
        out2.mkdir()
        mk = env.cli("make-variant", "-f", p, "-o", out2, "--no-isolation", "--pyproject-toml", pt, "--null-variant")
        made = sorted(q.name for q in out2.iterdir())
        ix = env.cli("generate-index-json", "-d", d)
        index = sorted(q.name for q in d.iterdir() if q.name.endswith("-variants.json"))
        ctx = f"{s!r}: {an} {un} {mk} {ix}"
        if want is None:
            c.obs("commands_rejected")
            c.check(not an.ok and not un.ok and not mk.ok, f"an invalid name was accepted; {ctx}")
            c.eq((made_un, made, index), ([], [], []), f"files written for an invalid name; {ctx}")
            continue
        lab = want["variant_label"]
        base = s[:-4] if lab is None else s[:-5 - len(lab)]
        c.check(an.ok and un.ok and mk.ok and ix.ok, f"refused: {ctx}")
        c.eq(made, [f"{base}-null.whl"], f"null variant made; {ctx}")
        c.eq(made_un, [] if lab is None else [f"{base}.whl"], f"wheel unmade; {ctx}")
        c.eq(index, [] if lab is None else [f"{want['name']}-{want['ver']}-variants.json"], f"index written; {ctx}")
        c.obs("commands_plain" if lab is None else "commands_label")
        if lab is None and (want["build"] or want["pyver"][0] not in "0123456789"):
            # appending a label and removing it gives the original name
            out3 = d / "out3"
            out3.mkdir()
            mk = env.cli("make-variant", "-f", p, "-o", out3, "--no-isolation", "--pyproject-toml", pt,
                         "-p", "a::b::c", "--skip-plugin-validation", "--variant-label", lab3 := gen.label(rng))
            new = out3 / f"{base}-{lab3}.whl"
            c.check(new.is_file(), f"no {new.name}: {mk}")
            back = d / "back"
            back.mkdir()
            un = env.cli("unmake-variant", "-f", new, "-o", back)
            c.eq([q.name for q in back.iterdir()], [s], f"label {lab3} appended and removed; {un}")
            c.obs("roundtrips")


WORKLOADS = [Workload(pattern, 1200, 20000), Workload(commands, 180, 3000)]
