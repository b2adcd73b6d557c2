#!/opt/venv/bin/python
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
H = pathlib.Path(__file__).resolve().parent.parent
MARK = "## Planted bugs"
rows = []
for d in sorted((H / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['what_it_breaks']} | {m['needs']} | {m['property']}{m.get('also', '')} |")
p = H / "DESIGN.md"
s = p.read_text().split(MARK)[0].rstrip() + "\n\n"
s += f"""{MARK}

{len(rows)} in `seeded/`, each written from a property and the code before looking at what the check covers, and
kept whether caught or not; "caught by" names the quick check which reports it (all seeds used so far).
Several were missed at first and led to stronger checks: V11/V15 (rarer scenarios made frequent),
V16 (environment of the caller with nothing preset), V23 (files named like the metadata document),
V26 (input index under a name of its own), V28 (empty files), V30 (long value lists), V31 (many remembered
answers while another thread asks new questions), V32 and V22/V23 (names at the limit of the file system),
V09 (hundreds of values), V38 (settings of the process other than the usual), V39 (elements of equal text, named
validators), V40 (commands which cannot succeed; settings files in other directories).

| bug | what it breaks | needs | caught by |
|-----|----------------|-------|-----------|
""" + "\n".join(rows) + "\n"
p.write_text(s)
