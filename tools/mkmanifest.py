#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, pathlib
HERE = pathlib.Path(__file__).resolve().parent.parent
TECH = {
 "V01": "runtime monitoring: hash oracle recomputed from the trace, child interpreters under several hash seeds",
 "V02": "runtime monitoring: round-trip monitor and independent parser as oracle",
 "V03": "runtime monitoring: independent well-formedness oracle over hostile constructor calls",
 "V04": "runtime monitoring: independent document reader as oracle over mutated documents",
 "V05": "runtime monitoring: round-trip, determinism and aliasing monitors",
 "V06": "runtime monitoring: merge-history monitor against a union model",
 "V07": "runtime monitoring: deep-snapshot argument monitors around every API call",
 "V08": "runtime monitoring: filter oracle and metamorphic observation",
 "V09": "runtime monitoring: pairwise order oracle over rankings",
 "V10": "runtime monitoring: aggregation oracle, differential observation of user settings",
 "V11": "runtime monitoring: reference resolver over full scenarios with instrumented plugins, processes and histories",
 "V12": "runtime monitoring: independent reader of installed packages as oracle, hostile environments",
 "V13": "runtime monitoring: differential monitor between check and selection",
 "V14": "runtime monitoring: label/marker oracle",
 "V15": "runtime monitoring: trace monitor over plugin import/run events",
 "V16": "runtime monitoring with fault injection in plugins: isolation, containment and leak monitors (audit hooks, process and file snapshots)",
 "V17": "runtime monitoring: end-to-end relay monitor with hostile plugin answers",
 "V18": "runtime monitoring: query histories compared with fresh-process answers",
 "V19": "runtime monitoring: life-cycle automaton checked online over random call sequences",
 "V20": "runtime monitoring: verdict oracle",
 "V21": "runtime monitoring: reference metadata builder as oracle, instrumented plugins",
 "V22": "runtime monitoring: archive differ over hostile wheels, CLI runs",
 "V23": "runtime monitoring: archive differ over make/unmake histories",
 "V24": "runtime monitoring with fault injection: LD_PRELOAD shim fails or kills at every I/O call, directory invariants checked after each",
 "V25": "runtime monitoring: index oracle over hostile directories and file orders",
 "V26": "runtime monitoring: histories of additions against batch generation, file snapshots",
 "V27": "runtime monitoring: independent name parser as oracle over composed and mutated names",
 "V28": "runtime monitoring: configuration oracle over file combinations",
 "V29": "runtime monitoring: edit oracle over hostile TOML layouts, file snapshots",
 "V30": "runtime monitoring: output oracle over CLI runs, file-system and audit monitors",
 "V31": "runtime monitoring: controlled thread schedules (hand-overs at chosen line/bytecode events) and stress with injected delays; recorded call/return histories compared with the calls made alone",
 "V32": "runtime monitoring with fault injection: LD_PRELOAD shim fails or kills at every I/O call, file invariants checked after each",
 "V33": "runtime monitoring: real isolated environments and installers over a local package index, audit of installer calls, event logs of plugins inside",
 "V34": "runtime monitoring: the same scenario run in differently set up processes, outputs and files compared",
 "V36": "runtime monitoring: end-to-end histories of making, indexing, selecting and unmaking against a reference selector",
 "V37": "runtime monitoring: pairwise comparison, hash and mutation monitors over colliding objects",
 "V38": "runtime monitoring with injected interruptions: process-state, descriptor, child, file and living-object monitors around every call",
 "V39": "runtime monitoring: reference validators as oracle over generated type expressions and walks, recorded calls",
 "V40": "runtime monitoring: equivalent argument forms run side by side, output, file and plugin-event monitors",
 "V41": "runtime monitoring: concurrent processes with injected delays, watcher of every file state, sequential runs as oracle",
 "V35": "runtime monitoring: CPU-time monitor with interruption over growing inputs and awkward texts",
}
NOTE = ("Holds on every execution observed (counts in the evidence file); says nothing of inputs, schedules or "
        "fault points not reached. Trusts the oracle in /verif/vmon, CPython and its standard library.")
NOTES = {
 "V24": "Every I/O call of the conversions observed is failed and killed at, for sampled wheels; power loss "
        "(unsynced data) is not modelled. Trusts the LD_PRELOAD shim and zipfile as reader.",
 "V32": "Every I/O call of the commands observed is failed and killed at, for sampled files; power loss (unsynced data) is not modelled. Trusts the LD_PRELOAD shim.",
 "V35": "Growth is measured up to sizes taking a fraction of a second; costs of smaller degree than the margin, and memory, are not judged.",
 "V41": "Interleavings are sampled: processes started at once with random delays at library lines; the watcher polls, so states shorter than its period may be missed.",
 "V31": "Schedules are sampled: pairs of calls with up to four hand-overs per thread at chosen line or bytecode events of the library, and free-running threads with injected delays. Interleavings inside C code and the standard library are not controlled.",
}
props = [json.loads(l) for l in (HERE / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    pid = p["id"]
    mod = HERE / "vmon" / "props" / f"{pid.lower()}.py"
    if not mod.exists():
        na.append({"property": pid, "reason": "check under construction"})
        continue
    level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in mod.read_text() else "exploration"
    checks.append({"property": pid, "quick_cmd": f"./run.py {pid} --tier quick",
                   "thorough_cmd": f"./run.py {pid} --tier thorough", "technique": TECH[pid],
                   "level": level, "level_note": NOTES.get(pid, NOTE)})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q vmon run.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors attach from outside (audit hooks, instrumented plugins, CLI capture, "
              "LD_PRELOAD fault shim built by V24's check from vmon/native/faultio.c)."}
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "n/a")
