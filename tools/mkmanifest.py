#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules which exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "online acceptance monitor on real matches, oracle: independent recogniser of the generated grammar",
    "C02": "online verdict monitor (partial / failure / position), oracle: independent prefix recogniser",
    "C03": "action-trace monitor, oracle: reference interpreter over enumerated derivations",
    "C04": "silence monitor: action recorder and output stream during rejected and looked-up lines",
    "C05": "action-trace, print and parameter monitor, oracle: reference evaluator of action programs",
    "C06": "resolution monitor, oracle: ranking of all enumerated readings of the line",
    "C07": "suggestion-set monitor (results and screen rows), oracle: reachable leaves of the reference interpreter",
    "C08": "line-buffer monitor after every key of scripted sessions, oracle: possible continuations; stability monitor",
    "C09": "token-sequence monitor, oracle: reference splitter, plus fresh-instance comparison for history independence",
    "C10": "value monitor on strings through every path to a handler, oracle: the generated content and documented escapes",
    "C11": "token API monitor over exhaustive small and random large ranges, oracle: exact arithmetic on the definition",
    "C12": "differential history monitor: every line of a long session against a fresh CLI, plus retained-value monitor",
    "C13": "differential layout monitor and rejection monitor over corrupted grammar texts",
    "C14": "handler-call monitor on generated command classes, oracle: reference interpreter",
    "C15": "status, argument delivery and argument list monitor, oracle: reference interpreter and given arguments",
    "C16": "event-log checker (exactly once, in order) over scripted sessions with failing handlers and interrupts",
    "C17": "event-log checker over random file trees with failing lines, faults and input requests, oracle: file stack model",
    "C18": "event-log checker over nested context sessions, oracle: context stack model",
    "C19": "schedule exploration with delayed handlers; every session's event log against its solo run",
    "C20": "token API monitor over changing directory trees, oracle: own directory listing",
    "C21": "stream monitor on process stdout/stderr (objects and descriptors) and configured streams under hostile workloads",
    "C22": "recording token classes (call monitor) with injected faults, oracle: reference interpreter with table-driven classes",
    "C24": "event-log, line-buffer and output monitor over scripted sessions, oracle: history and request model",
    "C25": "leak monitor (memory blocks, tasks, descriptors, warnings, lost exceptions) over long series of operations",
    "C26": "state, event-log, line-buffer and screen monitor over sessions of an application with state-dependent tokens, oracle: model of the application",
    "C27": "event-log monitor over sessions entering the same lines on many ways, oracle: the line run alone in a fresh object",
    "C23": "differential monitor: the same history with and without timing and profiling",
}
NOTE = ("Runtime monitoring of the real code over generated workloads: every violation reported is a concrete failing "
        "execution; absence is shown only for the executions observed (counts in evidence/%s.json). Trusts the reference "
        "model in harness/gram.py or the check module, CPython, ply, and the scripted keyboard in place of nessaid_readline's key source.")
checks, missing = [], []
for i in range(1, 40):
    pid = "C%02d" % i
    if pid not in T:
        continue
    if os.path.exists(os.path.join(HERE, "harness", "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "./run.sh " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": T[pid], "level": "exploration", "level_note": NOTE % pid})
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1)
    fd.write("\n")
print(len(checks), "checks,", len(missing), "missing")
