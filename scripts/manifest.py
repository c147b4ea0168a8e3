#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "seeded schedules of 1-8 callers on shared matchers, statement-level switches, race detector, reference model of the documented verdicts; quick: about 60 s of runs",
 "C02": "as C01, with read-only mapped, canary-padded and reused buffers",
 "C03": "documents damaged at every kind of place, before, between and concurrent with good ones; statistics reconciled",
 "C04": "exact reconciliation of all counters with the model after each run",
 "C05": "snapshots at scheduler-chosen moments checked against bounds from begun and returned calls",
 "C06": "reader delivery patterns drawn per run, compared with the string parse",
 "C07": "reader failure at drawn bytes in all delivery styles, with and without data",
 "C08": "interleaved parse/compile calls compared with each text alone, race detector",
 "C09": "visitor actions at drawn nodes compared with the model walk",
 "C10": "tape operations at drawn nodes compared with a list model",
 "C11": "writer failures at drawn bytes, interleaved printers, race detector",
 "C12": "histories of good and damaged documents compared with a counting model",
 "C13": "as C12 with a sampler per task, shared document bytes, race detector",
 "C14": "file faults at drawn bytes (seams, /dev/full, size limits), interleaved graphs, uses of the C library checked for ordering by the race detector",
 "C15": "one process per run; faults at drawn bytes of both files",
 "C16": "interleaved requests, file replacement, faults and clock jumps against the real net/http handlers without sockets",
 "C17": "simulated clock and zone changes during runs, compared with the model's instants",
 "C18": "histories of queries against a stub JavaScript host, natively compiled",
 "C19": "schedules with stalled tasks; deadlock, spinning and step-budget detection",
 "C26": "the command's main with faults at drawn bytes of the output file (seams, /dev/full, size limits), over existing files, compared with the lone rendering",
 "C27": "interleaved readers of shared trees, errors and messages beside parses, compilations and owners that change their own trees; race detector",
 "C28": "the command's main with standard output failing at drawn bytes; verdict and statistics compared with the model and a lone evaluation",
 "C29": "histories of thousands of calls with distinct inputs of one to three kinds; bytes in use and goroutines compared between phases",
 "C30": "visitors, readers, writers and messages that panic at drawn points, beside calls compared with each alone; deadlock and race detection",
 "C31": "traced parses interleaved with other calls, standard output failing at drawn bytes; results compared with untraced ones, bytes printed with lone traces",
}
NA = {
 "C20": "A single match is a pure function of (query, document): there is no schedule, clock, fault or interleaving for a simulator to decide. The reference model that C01-C05 use as oracle does compare documented verdicts, but only as the specification of the concurrent history.",
 "C21": "Pure function of the query text with no schedule, clock or fault in it.",
 "C22": "Pure function of the query text with no schedule, clock or fault in it.",
 "C23": "Pure function of (query, position, width); the writer side, which does meet faults, is C11.",
 "C24": "A performance property of a pure function of the query text: simulated steps say nothing about wall-clock cost, and no schedule or fault is involved.",
 "C25": "Pure function of the query text; output faults and interleavings of graph construction are C14 and C26.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert set(ids) == set(NOTE) | set(NA), set(ids) ^ (set(NOTE) | set(NA))
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"bash run.sh check {i} quick",
        "thorough_cmd": f"bash run.sh check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTE[i],
    })
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
