#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
note = {
 "C01": "Seeded runs over documents and delivery schedules of the reader, byte-exact round trip. Trusts the simulated reader to keep to the io.Reader contract.",
 "C02": "Seeded runs over documents, filter chains and chunkings, against the one-shot result and the segmentation of the whole text by uax29.",
 "C03": "Seeded runs over HTML documents and chunkings, against a reference built from the x/net/html tokenizer's raw bytes and the text segmentation.",
 "C04": "Seeded runs with one of 13 read errors at any byte, with or without data, and a source that afterwards fails, ends or carries on; all consumption paths.",
 "C05": "Seeded runs with a sink failing at any byte in several manners, exact accounting of accepted bytes.",
 "C06": "Seeded histories of calls on a stream and streams derived from it, against a list-based reference model, with failing sources.",
 "C07": "Position of the source checked at every read against tokens handed out; live memory measured over 1 MB streams (a suspected growth is confirmed on 6 MB).",
 "C08": "Seeded scheduler decides every interleaving at statement granularity (random and PCT priorities); each stream compared with its solo run; race detector sees only the code's own synchronisation. Fresh-process runs cover lazily built package-level filters.",
 "C09": "Seeded interleavings of operations on several streams sharing filters; results compared with solo runs, tokens re-read later, reader buffers scribbled on.",
 "C10": "Seeded runs against a reference replacement over the whole upstream; random dictionaries and the shipped ones.",
 "C11": "Seeded runs: stream result compared with the concatenation of per-token results, sigil model, and stage-by-stage composition.",
 "C12": "The real main on a simulated OS; faults at open, read, create, write, close at any byte; exit status, stderr and exact output judged.",
 "C13": "The real main on a simulated OS that records every file mutation; refused invocations with old output contents.",
 "C14": "The real handler with concurrent simulated requests under the seeded scheduler and the race detector; failing bodies and clients.",
 "C15": "Unbuildable dictionaries used repeatedly and concurrently under the seeded scheduler and the race detector.",
 "C16": "Every map iteration of the code is rewritten to a seeded order; results under several orders compared; generators byte for byte.",
 "C17": "The real generators against a simulated server, disk and clock, with 13 kinds of fetch fault and disk faults.",
 "C18": "The real Stack Overflow generator on a simulated clock and network; timed request history judged.",
}
na = {
 "C19": "A data structure of plain method calls: no scheduling, time, I/O or fault for a simulator to decide. (Queues are exercised through C06, C10 and C11.)",
 "C20": "A pure function from string to string: no schedule, clock or fault can influence it, so simulation adds nothing over unit tests and enumeration.",
 "C21": "A pure predicate on the characters of one token, without schedule, time, I/O or faults.",
 "C22": "Static tables and pure predicates over one token, without schedule, time, I/O or faults. (How they act on streams is C11.)",
}
checks = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    checks.append({
        "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, deliveries and faults",
        "level": "exploration", "level_note": note[i],
    })
m = {
 "version": 1, "setup_cmd": "./check setup",
 "hooks": {"guard": "none in /repo: instrumentation is a go build overlay", "enable": "cmd/instrument rewrites copies of /repo's current source (yield points, seams for os, sync, map order, listener) and the harness is built with -overlay", "source_commits": []},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
 "notes": "./check replay FILE repeats a recorded violation. VERIF_SEED selects the seeds; VERIF_SECONDS overrides a check's time budget. Known findings (all repaired): known_findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
