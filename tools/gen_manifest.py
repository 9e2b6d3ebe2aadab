#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {
 "C01": "seeded search over stream deliveries and connection schedules against the sent values and an independent SSZ model; assumes contract-abiding readers",
 "C02": "seeded search over sink failure points and styles; oracle: an independent canonical encoder; assumes sinks report what they do not accept",
 "C03": "seeded search over cut points, error kinds and deliveries; every cut is judged by what was delivered",
 "C04": "seeded search over storage and transmission corruption; oracle: an independent strict decoder (trusted: sim/ref)",
 "C05": "differential: decode and dry check over the same damaged, cut and fragmented streams",
 "C06": "seeded histories of one destination; oracle: the same decode into a fresh destination, plus memory-region disjointness",
 "C07": "seeded statement-level schedules of tasks sharing definitions and values; oracle: the same operation run alone; sequentially consistent interleavings only",
 "C08": "seeded histories of several parties with hash-function switches and aborted computations; oracle: an independent hash-tree-root and branch verifier",
 "C09": "forced collections and stack moves at seeded statements and callbacks, guard pages, sentinels, clobbered freed memory; notices strays that touch those or upset the collector",
 "C10": "seeded arbitrary inputs over two deliveries each; oracle: independent validity rules, re-encoding and strict decoding",
 "C11": "seeded callback panics and endless stalls inside operations; oracle: the same operations run alone",
 "C12": "hostile offsets and announced lengths over short and interrupted streams; allocation measured per operation against a bound derived from the type",
 "C13": "differential: raw-memory path and flipped endianness flag over the same operations and stream faults; a big-endian host's memory is modelled, not real",
 "C14": "simulated misbehaving components inside larger types, reading and writing; oracle: what each component saw and the model's layout",
 "C15": "simulated file with crashes inside writes, lost unsynced suffixes, full disks and read errors over several generations; oracle: the list of records written",
 "C16": "seeded frames (intact, damaged, arbitrary) on one stream or connection; the receiver skips what a rejected frame leaves; oracle: frame boundaries and the values sent",
 "C17": "seeded mixes of successful, failing and aborted operations repeated hundreds of times; retained heap measured after forced collections, growth confirmed over four times as many rounds",
 "C18": "statements, hash calls and leaf reads counted per operation against a bound derived from type and input size; fault kinds: hostile lengths, cuts, fragmentation",
 "C19": "seeded stream and sink failures with error values of their own; errors.Is must find them in what is returned",
 "C20": "seeded operations started inside callbacks of others, up to three levels, next to other tasks; oracle: each operation run alone; other goroutines interleave at callbacks and statements",
 "C22": "values of up to 16 GiB and more in reserved memory that is never touched, streams and sinks that keep only non-zero bytes, cut, failing, damaged or announced with another length around 2^31 and 2^32; oracle: a sparse model of the format and its merkle trees; roots are computed for bitlists and byte lists",
 "C23": "seeded exchanges of values at and between the bounds over fragmenting and failing streams, announced lengths out of bounds, fuzz mode on the least input; oracle: bounds of the independent type model and the real sizes; bounds beyond 2^64 compared with the model only",
 "C24": "seeded prints with nil pointers, failing, panicking and stalling sinks, several tasks; oracle: names and order from the type model, prints of equal values and of values that differ in one leaf",
 "C25": "seeded histories of bit operations and transfers over fragmenting and failing streams, foreign and damaged bytes; oracle: independent bit arithmetic and the model's decoder",
 "C26": "seeded programs on the reader and the writer of components, nested scopes, refused operations, ending and failing streams and sinks; oracle: exact accounting of position, span, bytes and errors",
 "C21": "seeded histories of constructions with different factories, failures, panics and stalls inside them; oracle: the independent model for the type and factory of each definition",
}
na = {}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in na:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection, seeded search",
        "level": "exploration",
        "level_note": notes[p["id"]],
    })
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "Nothing in /repo is guarded: scheduling points are inserted by a build overlay generated from /repo's working tree at check time (sim/cmd/instr), so no hooks are listed. Fixed defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
