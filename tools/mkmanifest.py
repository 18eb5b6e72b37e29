#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand; the output is committed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "N01": "Pure functions of their input (TLV encoding and decoding): no concurrency, time, I/O, randomness or other party for a simulator to control; property-based or exhaustive round-trip testing is the right family. The encodings that travel (onion messages, payloads, blinded data, reply paths) are still exercised end to end against an independent codec by C01, C03 and C04.",
 "N02": "Pure hash computation over bytes; nothing for a scheduler or fault injector to vary.",
 "N03": "Pure validation of a decoded structure; nothing for a scheduler or fault injector to vary.",
 "N04": "Pure string decoding; nothing for a scheduler or fault injector to vary (that concurrent DecodeOffer calls do not disturb each other is part of C17).",
}
note = ("Seeded search: every run is one deterministic execution of the real boltnd (instrumented from /repo's working tree) with real sphinx cryptography between simulated nodes, "
 "lnd, peers, clients, clock and scheduler under the simulator; the oracle is an independent reference model over the recorded history. "
 "A clean result is evidence over the sampled schedules, inputs and faults, not proof. Trusts the instrumenter, the runtime, the model of lnd and the oracle in /verif/sim; "
 "tasks switch at statement and synchronisation boundaries, so data races below a statement are out of reach.")
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {
  "guard": "none in /repo: the seams (channels, goroutines, mutexes, timers, contexts, randomness, lndclient.NewLndServices) are put in by a source-to-source pass over a copy (tools/instr) used through go build -overlay; /repo itself carries no hooks",
  "enable": "bash tools/build.sh OUTDIR",
  "source_commits": [],
 },
 "checks": [dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
   evidence_file=f"evidence/{p['id']}.json", technique="deterministic simulation with fault injection (seeded schedule and fault search)",
   level="exploration", level_note=note) for p in props if p["id"] not in NA],
 "not_applicable": [dict(property=k, reason=v) for k, v in NA.items()],
 "notes": "replay a violation: bash replay.sh FILE. BOLTSIM_SECS overrides the search time of a check.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
