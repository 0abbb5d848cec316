#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
acc = "generated-input search against MPFR / an exact reference model"
T = {
 "C01": acc + "; differential between the arch, soft and intrinsics builds; near-midpoint inputs by Hensel lifting",
 "C02": acc + "; cancellation, sparse-product and subnormal generators",
 "C03": acc + "; complete sweeps of the 16- and 32-bit formats in three builds",
 "C04": "generated-input search against exact integer remainders",
 "C05": "generated-input search against exact models; complete 16- and 32-bit sweeps",
 "C06": "generated-input search against a reference model over operand-pair classes",
 "C07": "generated-input search against bit-level models",
 "C18": "generated special-operand search against the C standard's table of values",
 "C19": "guided fuzzing with branch and comparison feedback of an overflow-checked build, with a deterministic step limit",
 "C20": "differential search across five builds, and generated call histories from several threads",
 "C21": "differential search of each method against the free function",
 "C22": "metamorphic relations over generated inputs",
 "C23": "generated literals against an exact rational reference parser; round trips",
 "C24": "generated operations against arbitrary-precision integers",
 "C25": "generated inputs against models of the encoding and exact integers",
 "C26": "generated-input search of the generic routines (as compiled where no specialised code exists) against MPFR and exact models; complete 16- and 32-bit sweeps",
 "C28": "differential search of each C symbol, called through the C calling convention, against the Rust function",
 "C29": "generated operations, iteration counts and seeds; the whole generated set against a model of the set",
 "C30": "generated command lines, each run as a process, against an exact reading of the notation and the function called directly",
 "C31": "generated macro invocations, each compiled and run, against a model of what the callback must be given; generated names against the table",
 "C27": "generated ranges, expected/actual pairs and calls against exact arithmetic on float order positions and an independent MPFR reference",
}
sweep = "Complete sweeps of f32 unary functions"
NOTE_ACC = "Unary 32-bit functions are swept completely or at a small stride; 64-bit, 128-bit and multi-argument functions are sampled by structured, constant-mining and coverage-guided generators, so absence is not established for them. Trusts MPFR (via rug); a glibc screen may accept clear cases, 1 in 1024 of which are re-decided."
NOTE = {
 "C19": "A sampled search: panics and overflows are those the debug-assertion and overflow-check build raises; loops are bounded by a deterministic count of executed branch edges.",
 "C20": "Sampled; x86-64 builds only.",
 "C21": "Sampled; the set of methods is the one listed at the pinned commit.",
 "C28": "Sampled; complete for 16-bit unary symbols; the list of symbols is that of the pinned commit.",
 "C29": "Complete sets are examined for sampled (operation, iteration count) pairs; edge cases and defaults for every operation.",
 "C30": "Sampled; one process per case; the musl basis, whose sources are not in the sandbox, is left out.",
 "C31": "Sampled; one compilation per case; the set of operations is that of the pinned commit.",
 "C22": "Sampled, complete for 16-bit unary relations; relations hold bit for bit.",
}
claimed = os.environ.get("CLAIMED")
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NA = json.load(open(f"{here}/tools/not_applicable.json")) if os.path.exists(f"{here}/tools/not_applicable.json") else {}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough", "technique": "property-based testing: " + T.get(i, acc + "; coverage-guided search; 32-bit sweeps"),
        "level": "exploration", "level_note": NOTE.get(i, NOTE_ACC if i <= "C18" else "Sampled by structured generators against an exact reference; 16-bit spaces enumerated where stated in the evidence.")})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use only the public API (and the unstable-public-internals feature the crate already has). Thorough tier: --thorough. Replay: ./check <ID> --replay <file>."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
