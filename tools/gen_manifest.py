#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties the simulator implements."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = subprocess.run([root + "/sim/target/debug/sim", "list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
TRUST = " Trusts the simulator's own reference model (sim/src/model.rs, tables.rs, acc.rs, crypto.rs); no statement beyond the seeds explored."
N = {
 "C01": ("seeded traffic simulation with channel faults, judged by the sender's frame model", "Seeded exploration of telegrams inside faulty traffic; every intact delivery is judged by the frame the sender built."),
 "C02": ("seeded channel-fault simulation against a reference acceptor", "Seeded exploration; every delivered byte string is judged both ways by an independent FT1.2 acceptor."),
 "C03": ("seeded radio simulation, judged by the telegram before CRC insertion", "Seeded exploration over the three radio encodings and all lengths inside faulty traffic."),
 "C04": ("seeded block-damage simulation against a reference format A acceptor", "Seeded exploration of damage to CRC blocks, judged both ways by an independent acceptor; damage that keeps all CRCs valid is by nature accepted."),
 "C05": ("seeded hostile-input simulation with panic, step and watchdog detection", "Seeded exploration of all public entry points with overflow checks on; a run without progress for 60 s counts as a hang."),
 "C06": ("seeded meter simulation, exact decimal reference", "Seeded exploration over codings, widths, signs, scales and corrections; floats compared within 2e-14 relative."),
 "C07": ("seeded meter simulation plus every single code once, pinned code tables", "Directed sweep of every code and every header position, then seeded combinations. Quantity names and units are pinned from the repaired tree after review against EN 13757-3."),
 "C08": ("seeded meter calendar simulation plus all two-byte dates", "Exhaustive over type G dates and single bytes of types F and I, seeded beyond that."),
 "C09": ("seeded simulation with byte-conservation check", "Seeded exploration; every byte of every completely decoded payload is accounted for."),
 "C10": ("enumeration of every cut point of seeded payloads", "For each seeded payload every possible cut is tried; payloads themselves are sampled."),
 "C11": ("paired runs with and without value damage, and permuted runs", "Seeded exploration of paired executions."),
 "C12": ("seeded reader schedules incl. token-passing threads", "Seeded exploration of step/clone/drop/restart schedules against one uninterrupted reading."),
 "C13": ("seeded encrypting meters with own AES implementation", "Seeded exploration over modes, header kinds, lengths, access numbers; own AES checked by a published vector at start."),
 "C14": ("key-source and buffer fault injection", "Seeded exploration of missing, wrong, failing and malformed keys, unsupported modes, small buffers."),
 "C15": ("seeded operation histories against a map model", "Seeded exploration of add/lookup histories at several capacities."),
 "C16": ("seeded request schedules over threads, forks and restarts, history check", "Seeded exploration of orders; threads pass a token and can be switched at every allocation and marked point, while the clock and the environment change; switches between other instructions are not explored."),
 "C17": ("cross-format comparison under faulty traffic", "Seeded exploration; JSON is the hub, other formats are parsed independently."),
 "C18": ("seeded spelling and text-damage simulation against a strict tokenizer", "Seeded exploration of spellings and damage; judged both ways."),
 "C19": ("tiling invariant over faulty traffic", "Seeded exploration over intact, damaged and encrypted telegrams."),
 "C20": ("seeded hostile text with independent parsers per format", "Seeded exploration; JSON and YAML parsed by serde libraries, XML and CSV by own strict parsers."),
 "C21": ("system-call fault injection into the real command line process", "Every read and write of the process can be interrupted, shortened or failed by a preloaded shim; fault kinds and positions are seeded; only calls going through libc are seen."),
 "C22": ("failing sinks, every failure position enumerated", "For each seeded document every sink failure position (bounded) is tried."),
 "C23": ("allocation-denying global allocator", "Any allocation inside a low-level call is counted and fails the run."),
 "C24": ("paired runs on fresh and dirty reused buffers", "Seeded histories of telegrams through shared buffers of all sizes."),
 "C25": ("seeded multi-meter traffic, sender identity as reference", "Seeded exploration over all header kinds inside mixed traffic."),
 "C26": ("polled readout protocol simulation, exactly-once and bounded liveness", "Seeded exploration of a polling master over a faulty bus; the master's decisions come only from the parser's output."),
 "C28": ("documents damaged on the way to the page, markup read back", "Seeded exploration over rendered, garbled and free text in every language; the wrapper runs natively, not in a browser."),
 "C29": ("seeded call histories into a real Python interpreter and the native JavaScript wrapper", "Seeded exploration; Python answers are compared with the library called directly. JavaScript error objects cannot be built natively, so refusals there are only recognised, not read."),
 "C30": ("the record, cut, damage, format and annotation simulations in the text-first build", "Seeded exploration in a build with the feature plaintext-before-extension; the same oracles as C06, C07, C09, C10, C11, C17 and C19."),
}
NA = {
 "C27": "Constant lookup table: nothing depends on schedule, time, I/O or several parties, so simulation adds nothing over a plain table test.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA or i not in have:
        continue
    level = "fault_enumeration" if i in ("C10", "C22") else "exploration"
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation: " + N[i][0],
                   "level": level, "level_note": N[i][1] + TRUST})
na = [{"property": i, "reason": r} for i, r in NA.items()]
na += [{"property": p["id"], "reason": "Check not written yet."} for p in props if p["id"] not in have and p["id"] not in NA]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One simulator (sim/) serves all checks. ./check.sh ID builds it against /repo's working tree and runs it; sim replay FILE repeats a violation. No hooks in /repo."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
