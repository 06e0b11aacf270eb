#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json

BASE = "runtime monitoring of the release build with debug assertions and overflow checks"
T = {
 "C01": ("round-trip monitor over generated values, compared field by field with an independent model; AddressSanitizer in thorough", "sampled values of every kind, lists up to 130k elements"),
 "C02": ("monitor comparing every encoding byte for byte with an independent reference encoder", "the reference encoder transcribes the documented layout"),
 "C03": ("hostile-input monitor on guard pages, with allocation accounting, panic and hang detection, and AddressSanitizer", "mutation-based byte strings; one listed finding (fuel-asm drops instruction bits of panic receipts)"),
 "C04": ("fault injection: every truncation point, malformed field and short buffer, on guard pages and under AddressSanitizer", "small values exhaustively cut, larger ones sampled"),
 "C05": ("monitor comparing every id with an independent SHA-256 of the reference signing form", "sampled transactions of all kinds"),
 "C06": ("metamorphic monitor: one change per run, id must move exactly when the field is committed", "sampled single-field changes of all fields"),
 "C07": ("monitor of the signature verdict against an independent secp256k1 recovery", "trusts libsecp256k1; adversarial witnesses sampled"),
 "C08": ("trace monitor of signing: before/after comparison with an independent recovery of every witness", "trusts libsecp256k1"),
 "C09": ("monitor of accept/reject verdicts against an independent list of broken rules, boundary-driven workload", "the rule set is transcribed from the protocol rules"),
 "C10": ("monitor of mint verdicts against an independent list of broken rules, boundary-driven workload", "the rule set is transcribed from the protocol rules"),
 "C11": ("monitor of fee and refund arithmetic against 128-bit reference arithmetic, with overflow checks on", "operands sampled around every overflow edge"),
 "C12": ("conservation monitor: balances against 128-bit per-asset reference sums", "sampled transactions with money faults"),
 "C13": ("audit of every checked value obtained: its claims against reference verdicts on the content it holds", "trusts libsecp256k1"),
 "C14": ("monitor locating every reported offset in the real and the reference encoding", "sampled transactions of all kinds"),
 "C15": ("history monitor: the same questions to a value with and without cached data after random edits", "sampled edit histories"),
 "C16": ("round-trip and accessor monitor for receipts against an independent model and encoder, dirty buffers", "one listed finding (fuel-asm drops instruction bits of panic receipts)"),
 "C17": ("monitor of code roots, state roots and contract ids against an independent Merkle implementation", "sampled codes up to several chunks, slot sets of up to dozens"),
 "C18": ("hostile-text monitor for parsing and printing against a reference parser", "sampled and mutated text"),
 "C19": ("round-trip monitor for JSON and binary serde, hostile JSON, panics and mis-parses detected", "sampled and mutated text"),
 "C20": ("before/after monitor of preparation against the reference zeroing rules", "sampled transactions of all kinds"),
 "C21": ("history monitor: random builder call sequences shadowed by a model, every finaliser compared", "sampled call sequences"),
 "C22": ("monitor of every parameter setter against an independent record; offsets recomputed", "sampled values"),
 "C23": ("differential runtime monitor: two processes, built with and without std, answer the same cases", "both builds run on the host target"),
 "C24": ("history and interleaving monitor in forked processes, threads with injected delays, ThreadSanitizer with an instrumented standard library", "sampled histories and interleavings"),
 "C25": ("monitor of every component query against an independent model", "sampled components of every kind"),
 "C27": ("metamorphic monitor: pairs that differ in one place or none, ==, hash and order against the models'", "sampled pairs of all kinds; hashes through the default hasher"),
 "C28": ("history monitor: random edits shadowed by a model, every field and byte compared after each", "sampled edit sequences below 256 witnesses"),
 "C29": ("conversion monitor: witnesses edited next to a byte vector, every conversion taken there and back and compared with its parts", "sampled values, words and generator states"),
 "C26": ("monitor of message ids, nonces and digests against independent SHA-256 preimages", "sampled values"),
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    t, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": t,
        "level": "exploration",
        "level_note": f"{BASE}; {note}. Holds on the executions observed, counted in the evidence file.",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check builds the harness crates in /verif/harness and /verif/nostd against /repo's working tree. KNOWN_FINDINGS lists the findings and the repaired defects.",
}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks))
