#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": ("proptest differential against a reference client", "Generated states and headers with no, one or two faults; the hash is under the generator's control through the hook, or real on headers mined offline."),
 "C02": ("stateful proptest against a reference client", "Generated chains across epoch boundaries; every output is compared after every step."),
 "C03": ("proptest + constraint-directed forging search", "Inputs, header bits and digest bits fixed, everything else searched within a budget, guided by honest witnesses of neighbouring cases; inconclusive searches are counted, not claimed."),
 "C04": ("proptest over gadget programs, metamorphic over witnesses", "Random programs over all gadgets and the header step, synthesized with two witnesses and with none; the recorded constraint systems must be identical."),
 "C05": ("stateful proptest over proved chains with tampering", "Generated chains are folded with nova over four engines; verification must return the reference state and fail under tampering."),
 "C06": ("proptest against the integer comparison", "Generated operands over seven fields, weighted to boundaries; every witness is checked against every constraint."),
 "C07": ("proptest + constraint-directed forging search", "Every constraint of the gadget is searched for a second assignment; small widths and fields are decided exhaustively, large ones by propagation within a stated budget."),
 "C08": ("proptest against a sorted-list median", "Generated timestamp lists of every length, with ties and extremes."),
 "C09": ("proptest + constraint-directed forging search", "Inputs fixed, everything else searched within a budget; inconclusive searches are counted, not claimed."),
 "C10": ("proptest against integer division", "Targets and spans over the whole range and at the limits; the verifying variant is offered right and wrong targets."),
 "C11": ("proptest + constraint-directed forging search", "Wrong new targets and out-of-range spans are searched for a witness, also with the constants of the computation replaced."),
 "C12": ("stateful proptest with an integer model", "Random operation histories over a pool of numbers; the invariant is read after every step."),
 "C13": ("proptest against big-integer arithmetic", "Generated operands and layouts; the witness is checked against every constraint."),
 "C14": ("proptest + constraint-directed forging search", "Operands fixed, honest and altered results propagated and searched within a budget; inconclusive searches are counted."),
 "C15": ("proptest differential + forging search", "Equal, nearly equal and unequal pairs over generated layouts including skewed limbs."),
 "C16": ("proptest + constraint-directed forging search", "Values in and out of range; auxiliary variables searched within a budget."),
 "C17": ("proptest round trips against big integers", "Seven fields from 13 to 255 bits."),
 "C18": ("stateful proptest against a list of Booleans", "Random operation histories; the linear combinations are evaluated after every step."),
 "C19": ("proptest + constraint-directed forging search", "Big numbers and a gadget type of the harness; every wire of every result is searched for another value."),
 "C20": ("proptest against convolution + forging search", "Generated coefficient lists of different lengths."),
 "C23": ("proptest over header lists, differential on a real block", "Random lists of headers become circuits that must hash their own header; block 123456 with random changes of header and state against the reference client."),
 "C22": ("stateful proptest over conversion chains + forging search", "Random conversion chains with the final representation searched for another value."),
 "C21": ("stateful proptest against a counting model", "Random clone/borrow/drop histories with overlapping borrows."),
}
HOOKS = ['dbf4d1416fba5b590a2c3637e1050b0a057a73d4']
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"tools/check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough tools/check.sh {i}",
                       "technique": t, "level": "exploration", "level_note": n + " Trusted: num-bigint, sha2, proptest, the recording constraint system."})
    else:
        na.append({"property": i, "reason": "the check is still being built"})
m = {"version": 1, "setup_cmd": "tools/build.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "--cfg verif_hash", "enable": "RUSTFLAGS=--cfg verif_hash (set by tools/build.sh)", "source_commits": HOOKS},
     "notes": "The hook (src/verif_hash.rs) records and replaces the hash function of the header step. known-findings.txt lists repaired defects. See DESIGN.md."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
