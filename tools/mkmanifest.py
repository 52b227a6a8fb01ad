#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = "abstract interpretation of the package's SSA form"
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = {
"N01": "An expectation over the random tower heights: a quantitative property of a distribution and of running times. What can be decided from the source is claimed in C01: the path that a search may take, and the exact distribution of the drawn heights. The expectation over running histories, contention and machine cost is not.",
"N02": "Linearizability quantifies over complete concurrent histories; deciding it needs a refinement proof or model checking of the whole algorithm. The protocol obligations that such a proof rests on are claimed one by one in S01-S10, H01 and H02; the history property itself is not decided.",
"N03": "Liveness under fair schedules of retry loops (lock-based validation and compare-and-swap retries): whether a retry eventually succeeds depends on what other goroutines do for ever, which no sound static argument in reach bounds. What does not depend on fairness is claimed: no lock cycle and no lock held while retrying (L02), all locks given back (L01), and every call finishes once no other call is in progress (L04).",
}
tech = {
"A01": "type checking of the documented API on all platforms, abstract interpretation of the constructors",
"M03": "layout computation of all atomically accessed places found by abstract interpretation",
"K01": "abstract interpretation with NaN-aware key orders; exhaustive case evaluation of the order functions",
"G01": "regeneration of the sources, then type checking and abstract interpretation of the result",
"W01": "abstract interpretation with an effect and loop progress analysis",
"L02": "abstract interpretation with lock-order, lock-set and loop progress analysis",
"C01": "abstract interpretation of search paths; exact distribution of the drawn heights by interpretation over distributions",
"L04": "abstract interpretation; loops without a measure of progress are followed from every reachable state with interference switched off",
"L01": "abstract interpretation with a lock typestate on all exits, including unwinding",
"R01": "abstract interpretation with classification of every shared access (ownership, lock sets, atomics)",
}
note = ("Sound abstract interpretation of every operation of every map type over all inputs, list shapes, heights and interference that keeps the protocol; "
 "what is decided are the obligations listed in DESIGN.md for this property, which imply it by the argument given there. "
 "Trusted: the models of sync, sync/atomic and fastrand, go/types and go/ssa, the meta-theory (rely conditions, hindsight lemma), and that user order functions are strict weak orders.")
notes = {
"C01": "Decides the search path obligations soundly for all operations. The distribution of the heights is computed exactly if the function that draws them only uses integer, bit and comparison operations on random numbers; otherwise the evidence says that it was not decided (height_draws_decided = 0) and no alarm is raised for it. That heights are independent of keys is not decided.",
"L04": "Every state at the head of every loop without a measure of progress is followed with interference switched off (three rounds). Assumes the protocol obligations, that callbacks return, and that loops which draw a random number anew for their exit condition end.",
"A01": "Decides exactly: every constructor and method type-checks with its documented type on all platforms of the toolchain, and constructors return new empty maps with a complete head entry. Not covered: documentation text.",
"M03": "Decides exactly the alignment of all places that the operations access with 64-bit atomics, for gc layouts of the 32-bit architectures and several shapes of type arguments.",
"G01": "Runs the generator (as an unprivileged user, in a scratch copy) only to obtain source; then decides all rules statically on that source.",
}
checks = []
for p in props:
    if p in NA: continue
    checks.append(dict(property=p, quick_cmd=f"sh check.sh {p} quick", thorough_cmd=f"sh check.sh {p} thorough",
        evidence_file=f"evidence/{p}.json", technique=tech.get(p, T + " with thread-modular interference"), level="other", level_note=notes.get(p, note)))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo. Repairs of genuine defects are listed in known-findings.txt.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
