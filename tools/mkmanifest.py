#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of finished checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = sys.argv[1:] or open(os.path.join(HERE, "tools", "claimed")).read().split()
NOTE = {
    "C09": "seeded search over simulated interleavings; race detection by vector clocks on every instrumented access of library code and on the wrapped memory functions; libstdc++'s own internals are atomic steps",
    "C16": "seeded search on a sparse simulated disk; the sizes and counts around each limit are drawn, a handful of runs per quick check because each moves gigabytes",
}
NA = {
    "C17": "pure function of shape, order and index: no stream, fault, clock, allocation outcome or interleaving can influence it, so simulation has nothing to vary (indexing of tensors that have a history is decided under C20)",
    "C18": "pure function of its arguments (its effect on files and its use from several threads is decided under C01, C03, C04 and C09)",
    "C19": "a statement about installation and build configurations on several platforms, outside the simulated process",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif i not in DONE:
            na.append({"property": i, "reason": "check under construction"})
        else:
            checks.append({
                "property": i, "quick_cmd": "python3 check.py run %s --tier quick" % i, "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: seeded search, replayable minimised traces",
                "level": "exploration",
                "level_note": NOTE.get(i, "seeded search over drawn workloads, deliveries and faults against a reference model and independent decoders; sampled, not exhaustive; trusts libstdc++, zlib in the oracle and the simulated file system"),
            })
    m = {"version": 1, "setup_cmd": "python3 check.py build plain asan bare tsan", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the simulator interposes libc, the allocator and (for threads) the compiler's access instrumentation, all from /verif. Replay: python3 check.py replay FILE -v"}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
