#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
have = set()
for f in (root / "harness/props").glob("*.go"):
    have |= set(re.findall(r"^func (C\d\d)_\w+\(\) \{", f.read_text(), re.M))
NA = {
}
NOTE = ("Every path of the harness over the real SSA of /repo is executed symbolically; every assertion, index, nil "
        "and panic condition is decided over all inputs within the bounds stated in each harness's comment (copied to the "
        "evidence). Trusted: the engine's SSA semantics and its stand-ins (fmt, log, hex, sync, rand, time), x/tools/go/ssa, "
        "z3; a sample of paths is replayed natively each run and must agree. Nothing is claimed outside the bounds.")
TECH = "symbolic execution of the Go SSA of the real code, SMT (z3 bit-vectors) deciding every branch and assertion"
EXTRA = {
 "C31": " Files are kept in memory by a stand-in for package os (contents symbolic, names concrete); the native replay uses real files in a scratch directory.",
 "C21": " All interleavings of the goroutines at atomic-operation granularity are enumerated by the engine's scheduler and decided symbolically.",
 "C29": " The random source is an arbitrary symbolic value within the documented range of math/rand.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or i not in have:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "technique": TECH, "level": "model_checking", "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.sh --replay FILE replays a counterexample on the real code; known_findings.txt lists findings and repairs. No hooks in /repo."}
json.dump(m, open(root / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
