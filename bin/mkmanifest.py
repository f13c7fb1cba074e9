#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, properties.jsonl and not_applicable.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/bin/not_applicable.json"))
assert set(props) == set(CHECKS) | set(na), set(props) ^ (set(CHECKS) | set(na))
m = {
    "version": 1,
    "setup_cmd": "python3 bin/simbuild.py",
    "checks": [{
        "property": p,
        "quick_cmd": "bin/check %s --tier quick" % p,
        "thorough_cmd": "bin/check %s --tier thorough" % p,
        "technique": "deterministic simulation with fault injection: " + CHECKS[p]["how"],
        "level": "exploration",
        "level_note": CHECKS[p]["note"],
    } for p in props if p in CHECKS],
    "not_applicable": [{"property": p, "reason": na[p]} for p in props if p in na],
    "hooks": {"guard": "NBDL_SIM_JS_HANDLE", "enable": "-DNBDL_SIM_JS_HANDLE=em::handle_of (bin/simbuild.py, target web)", "source_commits": ["a526bb9683fdade1b77daa9158109b49d0154d68"]},
    "notes": "One hook in /repo (an address as a 32-bit number on a 64-bit host); every other seam is a template parameter, an injected socket, a system call wrapped at link time, or a stubbed header. known-findings.txt lists repaired and open defects.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
