#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from properties.jsonl and the harnesses present.
import json, os, glob, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {}
exec(open(os.path.join(V, "tools", "na_reasons.py")).read()) if os.path.exists(os.path.join(V, "tools", "na_reasons.py")) else None
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    P = json.loads(l); i = P["id"]
    hs = [h for h in sorted(glob.glob(V + "/harness/" + i + "*.cc")) if re.match(r"^%s[a-z]?[A-Za-z_0-9]*\.cc$" % i, os.path.basename(h))]
    if hs and i not in NA:
        b = []
        for h in hs:
            for x in open(h):
                m = re.match(r"//\s*BOUND:\s*(.*)", x)
                if m: b.append(m.group(1).strip())
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the real code's LLVM IR, assertions decided by an SMT solver (z3), counterexamples replayed natively",
            "level": "model_checking", "level_note": "Every value within the bounds: " + "; ".join(b)})
    else: na.append({"property": i, "reason": NA.get(i, "no sound harness built (yet) for this property")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
