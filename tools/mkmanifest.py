#!/opt/veriftools/pyvenv/bin/python3
"""MANIFEST.json from the properties and vcg/meta.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/vcg")
import meta
PY = "/opt/veriftools/pyvenv/bin/python3"
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    m = meta.META.get(i)
    if not m:
        na.append({"property": i, "reason": meta.NOT_APPLICABLE.get(i, "no check built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "%s check.py %s --tier quick" % (PY, i),
        "thorough_cmd": "%s check.py %s --tier thorough" % (PY, i),
        "evidence_file": "evidence/%s.json" % i,
        "technique": m.get("technique", "function contracts on the real C++ (verification conditions generated from clang's AST of /repo on every run), discharged by z3/cvc5; failed obligations replayed on the real code"),
        "level": m["level"],
        "level_note": m["note"],
    })
out = {"version": 1,
       "setup_cmd": PY + " -c \"import sys; sys.path.insert(0,'vcg'); import z3, specs; print(len(specs.load_specs()), 'contracts; z3', z3.get_version_string())\" && clang --version | head -1 && cvc5 --version | head -1",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks are compiled into /repo: contracts live in /verif/specs and are bound to the functions by name and signature; VCs are generated from the current source. See DESIGN.md."}
json.dump(out, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
