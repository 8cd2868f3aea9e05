"""Regenerate MANIFEST.json from properties.jsonl and the checks present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="property-based testing (Hypothesis generators with shrinking) against an independent oracle",
            level="exploration",
            level_note="Generated-input search on the real code against the oracle named in DESIGN.md; absence of a "
                       "counterexample on the explored cases, not proof. Trusts NumPy/JAX/CasADi/SciPy and the oracle."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selftest", checks=checks, not_applicable=na),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
