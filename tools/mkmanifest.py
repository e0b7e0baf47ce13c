"""Write MANIFEST.json from the property modules (run from /verif)."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = "/opt/venv/bin/python"
TECH = "deterministic simulation: seeded search over %s, against reference models"
NA = {
    "C18": "Needs a second device: torch here is CPU-only, so a move is the identity and no run "
    "of the real code can be simulated across devices.",
    "C19": "Pure function of its input (no schedule, fault, history, randomness or I/O): not a "
    "target for deterministic simulation. Its consequences are covered where histories and delivery matter (C03, C04).",
    "C20": "Pure function of its input; not a target for deterministic simulation. Its "
    "consequences for KFAC under any delivery are covered by C03.",
    "C21": "Stateless pure functions of their inputs; not a target for deterministic simulation.",
}
checks = []
props = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
na = dict(NA)
for p in props:
    if p in na:
        continue
    path = f"dst/props/{p.lower()}.py"
    if not os.path.exists(path):
        na[p] = "Not claimed yet: the check is under construction."
        continue
    m = importlib.import_module(f"dst.props.{p.lower()}")
    checks.append({
        "property": p,
        "quick_cmd": f"{PY} -m dst check {p}",
        "thorough_cmd": f"{PY} -m dst check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: " + m.TECHNIQUE,
        "level": m.LEVEL,
        "level_note": m.NOTE,
    })
doc = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import torch, scipy, backpack\"",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
    "notes": "No hooks in /repo: every seam (data loader, model, loss, tensor operations via "
    "TorchDispatchMode, SciPy operators, generators, threads) exists already.",
}
json.dump(doc, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
