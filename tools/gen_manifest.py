"""Write MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOT_APPLICABLE = {
    "P50": "The claim is about convergence of a floating-point fixed-point iteration (transcendental functions, "
           "data-dependent iteration counts); no installed solver decides it over all radii, and bounding the "
           "iterations would check something else.",
}
TECHNIQUE = ("path-complete symbolic execution of the real functions (proxy inputs, z3 decides every branch and the "
             "property's verification conditions within stated bounds); counterexamples replayed on the plain code")

MERGED = ("merged symbolic execution of the real source: one run covers all inputs within the bounds (values guarded by "
          "decision diagrams over the input bits), z3 decides each claim over all inputs; counterexamples replayed on the "
          "plain code, path-by-path symbolic execution where merging gives no answer")

# Checks whose paths mostly fix the whole input (sampled_paths in the evidence; figures in DESIGN.md).
PINNED = {
    "P46": " The search branches on every candidate, so a path fixes the candidates; the claim is then decided against every "
           "completion of the grid at once.",
    "P47": " A deduction rule branches on every candidate, so a path fixes the candidates; the claim is then decided against "
           "every completion of the grid at once."}


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        if pid in NOT_APPLICABLE:
            na.append(dict(property=pid, reason=NOT_APPLICABLE[pid]))
        elif os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
            import importlib
            m = importlib.import_module("props." + pid.lower())
            checks.append(dict(
                property=pid, quick_cmd="./check %s --tier quick" % pid, thorough_cmd="./check %s --tier thorough" % pid,
                technique=MERGED if hasattr(m, "merged") else TECHNIQUE, level="model_checking",
                level_note="Holds for every input within the bounds: %s. Outside: %s."
                           % (m.BOUNDS.rstrip("."), m.OUTSIDE.rstrip("."))
                           + PINNED.get(pid, ""),
                evidence_file="evidence/%s.json" % pid))
        else:
            na.append(dict(property=pid, reason="No solver-based check built yet."))
    d = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             hooks=dict(guard="", enable="", source_commits=[]),
             notes="Run ./check PNN --tier quick|thorough; ./check --replay FILE reruns a counterexample on the plain "
                   "code. The instrumented modules are compiled from /repo/pads on every run.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not applicable")


main()
