"""
Writes MANIFEST.json from properties.jsonl and the checks that exist.
"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENUM = "bounded: all %s within the bounds listed in the evidence, explored " \
    "path by path; %s"
NOTES = {
    'C26': ENUM % ("sequences of operations", "no symbolic numbers"),
    'C27': ENUM % ("sequences of messages and faults", "no symbolic numbers"),
    'C30': ENUM % (
        "records (symbolic)", "correlations and line fits, which NumPy's "
        "linear algebra computes, only for an enumerated set of numbers"),
    'C31': ENUM % (
        "records (symbolic) and command lines", "correlations only for an "
        "enumerated set of numbers"),
    'C32': ENUM % ("combinations of programs and faults", "no symbolic numbers"),
    'C35': ENUM % ("subsets of existing files", "no symbolic numbers"),
}
NA = {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "%s run.py %s --tier quick" % (PY, pid),
        "thorough_cmd": "%s run.py %s --tier thorough" % (PY, pid),
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the package's Python source, "
        "with z3 deciding path feasibility and every assertion; "
        "counterexamples replayed on the real code",
        "level": "model_checking",
        "level_note": NOTES.get(
            pid, "bounded: all values, draws, schedules and faults within "
            "the bounds listed in the evidence; extended-real arithmetic"),
    })
m = {
    "version": 1,
    "setup_cmd": "%s tools/setup.py" % PY,
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. No hooks are needed in /repo.",
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
print(len(checks), "checks,", len(na), "not applicable")
