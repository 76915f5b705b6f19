"""Writes MANIFEST.json from properties.jsonl and the harness modules."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
NA_PATH = os.path.join(HERE, "tools", "not_applicable.json")
if os.path.isfile(NA_PATH):
    NOT_APPLICABLE = json.load(open(NA_PATH))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    prop = json.loads(line)
    pid = prop["id"]
    path = os.path.join(HERE, "props", pid.lower() + ".py")
    if pid in NOT_APPLICABLE:
        na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
    elif os.path.isfile(path):
        text = open(path).read()
        conc = "\nYIELD = True" in text
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.sh {pid} quick",
            "thorough_cmd": f"./check.sh {pid} thorough",
            "technique": "symbolic execution of the real Python source with z3 deciding every branch and assertion"
            + (", thread interleavings as symbolic choices" if conc else "")
            + "; counterexamples and sampled paths replayed on the uninstrumented code",
            "level": "model_checking",
            "level_note": "holds for every value within the bounds stated in the evidence file; nothing is claimed outside them",
        })
    else:
        na.append({"property": pid, "reason": "no check yet"})
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
