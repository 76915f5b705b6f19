"""Writes DESIGN.md."""
import ast, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    tree = ast.parse(open(path).read())
    out["doc"] = ast.get_docstring(tree) or ""
    cases = []
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            name = getattr(node.targets[0], "id", None)
            if name in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS", "YIELD"):
                try:
                    out[name] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        if isinstance(node, ast.FunctionDef) and any(
            isinstance(x, ast.Call) and getattr(x.func, "id", "") == "case"
            for x in node.decorator_list
        ):
            cases.append((node.name, (ast.get_docstring(node) or "").split("\n")[0]))
    out["cases"] = cases
    return out


na = {}
path = f"{HERE}/tools/not_applicable.json"
if os.path.isfile(path):
    na = json.load(open(path))
text = open(f"{HERE}/tools/design_head.md").read()
text += "## The properties\n\n"
for line in open(f"{HERE}/properties.jsonl"):
    prop = json.loads(line)
    pid = prop["id"]
    text += f"### {pid} {prop['title']}\n\n{prop['statement']}\n\n"
    path = f"{HERE}/props/{pid.lower()}.py"
    if pid in na:
        text += f"Not applicable: {na[pid]}\n\n"
        continue
    if not os.path.isfile(path):
        text += "No check yet.\n\n"
        continue
    got = consts(path)
    if got["doc"].count("\n"):
        text += got["doc"].split("\n", 1)[1].strip() + "\n\n"
    text += "Decided by (harness `props/%s.py`):\n\n" % pid.lower()
    for name, doc in got["cases"]:
        text += f"* `{name}`: {doc}\n"
    text += "\n"
    for tier, bound in got.get("BOUNDS", {}).items():
        text += f"Bounds ({tier}): {bound}.\n"
    if got.get("OUTSIDE"):
        text += f"Outside: {got['OUTSIDE']}.\n"
    for item in got.get("ASSUMPTIONS", []):
        text += f"Assumes: {item}.\n"
    if got.get("YIELD"):
        text += "Threads can be preempted at every access (YIELD mode).\n"
    text += f"Why tests can't: {prop['why_tests_cant']}.\n\n"
text += open(f"{HERE}/tools/design_tail.md").read()
known = json.load(open(f"{HERE}/known_findings.json"))
text += "## Findings\n\nRepaired in /repo (`fix:` commits):\n\n"
for item in known["fixed"]:
    text += f"* {item}\n"
text += "\nRecorded and not repaired (`known_findings.json`):\n\n"
for item in known["findings"]:
    text += f"* {item['property']} {item['id']}: {item['what']}\n"
if not known["findings"]:
    text += "(none)\n"
text += "\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
caught = {}
path = f"{HERE}/tools/caught.json"
if os.path.isfile(path):
    caught = json.load(open(path))
for bid in sorted(os.listdir(f"{HERE}/seeded")):
    meta = json.load(open(f"{HERE}/seeded/{bid}/meta.json"))
    text += f"| {bid} | {meta['property']} | {meta['needs']} | {caught.get(bid, '?')} |\n"
open(f"{HERE}/DESIGN.md", "w").write(text)
