"""Writes the planted bugs in tools/bugs/*.py to seeded/ (see bug())."""
import json, os, subprocess, sys, tempfile, textwrap, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONLY = set(sys.argv[1:])
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def bug(bid, prop, edits, needs, breaks, demo):
    """One bug: edits are (file, old text, new text)."""
    if ONLY and bid not in ONLY:
        return
    work = tempfile.mkdtemp(prefix="/tmp/plant.")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", work + "/r"], check=True)
        for name, old, new in edits:
            path = f"{work}/r/{name}"
            text = open(path).read()
            assert text.count(old) == 1, (bid, name, text.count(old), old)
            open(path, "w").write(text.replace(old, new))
        diff = subprocess.run(
            ["git", "-C", work + "/r", "diff"], check=True, capture_output=True
        ).stdout
        assert diff, bid
        out = f"{HERE}/seeded/{bid}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(textwrap.dedent(demo).lstrip())
        json.dump(
            {"property": prop, "needs": needs, "what_it_breaks": breaks},
            open(out + "/meta.json", "w"), indent=1,
        )
        print("planted", bid)
    finally:
        shutil.rmtree(work)


bugs = f"{HERE}/tools/bugs"
for name in sorted(os.listdir(bugs)):
    if name.endswith(".py"):
        exec(compile(open(f"{bugs}/{name}").read(), name, "exec"), {"bug": bug})
