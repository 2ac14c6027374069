"""Planting: writes /verif/seeded/<id>/ from (file, old, new) edits.

usage: python3 tools/plant.py SPEC.py      (SPEC defines PLANTS, a list of
dicts: id, property, edits=[(file, old, new)], needs, breaks, demo)

The demo is the body of a Python program run with PYTHONPATH set to the
working directory; it must exit non-zero (an assertion) with the change.
"""
import difflib
import json
import os
import stat
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

spec = {}
exec(open(sys.argv[1]).read(), spec)
for p in spec["PLANTS"]:
    d = os.path.join(HERE, "seeded", p["id"])
    os.makedirs(d, exist_ok=True)
    files = {}
    for fn, old, new in p["edits"]:
        text = files.setdefault(
            fn, [open(os.path.join(REPO, fn)).read()] * 2)
        n = text[1].count(old)
        if n != 1:
            sys.exit("%s: %i matches in %s for:\n%s" % (p["id"], n, fn, old))
        files[fn] = [text[0], text[1].replace(old, new)]
    with open(os.path.join(d, "patch.diff"), "w") as f:
        for fn in sorted(files):
            a, b = files[fn]
            f.writelines(difflib.unified_diff(
                a.splitlines(True), b.splitlines(True),
                "a/" + fn, "b/" + fn))
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write(p["demo"].lstrip("\n"))
    sh = os.path.join(d, "demo.sh")
    with open(sh, "w") as f:
        f.write('#!/bin/bash\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\n'
                'exec timeout 120 /opt/venv/bin/python -W ignore '
                '"$here/demo.py"\n')
    os.chmod(sh, os.stat(sh).st_mode | stat.S_IXUSR | stat.S_IXGRP |
             stat.S_IXOTH)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": p["property"], "needs": p["needs"],
                   "what_it_breaks": p["breaks"]}, f, indent=1)
        f.write("\n")
    print("planted", p["id"])
