#!/usr/bin/env python3
"""mkseed.py [ID...]: writes seeded/<id>/ from the table in seeds.py, using a
scratch copy of /repo, and confirms the demonstration on it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS  # noqa: E402

PRE = '''import os
import sys
import tempfile
sys.path.insert(0, os.getcwd())
os.environ.setdefault("NUMBA_CACHE_DIR", tempfile.mkdtemp(prefix="demo"))
import warnings
warnings.simplefilter("ignore")
import numpy as np
import graphicle as gcl

'''
POST = '''

import shutil
shutil.rmtree(os.environ["NUMBA_CACHE_DIR"], ignore_errors=True)
print("ok")
'''


def main(ids):
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        w = tempfile.mkdtemp(prefix="seed")
        try:
            r = os.path.join(w, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
            for f, old, new in s["edits"]:
                p = os.path.join(r, "graphicle", f)
                t = open(p).read()
                assert t.count(old) == s.get("count", 1), \
                    (s["id"], t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", r, "diff"], check=True,
                                  capture_output=True, text=True).stdout
            d = os.path.join(HERE, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(
                PRE + s["demo"].strip() + POST)
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/sh\nexec /opt/venv/bin/python '
                '"$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=s["prop"], needs=s["needs"],
                           what_it_breaks=s["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            bad = subprocess.run([os.path.join(d, "demo.sh")], cwd=r,
                                 capture_output=True, text=True)
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."])
            good = subprocess.run([os.path.join(d, "demo.sh")], cwd=r,
                                  capture_output=True, text=True)
            ok = bad.returncode != 0 and good.returncode == 0
            print(s["id"], "OK" if ok else "BAD DEMO",
                  bad.stderr.strip().split("\n")[-1][:100],
                  "" if ok else good.stderr[-300:])
        finally:
            shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1:])
