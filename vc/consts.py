"""Numbers that appear in the current source but not in the recorded one:
drawn more often by the run-time half (a threshold someone added is a likely
boundary).  Only the choice of inputs depends on them."""
from __future__ import annotations

import ast
import json
import math
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(HERE, "constants.json")


def of(repo):
    ints, floats, strs = set(), set(), set()
    d = os.path.join(repo, "graphicle")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, f)).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if not isinstance(n, ast.Constant):
                continue
            v = n.value
            if isinstance(v, bool):
                continue
            if isinstance(v, int) and abs(v) < 1 << 40:
                ints.add(v)
            elif isinstance(v, float) and math.isfinite(v):
                floats.add(v)
            elif isinstance(v, str) and len(v) < 30:
                strs.add(v)
    return dict(ints=sorted(ints), floats=sorted(floats), strs=sorted(strs))


def new(repo):
    """(ints, floats) not in the recorded source."""
    if not os.path.exists(BASE):
        return [], []
    old = json.load(open(BASE))
    cur = of(repo)
    ints = [v for v in cur["ints"] if v not in set(old["ints"])]
    floats = [v for v in cur["floats"] if v not in set(old["floats"])]
    return ints, floats
