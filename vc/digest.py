"""Digests of the functions a contract executes, comments, docstrings and
layout left out: tells a proof lost on changed code from a slow machine."""
from __future__ import annotations

import ast
import hashlib
import os

_cache = {}


def _strip(node):
    for n in ast.walk(node):
        body = getattr(n, "body", None)
        if isinstance(body, list):
            n.body = [s for s in body if not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return node


def module(repo, name):
    """{top-level name: digest} of a module; '' holds everything else."""
    key = (repo, name)
    if key not in _cache:
        f = os.path.join(repo, *name.split(".")) + ".py"
        out = {}
        rest = []
        if os.path.exists(f):
            tree = _strip(ast.parse(open(f).read()))
            for n in tree.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.setdefault(n.name, []).append(ast.dump(n))
                else:
                    rest.append(ast.dump(n))
        out = {k: _h("".join(v)) for k, v in out.items()}
        out[""] = _h("".join(rest))
        _cache[key] = out
    return _cache[key]


def _h(s):
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def of(repo, functions):
    """One digest over the definitions holding the functions."""
    parts = set()
    for f in functions:
        p = f.split(".")
        if p[0] != "graphicle" or len(p) < 3:
            continue
        mod = ".".join(p[:2])
        m = module(repo, mod)
        parts.add((mod, "", m[""]))
        parts.add((mod, p[2], m.get(p[2], "gone")))
    return _h(repr(sorted(parts)))
