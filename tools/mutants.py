#!/usr/bin/env python3
"""mutants.py OUT.jsonl [-j N] [-s SEED] [-f FRACTION] [--match RE]
Systematic mutants of the package in scratch copies, judged by the run-time
half of the contracts.  A development aid: no check uses it."""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["base", "calculate", "data", "matrix", "select", "transform"]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult,
       ast.BitXor: ast.BitOr}


def skip_fn(f):
    for d in f.decorator_list:
        s = ast.unparse(d)
        if "overload" in s:
            return True
    return f.name in ("__repr__", "__str__", "_repr_html_")


def sites(fn):
    """(description, mutate(node)) by path; yields (path, kind, n)."""
    out = []

    def walk(node, path):
        for field, val in ast.iter_fields(node):
            if field in ("annotation", "returns", "type_comment",
                         "decorator_list", "args") and \
                    isinstance(node, (ast.FunctionDef, ast.AnnAssign,
                                      ast.arg)):
                if field == "args":
                    for i, d in enumerate(val.defaults):
                        one(d, path + [("args", None), ("defaults", i)])
                    for i, d in enumerate(val.kw_defaults):
                        if d is not None:
                            one(d, path + [("args", None),
                                           ("kw_defaults", i)])
                continue
            if isinstance(val, list):
                for i, v in enumerate(val):
                    if isinstance(v, ast.AST):
                        one(v, path + [(field, i)])
            elif isinstance(val, ast.AST):
                one(val, path + [(field, None)])

    def one(n, path):
        if isinstance(n, ast.Compare):
            for alt in CMP.get(type(n.ops[0]), []):
                out.append((path, "cmp", alt.__name__))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((path, "bin", BIN[type(n.op)].__name__))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((path, "bin", BIN[type(n.op)].__name__))
        if isinstance(n, ast.UnaryOp):
            out.append((path, "unary", ""))
        if isinstance(n, ast.BoolOp):
            out.append((path, "bool", ""))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                out.append((path, "const", not v))
            elif isinstance(v, int):
                out.append((path, "const", v + 1))
                out.append((path, "const", v - 1))
            elif isinstance(v, float):
                out.append((path, "const", 0.0 if v else 1.0))
                out.append((path, "const", v * 1.5))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args[:2]):
                out.append((path, "swap", ""))
            for i in range(len(n.keywords)):
                out.append((path, "dropkw", i))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((path, "cond", True))
            if not isinstance(n, ast.While):
                out.append((path, "cond", False))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                isinstance(n, ast.Expr) and
                isinstance(n.value, ast.Constant)):
            out.append((path, "del", ""))
        if isinstance(n, ast.Break):
            out.append((path, "del", ""))
        if isinstance(n, ast.Continue):
            out.append((path, "del", ""))
        if isinstance(n, ast.Raise):
            out.append((path, "del", ""))
        if isinstance(n, ast.Slice):
            pass
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return
        walk(n, path)
    walk(fn, [])
    return out


def get(node, path):
    for f, i in path:
        node = getattr(node, f)
        if i is not None:
            node = node[i]
    return node


def put(node, path, new):
    for f, i in path[:-1]:
        node = getattr(node, f)
        if i is not None:
            node = node[i]
    f, i = path[-1]
    if i is None:
        setattr(node, f, new)
    else:
        getattr(node, f)[i] = new


def mutate(fn, site):
    path, kind, arg = site
    n = get(fn, path)
    before = ast.unparse(n)
    if kind == "cmp":
        n.ops[0] = getattr(ast, arg)()
    elif kind == "bin":
        n.op = getattr(ast, arg)()
    elif kind == "unary":
        put(fn, path, n.operand)
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "const":
        n.value = arg
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "dropkw":
        del n.keywords[arg]
    elif kind == "cond":
        n.test = ast.Constant(arg)
    elif kind == "del":
        put(fn, path, ast.Pass())
    after = ast.unparse(get(fn, path))
    return before, after


def all_mutants():
    out = []
    for mod in FILES:
        src = open(f"/repo/graphicle/{mod}.py").read()
        tree = ast.parse(src)

        def visit(body, prefix, tp):
            for i, n in enumerate(body):
                if isinstance(n, ast.ClassDef):
                    visit(n.body, prefix + n.name + ".", tp + [("body", i)])
                elif isinstance(n, ast.FunctionDef):
                    if skip_fn(n):
                        continue
                    for s in sites(n):
                        out.append((mod, prefix + n.name,
                                    tp + [("body", i)], s))
        visit(tree.body, "", [])
    return out


def build(m):
    mod, name, tp, s = m
    tree = ast.parse(open(f"/repo/graphicle/{mod}.py").read())
    fn = get(tree, tp)
    before, after = mutate(fn, s)
    return before, after, ast.unparse(tree)


KILL = r'''
import sys, json, time, os, resource
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
sys.path.insert(0, %(here)r)
import vc, contracts
contracts.load_all()
from vc.contract import REG
from vc import concrete, rt
name, mod, per, cap = sys.argv[1], sys.argv[2], float(sys.argv[3]), float(sys.argv[4])
try:
    g = rt.load_real(os.environ["VC_REPO"])
except BaseException as e:
    print(json.dumps(dict(st="load", by=type(e).__name__))); sys.exit()
full = "graphicle." + mod + "." + name
last = name.split(".")[-1]
def rank(c):
    if full in c.fns: return 0
    if any(f.split(".")[-1] == last for f in c.fns): return 1
    if any(f.startswith("graphicle." + mod) for f in c.fns): return 2
    return 3
t0 = time.time()
for c in sorted(REG, key=rank):
    if c.mode == "symbolic" or c.private: continue
    if time.time() - t0 > cap: break
    print("@" + c.key, flush=True)
    r = concrete.run(c, g, 1000, per * c.weight * (3 if rank(c) == 0 else 1))
    if r["status"] == "fail":
        if str(r["error"].name) .startswith("read after mut"): continue
        k = c.key + ":" + r["error"].name
        if k in %(known)r: continue
        print(json.dumps(dict(st="killed", by=k, rank=rank(c)))); sys.exit()
print(json.dumps(dict(st="survived", t=time.time() - t0)))
'''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-s", type=int, default=0)
    ap.add_argument("-f", type=float, default=1.0)
    ap.add_argument("--match", default="")
    ap.add_argument("--per", type=float, default=0.3)
    ap.add_argument("--cap", type=float, default=100)
    ap.add_argument("--redo")
    a = ap.parse_args()
    ms = all_mutants()
    if a.match:
        ms = [m for m in ms if re.search(a.match, m[0] + "." + m[1])]
    rnd = random.Random(a.s)
    rnd.shuffle(ms)
    ms = ms[:int(len(ms) * a.f)]
    if a.redo:
        keep = [json.loads(x) for x in open(a.redo)]
        keep = {(k["mod"], k["fn"], json.dumps(k["site"])) for k in keep
                if k["st"] == "survived"}
        ms = [m for m in all_mutants() if (m[0], m[1], json.dumps(m[3]))
              in keep]
    sys.path.insert(0, HERE)
    known = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        if line.startswith("finding:"):
            known.append(line[8:].partition(" || ")[0].split("=", 1)[1]
                         .strip())
    code = KILL % dict(here=HERE, known=known)
    root = tempfile.mkdtemp(prefix="mut")
    slots = queue.Queue()
    for i in range(a.j):
        w = os.path.join(root, f"w{i}")
        os.makedirs(w)
        shutil.copytree("/repo/graphicle", os.path.join(w, "graphicle"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        slots.put(w)
    done = set()
    if os.path.exists(a.out):
        for x in open(a.out):
            k = json.loads(x)
            done.add((k["mod"], k["fn"], json.dumps(k["site"])))
    outf = open(a.out, "a")
    print(len(ms), "mutants", flush=True)

    def one(m):
        mod, name, tp, s = m
        if (mod, name, json.dumps(s)) in done:
            return
        before, after, text = build(m)
        w = slots.get()
        try:
            p = os.path.join(w, "graphicle", mod + ".py")
            open(p, "w").write(text)
            env = dict(os.environ, VC_REPO=w, NUMBA_NUM_THREADS="2",
                       NUMBA_CACHE_DIR=os.path.join(w, "nc"),
                       PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                       OPENBLAS_NUM_THREADS="1")
            try:
                r = subprocess.run(
                    ["/opt/venv/bin/python", "-c", code, name, mod,
                     str(a.per), str(a.cap)], env=env, capture_output=True,
                    text=True, timeout=a.cap * 2 + 60)
                lines = r.stdout.strip().split("\n")
                try:
                    res = json.loads(lines[-1])
                except Exception:
                    res = dict(st="crash", by=lines[-1], err=r.stderr[-300:])
            except subprocess.TimeoutExpired as e:
                o = (e.stdout or b"").decode().strip().split("\n")
                res = dict(st="timeout", by=o[-1])
            res.update(mod=mod, fn=name, site=s, before=before[:200],
                       after=after[:200])
            outf.write(json.dumps(res) + "\n")
            outf.flush()
            shutil.copy(f"/repo/graphicle/{mod}.py", p)
        finally:
            slots.put(w)
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, ms))
    shutil.rmtree(root)


if __name__ == "__main__":
    main()
