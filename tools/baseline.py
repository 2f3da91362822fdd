#!/usr/bin/env python3
"""baseline.py [REPO] [--write] [--props C01,...]: the symbolic half of every
contract; --write records which contracts are proved on the current tree."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import vc                                    # noqa: E402,F401
import contracts                             # noqa: E402
contracts.load_all()
from vc import digest, pool, symbolic        # noqa: E402
from vc.contract import REG                  # noqa: E402

OUT = os.path.join(HERE, "baseline.json")


def summarise(t):
    if t.state != "done":
        return dict(status="open", why=f"{t.state} {t.result}"[:300])
    r = t.result
    n = {}
    for o in r["obligations"]:
        n[o["status"]] = n.get(o["status"], 0) + 1
    st = "open"
    if not r["unsupported"] and set(n) == {"proved"}:
        st = "bounded" if r["bound"] else "proved"
    return dict(status=st, obligations=n, wall=round(t.wall, 1),
                why=(r["unsupported"] or r["bound"] or ""),
                functions=[f for f in r["functions"]
                           if f.startswith("graphicle.")],
                open=[(o["status"], o["kind"], o["name"],
                       (o["detail"] or "")[:200], bool(o.get("inputs")))
                      for o in r["obligations"] if o["status"] != "proved"])


def main(argv):
    write = "--write" in argv
    props = None
    keys = None
    for i, a in enumerate(argv):
        if a == "--props":
            props = argv[i + 1].split(",")
        if a == "--keys":
            keys = argv[i + 1].split(",")
    repo = next((a for a in argv if a.startswith("/")), "/repo")
    symbolic.preload()
    tasks = []
    for c in REG:
        if c.mode == "concrete" or props and not set(props) & set(c.props) \
                or keys and not any(k in c.key for k in keys):
            continue
        tasks.append(pool.Task(
            c.key, lambda c=c: symbolic.verify(c, "all", repo, "quick", 1),
            300))
    old = json.load(open(OUT)) if os.path.exists(OUT) else {}
    res = {}

    def done(t):
        s = summarise(t)
        s["digest"] = digest.of(repo, s.get("functions", []))
        res[t.key] = s
        o = old.get(t.key, {})
        if write or s["status"] != o.get("status"):
            print(t.key, s["status"], s.get("obligations"), s.get("wall"),
                  s["why"][:200], s.get("open", [])[:3], flush=True)
    pool.run_tasks(tasks, int(os.environ.get("J", "8")), None, done)
    if write:
        if props or keys:
            old.update({k: v for k, v in res.items()})
            res = old
        slim = {k: {x: v[x] for x in ("status", "digest", "functions")
                    if x in v} for k, v in sorted(res.items())}
        json.dump(slim, open(OUT, "w"), indent=1)
        open(OUT, "a").write("\n")


main(sys.argv[1:])
