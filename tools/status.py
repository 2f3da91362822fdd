#!/usr/bin/env python3
"""Section 4 of DESIGN.md and the level notes of MANIFEST.json: what
baseline.json records as proved, and what is bounded."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def table():
    """{property: (proved, private, open, concrete)} lists of contracts."""
    import contracts
    contracts.load_all()
    from vc.contract import REG
    base = json.load(open(os.path.join(HERE, "baseline.json")))
    out = {}
    for c in REG:
        p = c.key.split(".")[0]
        row = out.setdefault(p, ([], [], [], []))
        st = base.get(c.key, {}).get("status")
        if c.mode == "concrete":
            row[3].append(c)
        elif st != "proved":
            row[2].append(c)
        elif c.private:
            row[1].append(c)
        else:
            row[0].append(c)
    return out


def name(c):
    return c.key.split(".", 1)[1]


def main():
    rows = ["| property | proved for all inputs and lengths | bounded "
            "(evaluated at run time only) |", "|---|---|---|"]
    for p, (pr, priv, op, con) in sorted(table().items()):
        rows.append("| {} | {}{} | {} |".format(
            p, ", ".join(map(name, pr)) or "-",
            "; kernel contracts: " + ", ".join(map(name, priv))
            if priv else "",
            "; ".join(f"{name(c)} ({why(c)})" for c in op + con) or "-"))
    f = os.path.join(HERE, "DESIGN.md")
    s = open(f).read()
    a, b = "<!-- status -->\n", "<!-- /status -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    open(f, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])


def why(c):
    return (getattr(c, "why", None) or "open").split(";")[0].strip()


if __name__ == "__main__":
    main()
