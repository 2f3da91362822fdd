#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import status                                # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

NA = {}
# the core clauses are proved; the others are judged by their main clause
MIXED = {"C16", "C18", "C19"}
BOUNDED = {"C17", "C23", "C24"}

TECH_P = ("contracts on the real functions, verification conditions from "
          "symbolic execution of the current source, discharged by the "
          "polynomial normaliser and z3/cvc5; contracts also evaluated at "
          "run time on the compiled code")
TECH_B = ("contracts on the real functions, evaluated at run time on the "
          "compiled code over seeded inputs (bounded stand-in)")
NOTE_P = ("Proved for all inputs and all lengths, floats read as extended "
          "reals, numpy/numba/attrs semantics as modelled in vc/: {}.")
NOTE_C = (" Bounded, only evaluated on the counted inputs: {}.")
NOTE_B = ("Bounded: no obligation is discharged for all inputs; every "
          "postcondition of the contracts is evaluated on the counted "
          "random inputs against the code that runs ({}).")


def level(p, row):
    """(level, technique, note) of a property."""
    pr, priv, op, con = ([status.name(c) for c in r] for r in row)
    if p in BOUNDED or not pr:
        return "exploration", TECH_B, NOTE_B.format(", ".join(con + op))
    note = NOTE_P.format(", ".join(pr) + (
        "; through the proved kernel contracts " + ", ".join(priv)
        if priv else ""))
    if op or con:
        note += NOTE_C.format(", ".join(op + con))
    return ("other" if p in MIXED else "proof"), TECH_P, note


def main():
    checks, rows = [], status.table()
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)["id"]
        if p in NA:
            continue
        lev, tech, note = level(p, rows[p])
        checks.append(dict(
            property=p,
            quick_cmd=f"./check {p} --tier quick",
            thorough_cmd=f"./check {p} --tier thorough",
            evidence_file=f"evidence/{p}.json",
            technique=tech, level=lev, level_note=note))
    out = dict(
        version=1,
        setup_cmd=f"{PY} -c \"import sys; sys.path.insert(0, '.'); "
                  "import vc, contracts; contracts.load_all()\"",
        checks=checks,
        not_applicable=[dict(property=k, reason=v)
                        for k, v in sorted(NA.items())],
        notes="See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
