"""Discharging obligations: canonical forms, then SMT with instantiated
axioms for the symbols the engine uses."""
from __future__ import annotations

import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import binders as Bd
from . import fast
from . import norm
from . import terms as T
from .terms import ctx

TIMEOUT = 10.0           # seconds per SMT query
STATS = {"z3": 0.0, "cvc5": 0.0, "canonical": 0.0, "queries": 0}
FEAS_MS = 400


# ------------------------------------------------------------------ traversal
subterms = fast.subterms


def is_uf(e):
    return z3.is_app(e) and e.num_args() > 0 and \
        e.decl().kind() == z3.Z3_OP_UNINTERPRETED


# --------------------------------------------------------------------- axioms
PI_AX = None


def pi_axiom():
    return z3.And(T.PI > z3.RealVal("3.14159265358979"),
                  T.PI < z3.RealVal("3.14159265358980"))


def fn_axioms(e):
    """Axioms of one application of a transcendental function."""
    n = e.decl().name()
    if n == "sqrt":
        a = e.arg(0)
        return [z3.Implies(a >= 0, z3.And(e >= 0, e * e == a)),
                z3.Implies(a > 0, e > 0)]
    if n == "exp":
        a = e.arg(0)
        return [e > 0, z3.Implies(a > 0, e > 1 + a),
                z3.Implies(a < 0, z3.And(e < 1, e > 1 + a)),
                z3.Implies(a == 0, e == 1)]
    if n == "log":
        a = e.arg(0)
        return [z3.Implies(a > 1, e > 0), z3.Implies(a == 1, e == 0),
                z3.Implies(z3.And(a > 0, a < 1), e < 0),
                z3.Implies(a > 0, e <= a - 1)]
    if n in ("sin", "cos"):
        a = e.arg(0)
        s, c = T.f_sin(a), T.f_cos(a)
        return [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
                z3.Implies(z3.And(a > 0, a < T.PI), s > 0),
                z3.Implies(z3.And(a < 0, a > -T.PI), s < 0),
                z3.Implies(a == 0, z3.And(s == 0, c == 1)),
                z3.Implies(z3.And(a > -T.PI / 2, a < T.PI / 2), c > 0),
                z3.Implies(z3.Or(a == T.PI, a == -T.PI),
                           z3.And(s == 0, c == -1)),
                pi_axiom()]
    if n == "atan2":
        y, x = e.children()
        return [pi_axiom(), e <= T.PI, e > -T.PI,
                z3.Implies(y > 0, z3.And(e > 0, e < T.PI)),
                z3.Implies(y < 0, z3.And(e < 0, e > -T.PI)),
                z3.Implies(z3.And(y == 0, x >= 0), e == 0),
                z3.Implies(z3.And(y == 0, x < 0), e == T.PI),
                z3.Implies(x > 0, z3.And(e < T.PI / 2, e > -T.PI / 2)),
                z3.Implies(z3.And(x == 0, y > 0), e == T.PI / 2),
                z3.Implies(z3.And(x == 0, y < 0), e == -T.PI / 2),
                z3.Implies(z3.And(x < 0, y > 0), e > T.PI / 2),
                z3.Implies(z3.And(x < 0, y < 0), e < -T.PI / 2)]
    if n == "acos":
        a = e.arg(0)
        return [pi_axiom(), z3.Implies(z3.And(a >= -1, a <= 1),
                                       z3.And(e >= 0, e <= T.PI))]
    if n == "pow":
        a = e.arg(0)
        return [z3.Implies(a > 0, e > 0),
                z3.Implies(a == 1, e == 1),
                z3.Implies(e.arg(1) == 0, e == 1),
                z3.Implies(e.arg(1) == 1, e == a)]
    return []


def pair_axioms(a, b):
    n = a.decl().name()
    if n in ("exp",):
        x, y = a.arg(0), b.arg(0)
        return [(x < y) == (a < b), (x == y) == (a == b)]
    if n == "sqrt":
        x, y = a.arg(0), b.arg(0)
        return [z3.Implies(z3.And(x >= 0, y >= 0), (x < y) == (a < b))]
    if n == "log":
        x, y = a.arg(0), b.arg(0)
        return [z3.Implies(z3.And(x > 0, y > 0), (x < y) == (a < b))]
    if n == "acos":
        x, y = a.arg(0), b.arg(0)
        return [z3.Implies(z3.And(x >= -1, x <= 1, y >= -1, y <= 1),
                           (x < y) == (a > b))]
    return []


def in_range(t, n):
    return z3.And(t >= 0, t < n)


def nonneg_body(d):
    return T.is_nonneg(d.body)


def binder_axioms(e, d, idx):
    """Axioms of one binder application; idx: index terms to try."""
    out = []
    if d.kind in ("Any",):
        n, _ = d.inst(e)
        w = d.witness(e)
        out.append(z3.Implies(e, z3.And(in_range(w, n), d.inst(e, w)[1])))
        for t in idx:
            out.append(z3.Implies(z3.And(in_range(t, n), d.inst(e, t)[1]),
                                  e))
        return out
    if d.extra == "Z":
        return value_axioms(e, d)
    if d.kind in ("ArgSort", "Place"):
        return sort_axioms(e, d)
    if d.kind == "Cnt":
        n, _ = d.inst(e)
        w = d.witness(e)
        out.append(e >= 0)
        out.append(z3.Implies(n >= 0, e <= n))
        out.append(z3.Implies(n <= 0, e == 0))
        out.append(z3.Implies(e > 0, z3.And(in_range(w, n),
                                            d.inst(e, w)[1])))
        for t in idx:
            b = d.inst(e, t)[1]
            out.append(z3.Implies(z3.And(in_range(t, n), b), e >= 1))
            out.append(z3.Implies(z3.And(in_range(t, n), z3.Not(b)),
                                  e <= n - 1))
        return out
    if d.kind == "Sel":
        args, k = e.children()[:-1], e.arg(e.num_args() - 1)
        n = z3.substitute(d.n, *zip(d.params, args)) if args else d.n
        cnt, rank = companions(d)
        c = cnt.decl(*args)
        b = d.at(args, e)
        out.append(z3.Implies(in_range(k, c), z3.And(
            in_range(e, n), b, rank.decl(*args, e) == k)))
        return out
    if d.kind == "Rank":
        args, i = e.children()[:-1], e.arg(e.num_args() - 1)
        n = z3.substitute(d.n, *zip(d.params, args)) if args else d.n
        cnt, rank = companions(d)
        sel = family(d, "Sel")
        c = cnt.decl(*args)
        b = d.at(args, i)
        out.append(z3.Implies(z3.And(i >= 0, i <= n),
                              z3.And(e >= 0, e <= c, e <= i)))
        if sel is not None:
            out.append(z3.Implies(z3.And(in_range(i, n), b), z3.And(
                in_range(e, c), sel.decl(*args, e) == i)))
        return out
    if d.kind == "ArgMin":
        n, _ = d.inst(e)
        out.append(z3.Implies(n > 0, in_range(e, n)))
        _, ka = d.inst(e, e)
        for t in idx:
            _, kt = d.inst(e, t)
            out.append(z3.Implies(in_range(t, n), z3.And(
                ka <= kt, z3.Implies(t < e, ka < kt))))
        return out
    if d.kind == "Sum":
        n, _ = d.inst(e)
        out.append(z3.Implies(n <= 0, e == 0))
        if nonneg_body(d):
            out.append(e >= 0)
            for t in idx:
                out.append(z3.Implies(in_range(t, n),
                                      e >= d.inst(e, t)[1]))
        out.append(z3.Implies(n == 1, e == d.inst(e, 0)[1]))
        return out
    return out


def value_axioms(e, d):
    """The enumeration of a finite set of values (binders.Values)."""
    if d.kind == "Cnt":
        n, _ = d.inst(e)
        out = [e >= 0, z3.Implies(n >= 0, e <= n),
               z3.Implies(n >= 1, e >= 1)]
        sel, rank = family(d, "Sel"), family(d, "Rank")
        if sel is not None and rank is not None:
            last = sel.decl(*e.children(), e - 1)
            out.append(z3.Implies(e >= 1, z3.And(
                d.at(e.children(), last),
                rank.decl(*e.children(), last) == e - 1)))
        return out
    args, x = e.children()[:-1], e.arg(e.num_args() - 1)
    cnt, rank, sel = (family(d, k) for k in ("Cnt", "Rank", "Sel"))
    c = cnt.decl(*args)
    if d.kind == "Sel":
        return [z3.Implies(in_range(x, c), z3.And(
            d.at(args, e), rank.decl(*args, e) == x))]
    return [e >= 0, e <= c, z3.Implies(d.at(args, x), z3.And(
        in_range(e, c), sel.decl(*args, e) == x))]


def sort_axioms(e, d):
    """argsort and its inverse: permutations of the indices."""
    args, x = e.children()[:-1], e.arg(e.num_args() - 1)
    n = z3.substitute(d.n, *zip(d.params, args)) if args else d.n
    o = family(d, "Place" if d.kind == "ArgSort" else "ArgSort")
    return [z3.Implies(in_range(x, n), z3.And(
        in_range(e, n), o.decl(*args, e) == x))]


def sort_pairs(a, b):
    """Sorted order between two entries of an argsort."""
    d = Bd.lookup(a)
    args = a.children()[:-1]
    ka, kb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
    same = [x == y for x, y in zip(args, b.children()[:-1])]
    n = z3.substitute(d.n, *zip(d.params, args)) if args else d.n
    va, vb = d.at(args, a), d.at(args, b)
    out = []
    for (k1, e1, v1), (k2, e2, v2) in (((ka, a, va), (kb, b, vb)),
                                       ((kb, b, vb), (ka, a, va))):
        g = z3.And(k1 >= 0, k1 < k2, k2 < n, *same)
        out.append(z3.Implies(g, v1 <= v2))
        if d.extra == "stable":
            out.append(z3.Implies(z3.And(g, v1 == v2), e1 < e2))
    return out


def family(d, kind):
    return Bd._bykey.get((kind, d.n.get_id(), d.body.get_id(),
                          len(d.params), d.extra))


def companions(d):
    # the three symbols of a selection are created together
    return family(d, "Cnt"), family(d, "Rank")


def sel_pairs(a, b):
    ka, kb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
    same = [x == y for x, y in zip(a.children()[:-1], b.children()[:-1])]
    d = Bd.lookup(a)
    c = family(d, "Cnt").decl(*a.children()[:-1])
    return [z3.Implies(z3.And(ka >= 0, kb >= 0, ka < c, kb < c, *same),
                       (ka < kb) == (a < b))]


def values_of(e, d, nm):
    """Positions of the arguments which are values, not indices."""
    if d is None:
        if nm.startswith("wit_"):
            d = Bd.DEFS.get(nm[4:])
        return d.holes if d is not None else ()
    if d.kind == "Rank" and d.extra == "Z":
        return d.holes | {e.num_args() - 1}
    return d.holes


def index_terms(terms):
    """Int terms that could be array indices."""
    out = {}
    for e in terms:
        if is_uf(e):
            d = Bd.lookup(e)
            nm = e.decl().name()
            skip = values_of(e, d, nm)
            for j, a in enumerate(e.children()):
                if a.sort() == T.I and j not in skip and \
                        not Bd.has_var(a, Bd.BOUND):
                    out[a.get_id()] = a
            if e.sort() == T.I and (nm.startswith("wit_") or (
                    d is not None and d.kind in ("Sel", "ArgMin", "ArgSort",
                                                 "Place")
                    and d.extra != "Z")):
                out[e.get_id()] = e
        elif z3.is_const(e) and e.sort() == T.I and \
                e.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                e.decl().name().startswith(("$", "idx")):
            out[e.get_id()] = e
    return list(out.values())


def saturate(forms, rounds=3, max_ax=2500):
    """Axiom instances for the terms of the formulas."""
    axs, done, have = [], set(), {}
    byname = {}
    facts = ctx().facts if ctx() is not None else []
    perms = getattr(ctx(), "perms", ()) if ctx() is not None else ()
    new = list(forms)
    allterms = []
    seen = set()
    idx_done = {}
    for rnd in range(rounds):
        ts = [t for t in subterms(new) if t.get_id() not in seen]
        for t in ts:
            seen.add(t.get_id())
        allterms += ts
        idx = index_terms(allterms)
        if len(idx) > 24:
            idx = idx[:24]
        new = []
        for e in allterms:
            if not is_uf(e) and Bd.lookup(e) is None:
                continue
            if bound_inside(e):
                continue
            d = Bd.lookup(e)
            if d is not None:
                todo = [t for t in idx
                        if (e.get_id(), t.get_id()) not in idx_done]
                first = e.get_id() not in done
                if not first and not todo:
                    continue
                for t in todo:
                    idx_done[e.get_id(), t.get_id()] = 1
                new += binder_axioms(e, d, todo)
                done.add(e.get_id())
                if first and d.kind in ("Sel", "ArgSort"):
                    pairs = sel_pairs if d.kind == "Sel" else sort_pairs
                    for o in byname.setdefault(d.name, []):
                        new += pairs(o, e)
                    byname[d.name].append(e)
                continue
            if e.get_id() in done:
                continue
            done.add(e.get_id())
            n = e.decl().name()
            new += fn_axioms(e)
            if n in ("exp", "sqrt", "log", "acos"):
                lst = byname.setdefault(n, [])
                for o in lst[-8:]:
                    new += pair_axioms(o, e)
                lst.append(e)
            for names, f in facts:
                if n in names:
                    r = f(e)
                    if r is not None:
                        new.append(T.b_z3(r))
            for pm in perms:
                new += perm_axioms(pm, e, allterms)
        fresh = []
        for a in new:
            if not z3.is_true(a) and a.get_id() not in have:
                have[a.get_id()] = a
                fresh.append(a)
        new = fresh
        axs += new
        if not new or len(axs) > max_ax:
            break
    return axs


def perm_axioms(pm, e, allterms):
    return pm[0].axioms(e, *pm[1:])


_bi = {}


def bound_inside(e):
    k = e.get_id()
    r = _bi.get(k)
    if r is None:
        r = Bd.has_var(e, Bd.BOUND) or any(
            c.decl().name().startswith("#p") for c in consts(e))
        _bi[k] = r
        norm._keep.append(e)
    return r


def consts(e):
    return [t for t in subterms([e]) if z3.is_const(t) and
            t.decl().kind() == z3.Z3_OP_UNINTERPRETED]


# --------------------------------------------------------------- abstraction
class Abs:
    """Replaces applications of uninterpreted functions by constants."""

    def __init__(self):
        self.map = {}
        self.apps = {}

    def run(self, e):
        k = e.get_id()
        r = self.map.get(k)
        if r is not None:
            return r[1]
        if not z3.is_app(e) or e.num_args() == 0:
            out = e
        else:
            ch = [self.run(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = (e.decl().name(), tuple(c.get_id() for c in ch))
                lst = self.apps.setdefault(e.decl().name(), {})
                if key in lst:
                    out = lst[key][0]
                else:
                    out = z3.Const(f"{e.decl().name()}@{len(lst)}",
                                   e.sort())
                    lst[key] = (out, ch, e)
            else:
                out = rebuild(e, ch)
        self.map[k] = (e, out)
        return out

    def all(self, fs):
        """``run`` of every formula, by one substitution."""
        if self.apps or len(fs) < 30:
            return [self.run(f) for f in fs]
        ufs = [t for t in subterms(fs) if is_uf(t)]
        if len(ufs) < 10:
            return [self.run(f) for f in fs]
        pairs = []
        for t in ufs:
            n = t.decl().name()
            lst = self.apps.setdefault(n, {})
            out = z3.Const(f"{n}@{len(lst)}", t.sort())
            lst[t.get_id()] = (out, None, t)
            pairs.append((t, out))
        args = [a for t in ufs for a in t.children()]
        r = z3.substitute(z3.And(*fs, *[a == a for a in args]),
                          *pairs).children()
        abst = iter([x.arg(0) for x in r[len(fs):]])
        for n, lst in self.apps.items():
            self.apps[n] = {}
        for t, out in pairs:
            n = t.decl().name()
            ch = [next(abst) for _ in range(t.num_args())]
            self.apps[n][n, tuple(c.get_id() for c in ch)] = (out, ch, t)
            self.map[t.get_id()] = (t, out)
        return r[:len(fs)]

    def congruence(self, cap=400):
        ax = []
        for n, lst in self.apps.items():
            v = list(lst.values())
            if len(v) > 40:
                v = v[:40]
            for i in range(len(v)):
                for j in range(i):
                    eqs = []
                    dead = False
                    for a, b in zip(v[i][1], v[j][1]):
                        if a.eq(b):
                            continue
                        q = z3.simplify(a == b)
                        if z3.is_false(q):
                            dead = True
                            break
                        eqs.append(q)
                    if dead:
                        continue
                    ax.append(z3.Implies(z3.And(*eqs) if eqs else
                                         z3.BoolVal(True),
                                         v[i][0] == v[j][0]))
                    if len(ax) > cap:
                        return ax
        return ax


def rebuild(e, ch):
    if all(a.eq(b) for a, b in zip(ch, e.children())):
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return e.decl()(*ch)


# ------------------------------------------------------------------- queries
def linear(fs):
    for t in subterms(fs):
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL and sum(
                    1 for c in t.children() if not z3.is_rational_value(c)
                    and not z3.is_int_value(c)) > 1:
                return False
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_IDIV,
                     z3.Z3_OP_MOD):
                return False
    return True


def has_int(fs):
    return any(t.sort() == T.I for t in subterms(fs))


def check(fs, timeout, want_model=False):
    """'unsat' | 'sat' | 'unknown', back end, model, of a conjunction."""
    STATS["queries"] += 1
    t0 = time.time()
    ab = Abs()
    gs = ab.all(fs)
    con = ab.congruence()
    if len(con) > 400 and linear(gs):
        # leave congruence to the solver, the constants name the terms
        gs = list(fs) + [out == e for lst in ab.apps.values()
                         for out, _, e in lst.values()]
    else:
        gs += con
    s = z3.Solver()
    first = timeout if linear(gs) else min(timeout, max(1.0, timeout * 0.3))
    s.set("timeout", int(first * 1000))
    for g in gs:
        s.add(g)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", "z3", None
    if r == z3.sat:
        return "sat", "z3", (s.model(), ab)
    if linear(gs):
        return "unknown", "z3", None
    if not has_int(gs):
        t0 = time.time()
        try:
            s2 = z3.Then("simplify", "solve-eqs", "elim-term-ite", "simplify",
                         "purify-arith", "tseitin-cnf",
                         "qfnra-nlsat").solver()
            s2.set("timeout", int(timeout * 400))
            for g in gs:
                s2.add(g)
            r = s2.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS["z3"] += time.time() - t0
        if r == z3.unsat:
            return "unsat", "z3-nlsat", None
        if r == z3.sat:
            try:
                return "sat", "z3-nlsat", (s2.model(), ab)
            except z3.Z3Exception:
                return "sat", "z3-nlsat", None
    t0 = time.time()
    r = cvc5(gs, timeout * 0.6)
    STATS["cvc5"] += time.time() - t0
    if r == "unsat":
        return "unsat", "cvc5", None
    return "unknown", "z3+cvc5", None


def cvc5(gs, timeout):
    s = z3.Solver()
    for g in gs:
        s.add(g)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2",
                                     delete=False) as fh:
        fh.write(txt)
    try:
        p = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout * 1000)}", "--nl-cov",
             fh.name], capture_output=True, text=True,
            timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(fh.name)


_feas = {}


def feasible(assumptions, extra):
    """False only when assumptions and extra are contradictory (cheap)."""
    extra = T.b_z3(extra)
    if z3.is_false(extra):
        return False
    e = norm.b_f(safe_canon(extra))
    if e is False:
        return False
    key = (tuple(a.get_id() for a in assumptions), extra.get_id())
    r = _feas.get(key)
    if r is not None:
        return r[0]
    r = _feasible(list(assumptions) + [extra], FEAS_MS / 1000.0, 2)
    _feas[key] = (r, list(assumptions), extra)
    return r


def feasible_full(assumptions, extra):
    extra = T.b_z3(extra)
    if z3.is_false(extra):
        return False
    return _feasible(list(assumptions) + [extra], 6.0, 3)


def safe_canon(e):
    try:
        return norm.canon(e)
    except norm.TooBig:
        return e


_ro = {}


def real_free(e):
    k = e.get_id()
    r = _ro.get(k)
    if r is None:
        r = _ro[k] = (e, not any(t.sort() == T.R for t in subterms([e])))
    return r[1]


def _feasible(fs, timeout, rounds):
    fs = [safe_canon(f) for f in fs]
    if any(z3.is_false(f) for f in fs):
        return False
    if real_free(fs[-1]):
        # integers alone first
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        for f in fs:
            if real_free(f):
                s.add(f)
        if s.check() == z3.unsat:
            return False
    fs = cone(fs)
    axs = saturate(fs, rounds=rounds, max_ax=300)
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    ab = Abs()
    for f in ab.all(fs + axs):
        s.add(f)
    for f in ab.congruence():
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS["z3"] += time.time() - t0
    return r != z3.unsat


def cone(fs):
    """Keep the hypotheses that share symbols with the last formula."""
    goal = fs[-1]
    want = symbols(goal)
    if not want:
        return fs
    rest = [(f, symbols(f)) for f in fs[:-1]]
    keep = []
    again = True
    while again:
        again = False
        for j, (f, s) in enumerate(rest):
            if f is not None and (s & want or not s):
                want |= s
                keep.append(f)
                rest[j] = (None, set())
                again = True
    return keep + [goal]


_sy = {}


def symbols(e):
    k = e.get_id()
    r = _sy.get(k)
    if r is not None:
        return r[1]
    out = set()
    for t in subterms([e]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n not in ("pi", "sqrt", "exp", "sin", "cos", "log", "atan2",
                         "acos", "pow"):
                out.add(n)
            d = Bd.DEFS.get(n)
            if d is not None:
                out |= symbols(d.body) | symbols(d.n)
    _sy[k] = (e, out)
    return out


# ------------------------------------------------------------------- proving
class Budget:
    def __init__(self, seconds):
        self.end = time.time() + seconds

    def left(self):
        return self.end - time.time()


def prove(ob, timeout=TIMEOUT, budget=None):
    """Fill in ob.status: proved | failed | unknown."""
    t0 = time.time()
    budget = budget or Budget(6 * timeout)
    g = ob.goal
    try:
        if g is True:
            ob.status, ob.backend = "proved", "evaluation"
        else:
            hyps, g = [h for h in ob.hyps], T.b_z3(g)
            named = name_places(simplify_hyps(hyps), g, timeout, budget)
            if named is not None:
                hyps = [z3.substitute(h, *named) for h in hyps]
                g = z3.substitute(g, *named)
            st, be, model, detail = go(hyps, g, timeout, budget, 0)
            ob.status, ob.backend, ob.model, ob.detail = st, be, model, \
                detail
    except norm.TooBig:
        ob.status, ob.backend, ob.detail = "unknown", "canonical", "too big"
    ob.time = time.time() - t0
    return ob


ORDER = ["evaluation", "canonical", "z3", "z3-nlsat", "cvc5", "z3+cvc5"]


def worse(a, b):
    return a if ORDER.index(a) >= ORDER.index(b) else b


def go(hyps, goal, timeout, budget, depth):
    """(status, back end, model, detail)"""
    if z3.is_true(goal):
        return "proved", "canonical", None, ""
    c = safe_canon(goal)
    if z3.is_true(c):
        return "proved", "canonical", None, ""
    if z3.is_and(goal) or z3.is_and(c):
        be = "canonical"
        for ch in (goal if z3.is_and(goal) else c).children():
            st, b, m, d = go(hyps, ch, timeout, budget, depth + 1)
            if st != "proved":
                return st, b, m, d
            be = worse(be, b)
        return "proved", be, None, ""
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        return go(hyps, z3.And(*[T.b_z3(T.b_not(x)) for x in
                                 goal.arg(0).children()]), timeout, budget,
                  depth + 1)
    if z3.is_implies(goal):
        return go(hyps + conj(goal.arg(0)), goal.arg(1), timeout, budget,
                  depth + 1)
    if z3.is_or(goal):
        ch = list(goal.children())
        last = pick_goal(ch)
        for x in ch:
            if x is not last:
                hyps = hyps + conj(T.b_z3(T.b_not(x)))
        return go(hyps, last, timeout, budget, depth + 1)
    if z3.is_eq(goal) and goal.arg(0).sort() == T.B:
        a, b = goal.children()
        r1 = go(hyps + conj(a), b, timeout, budget, depth + 1)
        if r1[0] != "proved":
            return r1
        r2 = go(hyps + conj(b), a, timeout, budget, depth + 1)
        if r2[0] != "proved":
            return r2
        return "proved", worse(r1[1], r2[1]), None, ""
    if z3.is_eq(goal) and goal.arg(0).sort() == T.R:
        if poly_equal(goal, hyps):
            return "proved", "canonical", None, ""
    hyps = simplify_hyps(hyps)
    if any(z3.is_false(h) for h in hyps):
        return "proved", "canonical", None, "contradictory hypotheses"
    if any(h.eq(c) for h in hyps):
        return "proved", "canonical", None, ""
    sub = unselect(hyps, goal, budget)
    if sub:
        return go([z3.substitute(h, *sub) for h in hyps],
                  z3.substitute(goal, *sub), timeout, budget, depth + 1)
    # evaluate the goal under the hypotheses
    g2 = under(hyps, goal)
    if g2 is not None:
        if z3.is_true(g2):
            return "proved", "canonical", None, ""
        if not z3.is_false(g2) and (z3.is_and(g2) or z3.is_or(g2)) and \
                depth < 12:
            return go(hyps, g2, timeout, budget, depth + 1)
        if z3.is_eq(g2) and g2.arg(0).sort() == T.R and poly_equal(g2,
                                                                   hyps):
            return "proved", "canonical", None, ""
        if not z3.is_false(g2):
            goal = g2
    if z3.is_eq(goal) and goal.arg(0).sort() == T.R and depth <= 30:
        g2 = combine_sums(hyps, goal, timeout, budget, depth)
        if g2 is not None:
            g2 = safe_canon(g2)
            if z3.is_true(g2):
                return "proved", "canonical", None, ""
            goal = g2
    lem = sum_lemmas(hyps, goal, timeout, budget, depth)
    if depth >= 100:
        # a leaf of the case analysis
        return leaf(hyps + lem, goal, timeout, budget)
    st = smt(hyps + lem, goal, min(timeout, 2.0), budget)
    if st[0] == "proved" or (st[0] == "failed" and st[2] is not None):
        return st
    g2 = expand_angles(goal)
    if g2 is not None:
        r = go(hyps, g2, timeout, budget, depth + 1)
        if r[0] == "proved":
            return r
    r = cases(hyps + lem, goal, timeout, budget)
    if r is not None and (r[0] == "proved" or st[2] is None):
        return r
    if st[2] is not None:
        return st
    return smt(hyps + lem, goal, timeout, budget)


def unselect(hyps, goal, budget):
    """[(Sel(Rank(i)), i)]: the element with the rank of i is i, where i is
    selected."""
    out = []
    for t in subterms([goal] + hyps):
        d = Bd.lookup(t)
        if d is None or d.kind != "Sel" or bound_inside(t):
            continue
        r = t.arg(t.num_args() - 1)
        dr = Bd.lookup(r)
        if dr is None or dr.kind != "Rank" or dr is not companions(d)[1] or \
                not all(a.eq(b) for a, b in zip(t.children()[:-1],
                                                r.children()[:-1])):
            continue
        i = r.arg(r.num_args() - 1)
        args = t.children()[:-1]
        n = z3.substitute(d.n, *zip(d.params, args)) if args else d.n
        cond = z3.And(in_range(i, n), d.at(args, i))
        if budget.left() > 1 and not _feasible(
                list(hyps) + [z3.Not(cond)], 0.6, 2):
            out.append((t, i))
    return out


def leaf(hyps, goal, timeout, budget):
    if z3.is_eq(goal) and goal.arg(0).sort() == T.R:
        try:
            g = split_logs(hyps, goal)
        except Contradiction:
            return "proved", "z3", None, ""
        g = vanish(hyps, g)
        if poly_equal(g, hyps):
            return "proved", "canonical", None, ""
        f = plain_factor(g)
        if combination(g if f is None else f, hyps):
            return "proved", "canonical", None, ""
        if f is not None:
            st = smt(hyps, f, timeout, budget)
            if st[0] == "proved":
                return st
    return smt(hyps, goal, timeout, budget)


def expand_angles(goal):
    """The goal with sin and cos of atan2(y, x) as y / r and x / r."""
    ts = [t for t in subterms([goal]) if is_uf(t) and
          t.decl().name() in ("sin", "cos") and is_uf(t.arg(0)) and
          t.arg(0).decl().name() == "atan2" and not bound_inside(t)]
    if not ts:
        return None
    sub = []
    for t in sorted(ts, key=lambda t: len(subterms([t]))):
        y, x = t.arg(0).children()
        try:
            py, px = norm.poly(y), norm.poly(x)
            r2 = norm.p_add(norm.p_mul(py, py), norm.p_mul(px, px))
            norm.note_squares([py, px], r2)
            r = norm.to_z3(norm.p_sqrt(r2))
        except norm.TooBig:
            return None
        zero = z3.And(y == 0, x == 0)
        sub.append((t, z3.If(zero, T.ZERO, y / r)
                    if t.decl().name() == "sin" else
                    z3.If(zero, T.ONE, x / r)))
    return z3.substitute(goal, *sub)


def vanish(hyps, goal):
    """Roots of sums of squares which the hypotheses make zero."""
    have = {h.get_id() for h in hyps}
    sub = []
    for t in subterms([safe_canon(goal)]):
        if not (is_uf(t) and t.decl().name() == "sqrt"):
            continue
        sq = norm.squares_of(norm.poly(t.arg(0)))
        if sq and all(norm.eq_canon(r, True).get_id() in have for r in sq):
            sub.append((t, T.ZERO))
    return z3.substitute(safe_canon(goal), *sub) if sub else goal


def combination(goal, hyps, limit=150):
    """Is p (of the goal p = 0) a combination of the polynomials which the
    hypotheses make zero, with monomials as coefficients?"""
    def diff(e):
        return norm.p_add(norm.poly(e.arg(0)), norm.poly(e.arg(1)), -1)
    try:
        g = diff(goal)
        eqs = [diff(h) for h in hyps
               if z3.is_eq(h) and h.arg(0).sort() == T.R]
    except norm.TooBig:
        return False
    eqs = [e for e in eqs if e and len(e) <= 12]
    if not eqs or not g or len(g) > 60:
        return False
    rows, seen, todo, known = [], set(), list(g), set(g)
    while todo and len(rows) < limit:
        t = todo.pop(0)
        for k, e in enumerate(eqs):
            for m in e:
                q = m_div(t, m)
                if q is None or (k, q) in seen:
                    continue
                seen.add((k, q))
                r = norm.p_mul(e, {q: Fraction(1)})
                rows.append(r)
                for x in r:
                    if x not in known:
                        known.add(x)
                        todo.append(x)
    # Gaussian elimination
    basis = []
    for r in rows:
        r = reduce_by(r, basis)
        if r:
            basis.append((max(r), r))
    return not reduce_by(g, basis)


def m_div(t, m):
    have = dict(t)
    for i, k in m:
        if k < 0 or have.get(i, 0) < k:
            return None
        have[i] -= k
    return tuple((i, k) for i, k in sorted(have.items()) if k)


def reduce_by(r, basis):
    r = dict(r)
    for lead, b in basis:
        c = r.get(lead)
        if c:
            r = norm.p_add(r, b, -c / b[lead])
    return {m: c for m, c in r.items() if c}


def plain_factor(goal):
    """An equation q = 0 which implies the goal p = 0, where p is q times
    inverses, roots and other functions."""
    try:
        p = norm.p_add(norm.poly(goal.arg(0)), norm.poly(goal.arg(1)), -1)
        if not p:
            return None
        mono, rest = norm.common(p)
    except norm.TooBig:
        return None
    keep, drop = [], False
    for i, k in mono:
        if k > 0 and i not in norm._inv and \
                norm.kindname(norm.ATOM[i]) != "sqrt":
            keep.append((i, k))
        else:
            drop = True
    if not drop:
        return None
    q = norm.p_mul(rest, {tuple(keep): Fraction(1)}) if keep else rest
    return norm.to_z3(q) == T.ZERO


def quick(hyps, a):
    """True / False when the hypotheses decide the atom, else None."""
    yes = not _feasible(list(hyps) + [z3.Not(a)], 0.6, 2)
    no = not _feasible(list(hyps) + [a], 0.6, 2)
    if yes and no:
        raise Contradiction()
    return True if yes else False if no else None


class Contradiction(Exception):
    """The hypotheses are contradictory."""


def bool_atoms(e):
    """Boolean atoms of a formula, conditions of if-terms first."""
    conds, props = [], []

    def atoms(b, out):
        if z3.is_and(b) or z3.is_or(b) or z3.is_not(b) or \
                z3.is_implies(b) or (z3.is_app(b) and b.decl().kind() ==
                                     z3.Z3_OP_ITE and b.sort() == T.B) or (
                z3.is_eq(b) and b.arg(0).sort() == T.B):
            for c in b.children():
                atoms(c, out)
        elif not z3.is_true(b) and not z3.is_false(b):
            out.append(b)
    for t in subterms([e]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            atoms(t.arg(0), conds)
    if e.sort() == T.B:
        atoms(e, props)
    out, seen = [], set()
    for a in conds + props:
        if a.get_id() not in seen and not bound_inside(a):
            seen.add(a.get_id())
            out.append(a)
    out.sort(key=lambda a: len(subterms([a])))
    return out


def simp(e, atom, value):
    r = z3.substitute(e, (atom, z3.BoolVal(value)))
    return z3.simplify(r, arith_lhs=False) if False else fold(r)


def fold(e):
    """Propagate Boolean constants without touching arithmetic."""
    memo = {}

    def go_(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            kd = t.decl().kind()
            if kd == z3.Z3_OP_ITE:
                c = go_(t.arg(0))
                if z3.is_true(c):
                    r = go_(t.arg(1))
                elif z3.is_false(c):
                    r = go_(t.arg(2))
                else:
                    a, b = go_(t.arg(1)), go_(t.arg(2))
                    r = a if a.eq(b) else z3.If(c, a, b)
            else:
                ch = [go_(c) for c in t.children()]
                if kd == z3.Z3_OP_AND:
                    r = T.b_z3(T.b_and(*[norm.b_f(c) for c in ch]))
                elif kd == z3.Z3_OP_OR:
                    r = T.b_z3(T.b_or(*[norm.b_f(c) for c in ch]))
                elif kd == z3.Z3_OP_NOT:
                    r = T.b_z3(T.b_not(norm.b_f(ch[0])))
                elif kd == z3.Z3_OP_IMPLIES:
                    r = T.b_z3(T.b_implies(norm.b_f(ch[0]),
                                           norm.b_f(ch[1])))
                elif kd == z3.Z3_OP_EQ and ch[0].sort() == T.B:
                    r = T.b_z3(T.bool_iff(norm.b_f(ch[0]), norm.b_f(ch[1])))
                else:
                    r = rebuild(t, ch)
        memo[k] = (t, r)
        return r
    return go_(e)


CASES = 48


def cases(hyps, goal, timeout, budget):
    """Case analysis on the conditions inside the goal."""
    leaves = [0]

    def rec(hyps, g, depth):
        if budget.left() < 1 or leaves[0] > CASES:
            return "unknown", "z3+cvc5", None, "too many cases"
        while True:
            g = safe_canon(g)
            if z3.is_true(g):
                return "proved", "canonical", None, ""
            changed = False
            todo = None
            for a in bool_atoms(g)[:24]:
                if a.eq(g) or (z3.is_not(g) and a.eq(g.arg(0))):
                    continue
                try:
                    q = quick(hyps, a)
                except Contradiction:
                    return "proved", "z3", None, ""
                if q is None:
                    todo = a
                    break
                g = simp(g, a, q)
                changed = True
                break
            if not changed:
                break
        if todo is None:
            leaves[0] += 1
            return go(hyps, g, timeout, budget, 100)
        be = "canonical"
        for v in (True, False):
            h = todo if v else z3.Not(todo)
            st = rec(hyps + [h], simp(g, todo, v), depth + 1)
            if st[0] != "proved":
                return st
            be = worse(be, st[1])
        return "proved", be, None, ""
    if not [a for a in bool_atoms(goal) if not a.eq(goal)]:
        # nothing to split
        leaf_ = leaf(hyps, goal, timeout, budget)
        return leaf_
    return rec(list(hyps), goal, 0)


def split_logs(hyps, goal):
    """log of a product of factors of known sign as a sum of logarithms."""
    sub = []
    for t in subterms([goal]):
        if is_uf(t) and t.decl().name() == "log" and not bound_inside(t):
            try:
                p = norm.poly(t.arg(0))
            except norm.TooBig:
                continue
            mono, rest = norm.common(p)
            fs = [(norm._inv[i], -k) if i in norm._inv else
                  (norm.p_atom(norm.ATOM[i]), k) for i, k in mono]
            fs.append((rest, 1))
            fs = [(f, k) for f, k in fs if norm.p_isconst(f) != 1]
            if len(fs) < 2:
                continue
            out = []
            for f, k in fs:
                e = norm.to_z3(f)
                if quick(hyps, e > 0) is True:
                    out.append((e, k))
                elif quick(hyps, e < 0) is True:
                    out.append((-e, k))
                else:
                    out = None
                    break
            if out is None:
                continue
            sub.append((t, z3.Sum(*[k * T.f_log(e) for e, k in out])))
    return z3.substitute(goal, *sub) if sub else goal


def conj(e):
    if z3.is_and(e):
        r = []
        for c in e.children():
            r += conj(c)
        return r
    if z3.is_not(e) and z3.is_or(e.arg(0)):
        r = []
        for c in e.arg(0).children():
            r += conj(T.b_z3(T.b_not(c)))
        return r
    return [e]


def pick_goal(ch):
    """The disjunct to prove: the most complex positive one."""
    best = ch[-1]
    score = -1
    for x in ch:
        s = 0
        if not z3.is_not(x):
            s += 2
        if z3.is_and(x):
            s += 3
        if z3.is_eq(x):
            s += 2
        if s >= 4:
            s += len(subterms([x])) / 1e6
        if s > score:
            best, score = x, s
    return best


def simplify_hyps(hyps):
    out, seen = [], set()
    for h in hyps:
        for c in conj(safe_canon(h)):
            if z3.is_true(c) or c.get_id() in seen:
                continue
            seen.add(c.get_id())
            out.append(c)
    return out


def under(hyps, goal):
    """Replace atoms of the goal known from the hypotheses."""
    sub = []
    for h in hyps:
        if z3.is_not(h):
            sub.append((h.arg(0), z3.BoolVal(False)))
        else:
            sub.append((h, z3.BoolVal(True)))
    sub = [(a, b) for a, b in sub if not z3.is_true(a) and
           not z3.is_false(a)]
    if not sub:
        return None
    c = safe_canon(goal)
    r = z3.substitute(c, *sub)
    if r.eq(c):
        return c
    return safe_canon(z3.simplify(r)) if not z3.is_eq(r) else safe_canon(r)


def poly_equal(goal, hyps=()):
    try:
        p = norm.p_add(norm.poly(goal.arg(0)), norm.poly(goal.arg(1)), -1)
        if not p:
            return True
        q, dens = norm.clear_denominators(p)
        if not q:
            return True
        q = norm.merge_sqrt(q)
        if not q:
            return True
    except norm.TooBig:
        pass
    return False


def sums_in(e):
    out = []
    for t in subterms([e]):
        d = Bd.lookup(t)
        if d is not None and d.kind in ("Sum", "Cnt", "Any") and \
                not bound_inside(t):
            out.append((t, d))
    return out


def summand(d, a, k):
    b = d.inst(a, k)[1]
    if d.kind == "Cnt":
        return z3.If(b, T.ONE, T.ZERO)
    return z3.ToReal(b) if b.sort() == T.I else b


def combine_sums(hyps, goal, timeout, budget, depth):
    """goal without those linear combinations of sums over one domain whose
    summands add up to zero."""
    try:
        p = norm.p_add(norm.poly(goal.arg(0)), norm.poly(goal.arg(1)), -1)
    except norm.TooBig:
        return None
    groups = {}
    for m, c in p.items():
        for i, e in m:
            a = norm.ATOM[i]
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
                a = a.arg(0)
            d = Bd.lookup(a)
            if d is not None and d.kind in ("Sum", "Cnt") and e == 1 and \
                    not bound_inside(a):
                n, _ = d.inst(a)
                key = (norm.m_mul(m, ((i, -1),)), n.get_id())
                groups.setdefault(key, []).append((m, c, a, d))
                break
    done = False
    for (rest, _), xs in groups.items():
        if len(xs) < 2 or budget.left() < 1:
            continue
        k = Bd.index_var("q")
        n, _ = xs[0][3].inst(xs[0][2])
        body = z3.Sum(*[T.real_const(c) * summand(d, a, k)
                        for _, c, a, d in xs])
        eq = body == T.ZERO
        # the length itself is the sum of ones
        t = norm.canon(z3.ToReal(n))
        m = norm.m_mul(rest, ((t.get_id(), 1),))
        if m in p and z3.is_app(t) and t.decl().kind() == \
                z3.Z3_OP_TO_REAL and not plausible(body, T.ZERO) and \
                not _feasible(list(hyps) + [n < 0], 0.6, 2):
            xs = xs + [(m, p[m], None, None)]
            eq = body + T.real_const(p[m]) == T.ZERO
        if not plausible(eq.arg(0), eq.arg(1)):
            continue
        if poly_equal(eq, hyps) or go(
                hyps + [k >= 0, k < n], eq, min(3.0, timeout), budget,
                depth + 20)[0] == "proved":
            for m, c, _, _ in xs:
                p.pop(m, None)
            done = True
    if not done:
        return None
    return norm.to_z3(p) == T.ZERO


def plausible(a, b, samples=10):
    """False when the two terms differ at all of some random points (a
    filter: nothing is concluded from it)."""
    import random
    tried = 0
    for s in range(samples):
        rnd = random.Random(s)
        memo, vals = {}, {}
        try:
            x, y = numeric(a, rnd, memo, vals), numeric(b, rnd, memo, vals)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError,
                NotImplementedError):
            continue
        tried += 1
        if x == y or abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y)):
            return True
    return tried < 3


def numeric(e, rnd, memo, vals):
    import math
    k = e.get_id()
    if k in memo:
        return memo[k]
    kd = e.decl().kind()
    if z3.is_int_value(e):
        r = e.as_long()
    elif z3.is_rational_value(e):
        r = float(e.as_fraction())
    elif kd == z3.Z3_OP_ITE:
        r = numeric(e.arg(1) if numeric(e.arg(0), rnd, memo, vals) else
                    e.arg(2), rnd, memo, vals)
    else:
        ch = [numeric(c, rnd, memo, vals) for c in e.children()]
        if kd == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n in NUMF:
                r = NUMF[n](*ch)
            elif n == "pi":
                r = math.pi
            else:
                key = (n, tuple(ch))
                if key not in vals:
                    s = e.sort()
                    vals[key] = rnd.random() < 0.5 if s == T.B else \
                        rnd.randrange(0, 6) if s == T.I else \
                        rnd.choice((1, -1)) * rnd.uniform(0.2, 3)
                r = vals[key]
        elif kd == z3.Z3_OP_ADD:
            r = sum(ch)
        elif kd == z3.Z3_OP_MUL:
            r = math.prod(ch)
        elif kd == z3.Z3_OP_SUB:
            r = ch[0] - sum(ch[1:])
        elif kd == z3.Z3_OP_UMINUS:
            r = -ch[0]
        elif kd == z3.Z3_OP_DIV:
            r = ch[0] / ch[1]
        elif kd == z3.Z3_OP_TO_REAL:
            r = float(ch[0])
        elif kd == z3.Z3_OP_TO_INT:
            r = math.floor(ch[0])
        elif kd == z3.Z3_OP_LE:
            r = ch[0] <= ch[1]
        elif kd == z3.Z3_OP_GE:
            r = ch[0] >= ch[1]
        elif kd == z3.Z3_OP_LT:
            r = ch[0] < ch[1]
        elif kd == z3.Z3_OP_GT:
            r = ch[0] > ch[1]
        elif kd == z3.Z3_OP_EQ:
            r = ch[0] == ch[1]
        elif kd == z3.Z3_OP_NOT:
            r = not ch[0]
        elif kd == z3.Z3_OP_AND:
            r = all(ch)
        elif kd == z3.Z3_OP_OR:
            r = any(ch)
        elif kd == z3.Z3_OP_TRUE:
            r = True
        elif kd == z3.Z3_OP_FALSE:
            r = False
        else:
            raise NotImplementedError
    memo[k] = r
    return r


def _numf():
    import math
    return dict(sqrt=math.sqrt, exp=math.exp, log=math.log, sin=math.sin,
                cos=math.cos, atan2=math.atan2, acos=math.acos,
                pow=lambda a, b: a ** b)


NUMF = _numf()


def name_places(hyps, goal, timeout, budget):
    """[(place of an extremum, variable)] for the index variables which the
    hypotheses make that place."""
    places = [t for t in subterms([goal]) if Bd.lookup(t) is not None and
              Bd.lookup(t).kind == "ArgMin" and not bound_inside(t)]
    if not places:
        return None
    names = [t for t in subterms(hyps) if z3.is_const(t) and
             t.sort() == T.I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
             and Bd.lookup(t) is None]
    out = []
    for p in places[:4]:
        for v in names[:6]:
            if budget.left() < 4:
                break
            key = (p.get_id(), v.get_id(), tuple(h.get_id() for h in hyps))
            if key in NAMED:
                st = NAMED[key]
            elif len(saturate(cone(hyps + [p == v]), 3, PLACE)) > PLACE:
                # too much is known of these terms for a quick answer
                st = NAMED[key] = "unknown"
                KEEP.extend([p, v, *hyps])
            else:
                st = NAMED[key] = smt(hyps, p == v, min(1.5, timeout),
                                      budget, False)[0]
                KEEP.extend([p, v, *hyps])
            if st == "proved":
                out.append((p, v))
                break
    return out or None


NAMED, KEEP, PLACE = {}, [], 600


def sum_lemmas(hyps, goal, timeout, budget, depth):
    """Equations between sums (counts, ...) whose bodies are provably
    equal."""
    if depth > 30:
        return []
    ss = sums_in(goal)
    lem = []
    for kind in ("Sum", "Cnt", "Any"):
        xs = [(t, d) for t, d in ss if d.kind == kind]
        if len(xs) < 2 or len(xs) > 8:
            continue
        for i in range(len(xs)):
            for j in range(i):
                if budget.left() < 2:
                    return lem
                (a, da), (b, db) = xs[i], xs[j]
                na, _ = da.inst(a)
                nb, _ = db.inst(b)
                k = Bd.index_var("q")
                _, ba = da.inst(a, k)
                _, bb = db.inst(b, k)
                if not plausible(ba, bb):
                    continue
                if not na.eq(nb):
                    st = go(hyps, na == nb, min(2.0, timeout), budget,
                            depth + 20)
                    if st[0] != "proved":
                        continue
                st = go(hyps + [k >= 0, k < na], ba == bb,
                        min(3.0, timeout), budget, depth + 20)
                if st[0] == "proved":
                    lem.append(a == b)
    return lem


EXACT = set()


def smt(hyps, goal, timeout, budget, deeper=True):
    left = budget.left()
    if left <= 0.5:
        return "unknown", "z3+cvc5", None, "time budget used up"
    neg = z3.Not(goal)
    fs = cone(hyps + [safe_canon(neg)])
    axs = saturate(fs)
    to = min(timeout, left)
    st, be, model = check(fs + axs, to)
    if st == "unsat":
        return "proved", be, None, ""
    if st == "sat":
        left = budget.left()
        if deeper and left > 1 and not exact(fs):
            # a second look with more axiom instances
            more = saturate(fs, 5, 5000)
            if len(more) > len(axs):
                st, be, m2 = check(fs + more, min(timeout, left))
                if st == "unsat":
                    return "proved", be, None, ""
        return ("failed" if exact(fs) else "unknown"), be, (
            model, fs, axs), "counter-model"
    return "unknown", be, None, "no answer"


def exact(fs):
    """No incomplete axioms were needed to interpret the formulas."""
    for t in subterms(fs):
        if Bd.lookup(t) is not None:
            return False
        if is_uf(t) and t.decl().name() in (
                "exp", "sin", "cos", "log", "atan2", "acos", "pow"):
            return False
    return True
