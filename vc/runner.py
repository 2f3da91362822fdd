"""Runs the contracts of one property and reports."""
from __future__ import annotations

import dataclasses
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import consts, digest, pool
from .contract import REG

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
BASELINE = os.path.join(HERE, "baseline.json")
RETRY = 200.0
SLOTS = max(2, min(8, os.cpu_count() or 2))

TIERS = {
    # run-time seconds per unit weight and worker, workers, deadline
    "quick": dict(rt=5.0, workers=3, deadline=420.0, sym=300.0, rt_cap=40.0),
    "thorough": dict(rt=60.0, workers=6, deadline=3000.0, sym=1500.0,
                     rt_cap=400.0),
}


def known_findings():
    """{key: text} of the recorded, unrepaired findings."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                key, _, text = body.partition(" || ")
                out[key.split("=", 1)[1].strip()] = text.strip()
    return out


def contracts_of(prop):
    import contracts
    contracts.load_all()
    return [c for c in REG if prop in c.props]


def git_head(path):
    try:
        return subprocess.run(["git", "-C", path, "rev-parse", "HEAD"],
                              capture_output=True, text=True,
                              timeout=20).stdout.strip()
    except Exception:
        return ""


def source_digest():
    h = hashlib.sha256()
    d = os.path.join(REPO, "graphicle")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


# ------------------------------------------------------------ run-time half
def run_time_half(cs, seed, cfg, deadline):
    """Executed in its own process: loads the real package, then evaluates
    every contract in forked workers."""
    from . import concrete, rt
    t0 = time.time()
    try:
        g = rt.load_real(REPO)
    except Exception as e:
        return dict(load_error=f"{type(e).__name__}: {e}\n" +
                    traceback.format_exc(limit=-8))
    load_s = time.time() - t0
    concrete.use_constants(*consts.new(REPO))
    tasks = []
    live = [c for c in cs if c.mode != "symbolic"]
    total = sum(c.weight for c in live) or 1.0
    per = min(cfg["rt"], cfg["rt_cap"] * SLOTS / (cfg["workers"] * total))
    for w in range(cfg["workers"]):
        for c in live:
            def fn(c=c, w=w):
                return _slim(concrete.run(c, g, seed * 1000 + w,
                                          per * c.weight))
            tasks.append(pool.Task((c.key, w), fn, per * c.weight + 150))
    res = {}
    known = known_findings()
    by_key = {c.key: c for c in cs}

    def on_done(t):
        res.setdefault(t.key[0], []).append(
            dict(state=t.state, worker=t.key[1], r=t.result, wall=t.wall))

    def stop(t):
        return t.state == "done" and t.result.get("status") == "fail" and \
            not by_key[t.key[0]].private and \
            f"{t.key[0]}:{t.result['check']}" not in known
    pool.run_tasks(tasks, SLOTS, deadline, on_done, stop)
    return dict(load_s=load_s, results=res)


def _slim(r):
    from .concrete import plain
    if r["status"] == "fail":
        e = r.pop("error")
        r["error"] = f"{e.name}: {e.detail}" if e.detail else e.name
        r["check"] = e.name
        try:
            r["inputs"] = plain(r["inputs"])
        except Exception as x:
            r["inputs"] = repr(x)
    return r


# --------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []          # (line suffix, replay dict)
        self.known_lines = []
        self.lost = {}
        self.models = {}

    def replay_path(self, body):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        text = json.dumps(body, indent=1, default=repr)
        h = hashlib.sha256(text.encode()).hexdigest()[:10]
        p = os.path.join(d, f"{self.prop}-{h}.json")
        with open(p, "w") as f:
            f.write(text + "\n")
        return p


def check(prop, tier, seed, only=None, no_sym=False, verbose=False):
    t0 = time.time()
    cfg = TIERS[tier]
    deadline = t0 + cfg["deadline"]
    cs = contracts_of(prop)
    if only:
        cs = [c for c in cs if any(o in c.key for o in only)]
    if not cs:
        raise SystemExit(f"no contract for {prop}")
    rep = Report(prop, tier, seed)
    cache = tempfile.mkdtemp(prefix="vcnumba")
    own_cache = "NUMBA_CACHE_DIR" not in os.environ
    if own_cache:
        os.environ["NUMBA_CACHE_DIR"] = cache
    os.environ.setdefault("NUMBA_NUM_THREADS", "4")
    try:
        sym_tasks = []
        if not no_sym:
            try:
                from . import symbolic
            except ImportError:
                symbolic = None
            if symbolic is not None:
                symbolic.preload()
                for c in cs:
                    if c.mode == "concrete":
                        continue
                    for part in symbolic.parts(c):
                        def fn(c=c, part=part):
                            return symbolic.verify(c, part, REPO, tier, seed)
                        sym_tasks.append(pool.Task(
                            ("sym", c.key, part), fn,
                            cfg["sym"]))
        rt_task = pool.Task(
            ("rt",), lambda: run_time_half(cs, seed, cfg, deadline - 20),
            cfg["deadline"])
        sym = {}

        def on_done(t):
            if t.key[0] == "sym":
                sym.setdefault(t.key[1], []).append(t)
                if verbose:
                    r = t.result
                    print(f"  {t.key[1]} {t.key[2]} {t.state} "
                          f"{t.wall:.1f}s", _brief(r) if t.state == "done"
                          else r, flush=True)
        pool.run_tasks([rt_task] + sym_tasks, SLOTS, deadline, on_done)
        lost = lost_proofs(cs, sym)
        if lost:
            # proved on the recorded tree, open on this changed one: once
            # more with the limits of the thorough tier
            # (and for a few fixed lengths: what holds there and is merely
            # out of the verifier's reach in general raises no alarm)
            sym2, short = {}, {}
            again = [pool.Task(
                ("sym", c.key, "all"),
                lambda c=c: symbolic.verify(c, "all", REPO, "thorough", seed),
                RETRY) for c in cs if c.key in lost]
            again += [pool.Task(
                ("short", c.key, "all"),
                lambda c=c: symbolic.verify(
                    dataclasses.replace(c, lengths=symbolic.FALLBACK), "all",
                    REPO, "quick", seed), RETRY)
                for c in cs if c.key in lost and c.lengths is None]

            def on_again(t):
                if t.key[0] == "short":
                    short[t.key[1]] = proved(t)
                elif t.state == "done":
                    sym2[t.key[1]] = [t]
            pool.run_tasks(again, SLOTS, time.time() + RETRY + 5, on_again)
            sym.update(sym2)
            rep.lost = {k: (o, short.get(k, False))
                        for k, o in lost_proofs(cs, sym).items()}
        rep.models = replay_phase(cs, sym, seed, cfg)
        finish(rep, cs, rt_task, sym, t0, verbose)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    for line in rep.known_lines:
        print(line)
    for path, tail in rep.violations:
        print(f"VIOLATION property={prop} replay={path}" +
              (" " + tail if tail else ""))
    return 1 if rep.violations else 0


def proved(t):
    return t.state == "done" and not t.result["unsupported"] and \
        bool(t.result["obligations"]) and all(
            o["status"] == "proved" for o in t.result["obligations"])


def lost_proofs(cs, sym):
    """{contract: obligation} proved on the recorded tree and not decided on
    this one, although the code it executes is within the verifier's reach
    and differs from the recorded code."""
    if not os.path.exists(BASELINE):
        return {}
    base = json.load(open(BASELINE))
    out = {}
    for c in cs:
        b = base.get(c.key, {})
        if b.get("status") not in ("proved", "bounded"):
            continue
        ts = sym.get(c.key, [])
        if not ts or any(t.state != "done" or t.result["unsupported"]
                         for t in ts):
            continue
        bad = [o for t in ts for o in t.result["obligations"]
               if o["status"] != "proved"]
        if not bad:
            continue
        bad.sort(key=lambda o: not refuted(o))
        if digest.of(REPO, b["functions"]) != b["digest"]:
            out[c.key] = bad[0]
    return out


def refuted(o):
    """The solver has a model in which the postcondition does not hold."""
    return o["kind"] in ("post", "safety", "exception") and \
        (o.get("detail") or "").startswith("counter-model")


def replay_phase(cs, sym, seed, cfg):
    """{contract: result} of the counter-models run on the real code."""
    models = {}
    for c in cs:
        if c.mode != "both" or c.private:
            continue
        for t in sym.get(c.key, ()):
            if t.state != "done":
                continue
            for o in t.result["obligations"]:
                if o["status"] != "proved" and o.get("inputs"):
                    ms = models.setdefault(c.key, [])
                    key = (o["status"] != "failed", len(ms))
                    if all(o["inputs"] != m for _, m in ms):
                        ms.append((key, o["inputs"]))
    if not models:
        return {}

    def fn():
        from . import concrete, rt
        g = rt.load_real(REPO)
        concrete.use_constants(*consts.new(REPO))
        out = {}

        def one(key):
            c = [c for c in cs if c.key == key][0]
            ms = [m for _, m in sorted(models[key], key=lambda x: x[0])]
            return _slim(concrete.replay_models(c, g, ms[:10], seed))
        tasks = [pool.Task(key, lambda key=key: one(key), 120)
                 for key in models]

        def done(t):
            out[t.key] = t.result if t.state == "done" else dict(
                status=t.state, note=str(t.result)[:300])
        pool.run_tasks(tasks, SLOTS, None, done)
        return out
    task = pool.Task(("models",), fn, 200)
    pool.run_tasks([task], 1)
    return task.result if task.state == "done" else {}


def _brief(r):
    obs = r.get("obligations", [])
    n = {}
    for o in obs:
        n[o["status"]] = n.get(o["status"], 0) + 1
    s = " ".join(f"{v} {k}" for k, v in sorted(n.items()))
    if r.get("unsupported"):
        s += " UNSUPPORTED " + r["unsupported"]
    bad = [o for o in obs if o["status"] != "proved"]
    for o in bad[:4]:
        s += f"\n      {o['status']}: {o['name']} {o.get('detail', '')[:300]}"
    return s


def finish(rep, cs, rt_task, sym, t0, verbose):
    prop = rep.prop
    known = known_findings()
    known_here = {}
    rt = rt_task.result if rt_task.state == "done" else None
    evaluations = distinct = checks = 0
    samples, bounded, notes, runtime = [], [], [], []
    failed_keys = set()
    if rt is None or "load_error" in (rt or {}):
        what = rt["load_error"] if rt else f"{rt_task.state}: " \
            f"{rt_task.result}"
        if rt is not None:
            p = rep.replay_path(dict(
                property=prop, what="importing graphicle failed",
                output=what))
            rep.violations.append((p, "no-failing-input-found"))
        notes.append("run-time half: " + what)
        results = {}
    else:
        results = rt["results"]
    by_key = {c.key: c for c in cs}
    for c in cs:
        rs = results.get(c.key, [])
        n = d = k = 0
        state = "not run"
        for r in rs:
            if r["state"] != "done":
                notes.append(f"{c.key}: run-time worker {r['state']}: "
                             f"{str(r['r'])[:500]}")
                if r["state"] == "error":
                    state = "error"
                continue
            v = r["r"]
            n += v["cases"]
            d += v["distinct"]
            k += v["checks"]
            samples += v.get("samples", [])[:1] if len(samples) < 6 else []
            if v["status"] == "fail":
                state = "fail"
                fkey = f"{c.key}:{v['check']}"
                if fkey in known:
                    known_here[fkey] = v
                    continue
                if c.key in failed_keys:
                    continue
                failed_keys.add(c.key)
                if c.private:
                    notes.append(f"{c.key}: {v['error'][:300]} (internal "
                                 "function, no violation)")
                    continue
                p = rep.replay_path(dict(
                    property=prop, contract=c.key, failed=v["error"],
                    functions=list(c.fns), case=v["case"],
                    inputs=v["inputs"], constants=consts.new(REPO),
                    replay=f"cd {HERE} && ./check {prop} --replay <this "
                           "file>"))
                rep.violations.append((p, ""))
            elif state == "not run":
                state = "ok"
        evaluations += n
        distinct += d
        checks += k
        runtime.append(dict(contract=c.key, state=state, evaluations=n,
                            postconditions=k))
    for key, v in rep.models.items():
        if v.get("status") != "fail" or key in failed_keys:
            continue
        fkey = f"{key}:{v['check']}"
        if fkey in known:
            known_here[fkey] = v
            continue
        failed_keys.add(key)
        p = rep.replay_path(dict(
            property=prop, contract=key, failed=v["error"],
            functions=list(by_key[key].fns),
            found="counter-model of a failed obligation",
            model_case=v["case"], forced=v["forced"], inputs=v["inputs"],
            constants=consts.new(REPO),
            replay=f"cd {HERE} && ./check {prop} --replay <this file>"))
        rep.violations.append((p, ""))
    for fkey, v in known_here.items():
        rep.known_lines.append(
            f"KNOWN-FINDING: property={prop} {known[fkey]}")
    # ---------------------------------------------------- obligations
    obligations = discharged = 0
    solver_s = 0.0
    backends, fns, trusted, assumed = {}, set(), set(), set()
    table, first_bad = [], {}
    for c in cs:
        if c.mode == "concrete":
            bounded.append(dict(
                contract=c.key, functions=list(c.fns), reason=c.why,
                bound="run-time evaluation on the counted random inputs"))
            continue
        parts = sym.get(c.key, [])
        row = dict(contract=c.key, functions=list(c.fns), obligations=0,
                   discharged=0)
        open_, why = [], []
        for t in parts:
            if t.state != "done":
                why.append(f"part {t.key[2]}: {t.state} "
                           f"{str(t.result or '')[:300]}")
                continue
            r = t.result
            trusted |= set(r.get("trusted", []))
            assumed |= set(r.get("assumed", []))
            fns |= set(r.get("functions", []))
            if r.get("bound"):
                row["bound"] = r["bound"]
            if r.get("unsupported"):
                why.append(f"part {t.key[2]}: outside the verifier's "
                           f"reach: {r['unsupported']}")
            for o in r["obligations"]:
                row["obligations"] += 1
                solver_s += o.get("time", 0.0)
                if o["status"] == "proved":
                    row["discharged"] += 1
                    b = o.get("backend", "?")
                    backends[b] = backends.get(b, 0) + 1
                else:
                    open_.append(o)
                    if o["status"] == "failed" and not c.private and \
                            c.key not in first_bad and o.get("kind") != "exception":
                        first_bad[c.key] = o
        row["status"] = "proved" if parts and not why and not open_ else \
            "open"
        if c.bound and "bound" not in row:
            row["bound"] = c.bound
        if row["status"] == "proved" and row.get("bound"):
            row["status"] = "bounded"
            bounded.append(dict(
                contract=c.key, functions=list(c.fns),
                reason="all obligations discharged for the stated bound",
                bound=row["bound"]))
        if row["status"] == "open":
            row["open"] = [dict(name=o["name"], status=o["status"],
                                detail=o.get("detail", "")[:400])
                           for o in open_[:8]]
            row["reason"] = why[:4]
            bounded.append(dict(
                contract=c.key, functions=list(c.fns),
                reason="; ".join(why[:2]) or "obligation left open",
                bound="run-time evaluation on the counted random inputs"))
        obligations += row["obligations"]
        discharged += row["discharged"]
        table.append(row)
    # an obligation the back ends refute without a failing input
    for key, o in first_bad.items():
        if key in failed_keys:
            continue
        m = rep.models.get(key, {})
        if o.get("inputs") and m.get("status") == "ok" and \
                m.get("reached"):
            # the counter-model was executed and satisfies the contract
            notes.append(f"{key}: the counter-model of '{o['name']}' does "
                         "not fail on the real code")
            continue
        p = rep.replay_path(dict(
            property=prop, contract=key, obligation=o["name"],
            verifier_output=o.get("detail", ""), model=o.get("model")))
        rep.violations.append((p, "no-failing-input-found"))
    for key, (o, short) in rep.lost.items():
        if key in failed_keys or by_key[key].private:
            continue
        notes.append(f"{key}: proved on the recorded tree, not on this "
                     f"changed one: {o['name']} ({o.get('detail', '')[:200]})"
                     + ("; holds for lengths 0 to 3" if short else ""))
        if short or not refuted(o):
            continue
        p = rep.replay_path(dict(
            property=prop, contract=key, obligation=o["name"],
            reason="proved before this change, and now the verifier gives a "
                   "counter-model which no input was found for",
            verifier_output=o.get("detail", ""), model=o.get("model"),
            inputs=o.get("inputs")))
        rep.violations.append((p, "no-failing-input-found"))
    wall = time.time() - t0
    proved_any = discharged > 0
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"cd {HERE} && ./check {prop} --tier {rep.tier}",
        trusted_base=sorted(trusted) or ["CPython", "numpy"],
        contracts=table, back_ends=backends, solver_s=round(solver_s, 2),
        functions_under_contract=sorted(
            {f for c in cs for f in c.fns}),
        functions_executed_symbolically=sorted(fns),
        bounded_stand_ins=bounded,
        run_time=runtime,
        evaluations=evaluations, distinct_nontrivial=distinct,
        postconditions_evaluated=checks,
        explanation="contracts marked proved: every obligation generated "
                    "from the current source was discharged for all inputs; "
                    "contracts under bounded_stand_ins: evaluated at run "
                    "time on the counted inputs only",
        rule="each case draws the inputs of one contract from a seeded "
             "generator (sizes 0-80, simple, integer, dyadic, Gaussian and "
             "scaled numbers, ties and degenerate momenta), skips those "
             "outside the precondition, calls the compiled code and "
             "evaluates every postcondition; distinct inputs are counted",
        samples=samples[:4] or [{"note": "no run-time contract"}],
        repo_head=git_head(REPO), source_sha256=source_digest(),
        notes=notes[:20])
    ev = dict(property=prop, tier=rep.tier, seed=rep.seed,
              level=LEVELS.get(prop, "proof" if proved_any else
                               "exploration"), coverage=cov,
              assumptions=sorted(assumed) + sorted(
                  {"bounded, not proved: " + b["contract"] +
                   (" (" + b["reason"] + ")" if b["reason"] else "")
                   for b in bounded}),
              wall_s=round(wall, 2), violations=len(rep.violations))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{prop}: {discharged}/{obligations} obligations discharged, "
          f"{evaluations} run-time evaluations, {len(bounded)} bounded "
          f"stand-ins, {wall:.0f} s")
    if verbose:
        for r in runtime:
            print("  rt", r["contract"], r["state"], r["evaluations"])
        for r in table:
            print("  vc", r["contract"], r["status"], r["discharged"], "/",
                  r["obligations"], r.get("reason", ""))
        for n in notes:
            print("  note", n)


LEVELS = {}


def load_levels():
    p = os.path.join(HERE, "MANIFEST.json")
    if os.path.exists(p):
        for c in json.load(open(p)).get("checks", []):
            LEVELS[c["property"]] = c["level"]


def replay(path):
    """Re-evaluate the case of a replay file on the real code."""
    import numpy as np
    body = json.load(open(path))
    if "model_case" in body:
        return replay_model(body)
    if "case" not in body:
        print(json.dumps(body, indent=1))
        return 1
    from . import concrete, rt
    import contracts
    contracts.load_all()
    g = rt.load_real(REPO)
    concrete.use_constants(*body.get("constants", ((), ())))
    c = [c for c in REG if c.key == body["contract"]][0]
    rng = np.random.default_rng(
        body["case"] + [abs(concrete.hash_str(c.key))])
    st, cx, err = concrete.evaluate(c, g, rng)
    print(st, err or "")
    return 1 if st == "fail" else 0


def replay_model(body):
    import numpy as np
    from . import concrete, rt
    import contracts
    contracts.load_all()
    g = rt.load_real(REPO)
    concrete.use_constants(*body.get("constants", ((), ())))
    c = [c for c in REG if c.key == body["contract"]][0]
    rng = np.random.default_rng(
        body["model_case"] + [abs(concrete.hash_str(c.key))])
    st, cx, err = concrete.evaluate(c, g, rng, body["forced"])
    print(st, err or "")
    return 1 if st == "fail" else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--no-sym", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    load_levels()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(a.prop, a.tier, seed, a.only, a.no_sym, a.v)
