"""python -m psym.run PROPERTY --tier quick|thorough

Decides one property: every goal of its harness is executed symbolically over
the psion source in /repo as it is now; every obligation is a solver query.
A counterexample is replayed on the real code before it is reported."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"
REPO_PY = "/opt/venv/bin/python"
EVID = os.path.join(HERE, "evidence")


def load_known():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line.split() if "=" in x and x.split("=", 1)[0] in ("property", "id"))
                out[(f["property"], f["id"])] = line.split(":", 1)[1].strip()
    return out


def replay(path):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC")
    try:
        r = subprocess.run([REPO_PY, "-m", "psym.replay", path], cwd=HERE, env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return 4, "replay timed out"
    return r.returncode, (r.stdout + r.stderr).strip()[-600:]


def setup_worker():
    sys.dont_write_bytecode = True
    os.environ["TZ"] = "UTC"
    time.tzset()
    warnings.simplefilter("ignore")
    if SITE not in sys.path:
        sys.path.append(SITE)
    from psym import crypto, instrument
    crypto.install()
    instrument.install({"psion": (os.environ.get("PSYM_REPO_SRC", "/repo/src"), True), "harness": (HERE, False)})
    instrument.purge(("harness", "psion"))
    import logging
    logging.disable(logging.CRITICAL)


def run_goal(prop, modname, goal, tier, budget, seed, known, conn):
    res = {"goal": goal["name"], "function": goal["fn"], "params": goal.get("params", {}), "bounds": goal.get("bounds", "")}
    t0 = time.monotonic()
    e = None
    try:
        setup_worker()
        from psym import core, ctx as C, instrument
        mod = importlib.import_module("harness." + modname)
        fn = getattr(mod, goal["fn"])
        params = goal.get("params", {})
        e = core.Engine(query_ms=goal.get("query_ms", 20000), deadline=t0 + budget, seed=seed)
        res["unreproduced"], res["known"], res["violation"] = [], {}, None
        case_no = [0]

        def on_violation(ctx, negated, msg, kid, tb=None):
            if kid and (prop, kid) in known:
                res["known"][kid] = res["known"].get(kid, 0) + 1
                return
            case = C.extract_case(ctx, negated)
            case_no[0] += 1
            d = os.path.join(EVID, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{goal['name']}-{case_no[0]}.json")
            if case is None:
                res["unreproduced"].append({"msg": msg, "why": "no concrete witness of the uninterpreted functions", "tb": tb})
            else:
                case.update(property=prop, module=modname, function=goal["fn"], params=params, tier=tier, message=msg, goal=goal["name"])
                with open(path, "w") as f:
                    json.dump(case, f, indent=1)
                rc, out = replay(path)
                if rc == 1:
                    res["violation"] = {"msg": msg, "replay": path, "output": out}
                    raise core.Found
                res["unreproduced"].append({"msg": msg, "why": f"replay exit {rc}: {out}", "path": path, "tb": tb})
            # a hash collision has no witness: look on for a candidate that does
            if sum(1 for u in res["unreproduced"] if "path" in u) >= 6 or len(res["unreproduced"]) >= 40:
                e.note_incomplete("gave up after unreproduced counterexamples")
                raise core.Found

        ctx = C.SymCtx(e, goal["name"], tier, params, on_violation)

        def once():
            instrument.purge()
            ctx.reset()
            try:
                fn(ctx, **params)
            except Exception as x:  # noqa: BLE001 - escaped from the code under test
                if e.pos < len(e.stack) or e.aborting:
                    e.aborting = True
                    raise core.PathAbort
                import z3
                e.obligations += 1
                tb = traceback.format_exc()[-3000:]
                on_violation(ctx, z3.BoolVal(True), f"unexpected {type(x).__name__}: {x!s:.200}", None, tb)

        e.explore(once)
    except BaseException as x:  # noqa: BLE001
        res["error"] = f"{type(x).__name__}: {x}"
        res["tb"] = traceback.format_exc()[-4000:]
    if e is not None:
        for k in ("paths", "aborted", "queries", "solver_s", "unknown", "decisions", "obligations", "discharged", "trivial", "covers", "incomplete", "exhausted"):
            res[k] = getattr(e, k)
        res["functions"] = sorted(e.functions)
        res["missing_covers"] = [c for c in goal.get("covers", []) if c not in e.covers]
    res["wall_s"] = time.monotonic() - t0
    if os.environ.get("PSYM_PROFILE"):
        from psym import core
        for k, v in sorted(core.PROFILE.items(), key=lambda x: -x[1])[:14]:
            print(f"SPLIT {goal['name']} {v} {k}", file=sys.stderr)
        for k, v in sorted(core.SLOW.items(), key=lambda x: -x[1])[:8]:
            print(f"SLOW {goal['name']} {v:.1f} {k}", file=sys.stderr)
    try:
        conn.send(res)
        conn.close()
    finally:
        os._exit(0)


def goals_of(prop, tier, only=None):
    from harness import index
    modname = index.MODULES[prop]
    import ast  # goals are data: evaluate the harness module outside instrumentation
    mod = importlib.import_module("harness." + modname)
    goals = mod.GOALS[prop]
    if callable(goals):
        goals = goals(tier)
    out = []
    for g in goals:
        if g.get("tier") and tier not in g["tier"]:
            continue
        if only and not g["name"].startswith(only):
            continue
        out.append(g)
    return modname, out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--goal")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("PSYM_JOBS", "0")) or os.cpu_count())
    a = ap.parse_args(argv)
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    sys.path.insert(0, HERE)
    known = load_known()
    modname, goals = goals_of(prop, tier, a.goal)
    if not goals:
        print("no goals for", prop)
        return 2
    total = a.budget or (300.0 if tier == "quick" else 3000.0)
    hard = total + 120
    ctxm = mp.get_context("fork")
    pending, running, done = list(goals), {}, []
    violation = None
    while pending or running:
        while pending and len(running) < a.jobs:
            g = pending.pop(0)
            left = max(5.0, total - (time.monotonic() - t0))
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=run_goal, args=(prop, modname, g, tier, left, seed, known, w))
            p.start()
            w.close()
            running[r] = (p, g)
        for r in mp.connection.wait(list(running), timeout=1.0):
            p, g = running.pop(r)
            try:
                res = r.recv()
            except (EOFError, OSError):
                res = {"goal": g["name"], "error": "worker died (memory?)"}
            p.join()
            done.append(res)
            if a.v:
                show(res)
            if res.get("violation"):
                violation = violation or res
        if violation or time.monotonic() - t0 > hard:
            for r, (p, g) in running.items():
                p.kill()
                p.join()
                done.append({"goal": g["name"], "killed": True, "incomplete": {"stopped": 1}, "exhausted": False})
            for g in pending:
                done.append({"goal": g["name"], "killed": True, "incomplete": {"not started": 1}, "exhausted": False})
            running, pending = {}, []
    return report(prop, tier, seed, done, violation, known, time.monotonic() - t0, goals)


def show(res):
    print(f"-- {res['goal']}: paths={res.get('paths')} aborted={res.get('aborted')} obl={res.get('discharged')}/{res.get('obligations')} (trivial {res.get('trivial')}) "
          f"q={res.get('queries')} solver={res.get('solver_s', 0):.1f}s wall={res.get('wall_s', 0):.1f}s exhausted={res.get('exhausted')} incomplete={res.get('incomplete')} missing={res.get('missing_covers')}")
    for u in res.get("unreproduced") or []:
        print("   UNREPRODUCED", u["msg"], "|", u["why"], u.get("path"))
        if u.get("tb"):
            print("     ", u["tb"].replace("\n", "\n      "))
    if res.get("violation"):
        print("   VIOLATED", res["violation"])
    if res.get("known"):
        print("   known", res["known"])
    if res.get("error"):
        print("   ERROR", res["error"], res.get("tb", ""))
    sys.stdout.flush()


def report(prop, tier, seed, done, violation, known, wall, goals):
    err, sound = [], []
    for r in done:
        n = len(err)
        if r.get("error"):
            err.append(f"{r['goal']}: {r['error']}")
        for u in r.get("unreproduced") or []:
            err.append(f"{r['goal']}: candidate counterexample that the real code does not show ({u['msg']}): {u['why']}")
        if r.get("missing_covers") and r.get("exhausted"):
            err.append(f"{r['goal']}: reachability witness missing: {r['missing_covers']}")
        if len(err) == n and not r.get("killed"):
            sound.append(r["goal"])
    tot = lambda k: sum(r.get(k) or 0 for r in done)
    funcs = sorted({f for r in done for f in r.get("functions", ())})
    exhausted = [r["goal"] for r in done if r.get("exhausted") and not r.get("incomplete")]
    kn = sorted({k for r in done for k in (r.get("known") or {})})
    from harness import index
    info = index.INFO.get(prop, {})
    expl = (f"Bounded symbolic execution of psion's real source (re-read from /repo/src on this run) with z3 deciding every branch and every obligation. "
            f"{len(done)} goals, {len(exhausted)} exhausted within their bounds with no approximation; {tot('paths')} symbolic paths, "
            f"{tot('obligations')} obligations ({tot('discharged')} discharged, {tot('trivial')} of them by simplification alone), "
            f"{tot('queries')} solver queries, {tot('solver_s'):.1f} s solver time. Every obligation covers all input values on its path.")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(wall, 2),
        "coverage": {
            "explanation": expl,
            "goals": [{k: r.get(k) for k in ("goal", "function", "params", "bounds", "paths", "aborted", "obligations", "discharged", "trivial", "queries", "solver_s", "unknown", "exhausted", "incomplete", "covers", "missing_covers", "wall_s", "killed") if r.get(k) is not None} for r in sorted(done, key=lambda r: r["goal"])],
            "functions_encoded": funcs,
            "functions_encoded_count": len(funcs),
            "paths": tot("paths"), "obligations": tot("obligations"), "discharged": tot("discharged"),
            "queries": tot("queries"), "solver_s": round(tot("solver_s"), 3),
            "goals_exhausted": len(exhausted), "goals_total": len(done),
            "not_exhausted": [r["goal"] for r in done if r["goal"] not in exhausted],
        },
        "assumptions": info.get("assumptions", []) + index.COMMON_ASSUMPTIONS,
        "violations": 1 if violation else 0,
    }
    if violation:
        v = violation["violation"]
        ev["coverage"]["violation"] = {"what": v["msg"], "goal": violation["goal"], "replay": v["replay"], "replay_output": v["output"]}
    if info.get("bounds"):
        ev["coverage"]["bounds"] = info["bounds"]
    if kn:
        ev["coverage"]["known_findings"] = [known[(prop, k)] for k in kn]
    if err:
        ev["coverage"]["inconclusive"] = err
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    for k in kn:
        print(f"KNOWN-FINDING: {known[(prop, k)]}")
    if violation:
        v = violation["violation"]
        print(f"counterexample in {violation['goal']}: {v['msg']}\n{v['output']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    for x in err:
        # this part of the code could not be decided (never the case on the
        # tree the harness was written for); it is left out of what is claimed
        print("INCONCLUSIVE", x)
    if not sound or (err and os.environ.get("PSYM_STRICT")):
        print(f"ERROR {prop}: nothing decided")
        return 2
    print(f"OK {prop} {tier}: " + expl)
    return 0


if __name__ == "__main__":
    sys.exit(main())
