"""Run the check of one property: explore every configuration symbolically, replay, decide, write evidence."""
import argparse
import importlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time
import traceback

import z3

from . import engine as E
from . import loader
from . import values as V
from .ctx import SymCtx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = os.environ.get("HISTBOOK_PYTHON", "/opt/venv-pypy/bin/python")

_state = {}


def _init(nondet, text=False):
    sys.setrecursionlimit(6000)
    _state["tracer"] = loader.Tracer()
    _state["loaded"] = loader.load(nondet_set=nondet, text=text)


def explore_config(args):
    modname, cfg, deadline, opts = args
    mod = importlib.import_module("props." + modname)
    t0 = time.time()
    out = {"config": cfg, "violations": [], "witnesses": [], "fallback": [], "problems": {}, "complete": False, "functions": []}
    try:
        loaded = _state["loaded"]
        eng = E.Engine(query_ms=opts.get("query_ms", 8000), max_paths=cfg.get("max_paths", opts.get("max_paths", 6000)), deadline=min(deadline, t0 + cfg.get("seconds", 1e9)))
        keep = opts.get("witnesses", 6)
        seen = [0]

        def problem(e, text):
            out["problems"][text] = out["problems"].get(text, 0) + 1
            if len(out["fallback"]) < 40:
                try:
                    w = e.witness()
                    if w is not None:
                        out["fallback"].append(w)
                except BaseException:
                    pass

        def run(e):
            e.rounding = True
            e.permute = 0
            e.setorders = {}
            e.chars = []
            e.ufs = None
            loader.STUBS.clear()
            ctx = SymCtx(e, loaded, cfg)
            before = len(e.violations)
            try:
                mod.run(ctx, cfg)
            except E.PathAbort:
                raise
            except (E.Unsupported, E.Inconclusive) as err:
                problem(e, "%s: %s" % (type(err).__name__, err))
                return
            except E.Budget:
                e.complete = False
                problem(e, "budget")
                return
            except z3.Z3Exception as err:
                problem(e, "solver: %s" % err)
                return
            except Exception as err:
                tb = traceback.extract_tb(err.__traceback__)
                where = [f for f in tb if loader.REPO in f.filename]
                loc = "%s:%d" % (where[-1].filename, where[-1].lineno) if where else "%s:%d" % (tb[-1].filename, tb[-1].lineno)
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                e.check(False, "unexpected exception %s: %s (at %s)" % (type(err).__name__, str(err)[:200], loc))
                return
            if len(e.violations) == before:
                seen[0] += 1
                if len(out["witnesses"]) < keep or (seen[0] % 37 == 0 and len(out["witnesses"]) < 4 * keep):
                    w = e.witness()
                    if w is not None:
                        out["witnesses"].append(w)

        eng.explore(run, stop_on_violation=opts.get("stop", 6))
        out["violations"] = [{"msg": v.msg, "model": v.model} for v in eng.violations]
        out["complete"] = bool(eng.complete)
        out["stats"] = eng.stats.asdict()
    except BaseException as err:
        out["error"] = "%s: %s\n%s" % (type(err).__name__, err, traceback.format_exc())
    out["functions"] = _state["tracer"].functions()
    out["wall"] = time.time() - t0
    return out


def replay_batch(cases, timeout=300):
    if not cases:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    env.pop("PYTHONPATH", None)
    try:
        p = subprocess.run([PYPY, "-m", "sym.replay", "--batch"], input=json.dumps(cases).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=HERE, env=env, timeout=timeout)
        return json.loads(p.stdout.decode())
    except (ValueError, subprocess.TimeoutExpired) as err:
        if len(cases) == 1:
            tail = ""
            if isinstance(err, ValueError):
                tail = p.stderr.decode()[-400:]
            return [{"status": "error", "failures": [], "checks": 0, "note": "%s %s" % (type(err).__name__, tail)}]
        half = len(cases) // 2
        return replay_batch(cases[:half], timeout) + replay_batch(cases[half:], timeout)


def replay_all(cases, pool):
    n = 8
    chunks = [cases[i::n] for i in range(n)]
    res = pool.map(replay_batch, chunks)
    out = [None] * len(cases)
    for i, r in enumerate(res):
        for j, x in enumerate(r):
            out[i + j * n] = x
    return out


def known_findings(prop):
    """entries of known_findings.json for this property: {"property","id","config","match","what"}"""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["known"] if k["property"] == prop]


def matches(k, case, failures):
    if k.get("config") and not re.search(k["config"], case["config"]["name"]):
        return False
    return bool(failures) and all(any(re.search(p, f) for p in k["match"]) for f in failures)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    modname = prop.lower()
    t0 = time.time()
    sys.dont_write_bytecode = True
    mod = importlib.import_module("props." + modname)
    opts = dict(getattr(mod, "OPTS", {}))
    opts.update(getattr(mod, "OPTS_" + a.tier.upper(), {}))
    budget = opts.get("budget_s", 420 if a.tier == "quick" else 3000)
    deadline = t0 + budget
    configs = mod.configs(a.tier)
    if a.only:
        configs = [c for c in configs if re.search(a.only, c["name"])]
    for c in configs:
        c.setdefault("tier", a.tier)
    configs.sort(key=lambda c: -c.get("cost", 1))
    ctxm = multiprocessing.get_context("fork")
    results = []
    with ctxm.Pool(a.jobs, initializer=_init, initargs=(opts.get("nondet_set", False), opts.get("text", False))) as pool:
        it = pool.imap_unordered(explore_config, [(modname, c, deadline, opts) for c in configs])
        while len(results) < len(configs):
            try:
                # the solver does not always honour its time limit: do not wait for ever
                r = it.next(timeout=max(1.0, deadline + 40 - time.time()))
            except multiprocessing.TimeoutError:
                done = set(x["config"]["name"] for x in results)
                for c in configs:
                    if c["name"] not in done:
                        results.append({"config": c, "violations": [], "witnesses": [], "fallback": [], "problems": ["no answer from the solver in time"], "complete": False,
                                        "functions": [], "wall": time.time() - t0, "stats": {}})
                pool.terminate()
                break
            results.append(r)
            if a.v:
                s = r.get("stats", {})
                print("%-60s %6.1fs paths=%s checks=%s proved=%s viol=%d %s %s" % (r["config"]["name"], r["wall"], s.get("paths"), s.get("checks"), s.get("proved"),
                      len(r["violations"]), "" if r["complete"] else "INCOMPLETE", r.get("error", "") or r["problems"] or ""), flush=True)
                for v in r["violations"][:2]:
                    print("     ", v["msg"], json.dumps(v["model"]))
                if s.get("notes"):
                    print("      notes", s["notes"])
    # ---- replay everything against the real code
    with ctxm.Pool(a.jobs) as pool:
        cases = []
        for r in results:
            for v in r["violations"]:
                cases.append({"property": prop, "config": r["config"], "model": v["model"], "kind": "counterexample", "msg": v["msg"]})
            for w in r["witnesses"]:
                cases.append({"property": prop, "config": r["config"], "model": w, "kind": "witness", "msg": ""})
            for w in r["fallback"]:
                cases.append({"property": prop, "config": r["config"], "model": w, "kind": "undecided-path input", "msg": ""})
        replays = replay_all(cases, pool)
    confirmed, unconfirmed, validated, known, broken = [], [], 0, {}, []
    kf = known_findings(prop)
    for case, r in zip(cases, replays):
        if r is None or r["status"] == "error":
            broken.append((case, r))
        elif r["status"] == "fail":
            hit = [k for k in kf if matches(k, case, r["failures"])]
            if hit:
                known.setdefault(hit[0]["id"], (hit[0], case, r))
            else:
                confirmed.append((case, r))
        elif case["kind"] == "counterexample":
            unconfirmed.append((case, r))
        elif case["kind"] == "witness" and r["status"] == "ok":
            validated += 1
    # ---- report
    errors = [r for r in results if r.get("error")]
    incomplete = [r for r in results if not r["complete"] or r["problems"]]
    tot = {}
    notes = {}
    fns = set()
    for r in results:
        for k, v in r.get("stats", {}).items():
            if k == "notes":
                for n, c in v.items():
                    notes[n] = notes.get(n, 0) + c
            else:
                tot[k] = tot.get(k, 0) + v
        fns.update(r["functions"])
    status = 0
    for k, (entry, case, r) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, entry["what"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    confirmed.sort(key=lambda cr: len(json.dumps(cr[0]["model"])))
    shown = set()
    for case, r in confirmed:
        key = re.sub(r"[-+0-9.e]+", "#", r["failures"][0])
        if key in shown or len(shown) >= 4:
            continue
        shown.add(key)
        path = os.path.join(HERE, "evidence", "replay-%s-%d.json" % (prop, len(shown)))
        case["failures"] = r["failures"]
        with open(path, "w") as f:
            json.dump(case, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  config: %s" % case["config"]["name"])
        print("  input:  %s" % json.dumps(case["model"], sort_keys=True))
        for m in r["failures"][:3]:
            print("  broken: %s" % m)
        print("  (replay with: cd %s && %s -m sym.replay %s)" % (HERE, PYPY, path))
        status = 1
    if os.environ.get("VERIF_ALL"):
        for case, r in confirmed:
            print("  ALL %s | %s | %s" % (case["config"]["name"], r["failures"][0], json.dumps(case["model"])))
    for case, r in unconfirmed[:6 if not os.environ.get("VERIF_ALL") else 1000]:
        print("UNCONFIRMED counterexample (does not reproduce on the real code; encoding too coarse here): %s: %s %s" % (case["config"]["name"], case["msg"], json.dumps(case["model"])))
    for r in incomplete:
        print("UNDECIDED config=%s: %s%s" % (r["config"]["name"], "exploration stopped at the budget; " if not r["complete"] else "", r["problems"] or ""))
    for case, r in broken[:3]:
        print("REPLAY-ERROR %s %s" % (case["config"]["name"], r))
    vac = [r["config"]["name"] for r in results if not r["violations"] and not r["problems"] and not r.get("error") and r["complete"] and not r["witnesses"]]
    for n in vac:
        print("VACUOUS config=%s: no path reaches the end of the harness" % n)
    for r in errors:
        print("ERROR config=%s %s" % (r["config"]["name"], r["error"]))
    wall = time.time() - t0
    cov = {
        "states": tot.get("paths", 0), "transitions": tot.get("forks", 0), "traces_validated_against_impl": validated,
        "samples": [{"config": c["config"]["name"], "model": c["model"]} for c in cases if c["kind"] == "witness"][:5],
        "configurations": len(results), "configurations_decided": len(results) - len(set(r["config"]["name"] for r in incomplete + errors)),
        "paths": tot.get("paths", 0), "infeasible_or_assumed_away": tot.get("aborted", 0),
        "assertions": tot.get("checks", 0), "assertions_discharged": tot.get("proved", 0), "solver_queries": tot.get("queries", 0),
        "solver_s": round(tot.get("solver_s", 0.0), 2), "solver": "z3 " + z3.get_version_string(),
        "unconfirmed_counterexamples": len(unconfirmed), "undecided": [r["config"]["name"] for r in incomplete],
        "functions_encoded": sorted(fns), "bounds": getattr(mod, "BOUNDS", ""), "encoding_notes": notes,
        "explanation": "states = symbolic paths explored to the end; transitions = feasible forks; traces_validated_against_impl = solver-made path witnesses re-run on the real code under PyPy with the same assertions passing",
    }
    ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_SLOW"):
        for r in sorted(results, key=lambda r: -r["wall"])[:15]:
            print("  %6.1fs %s" % (r["wall"], r["config"]["name"]))
    print("%s %s: %d configs, %d paths, %d/%d assertions discharged, %d queries, %.1fs solver, %d witnesses replayed, %d undecided, %.1fs wall: %s" % (
        prop, a.tier, len(results), tot.get("paths", 0), tot.get("proved", 0), tot.get("checks", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated,
        len(incomplete), wall, "VIOLATED" if status else "held"))
    if status == 0 and (errors or vac) and not validated:
        return 2
    return status


if __name__ == "__main__":
    sys.exit(main())
