"""Runs one harness (symbolically, or as a concrete replay) in its own process; prints one JSON line."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


MAXV = 3  # violations reported per harness


def load(prop):
    return importlib.import_module("harness." + prop.lower())


def find(prop, name, tier):
    for h in load(prop).harnesses(tier):
        if h.name == name:
            return h
    raise KeyError(name)


def replay_main(prop, name, tier, path, plain=False):
    import symx.env as env
    pts = json.load(open(path))
    h = find(prop, name, tier)
    if plain:
        print("@@" + json.dumps({"outs": {}, "err": env.run_plain(h, pts, tier)}))
        return
    outs, err = env.run_replay(h, pts, tier)
    print("@@" + json.dumps({"outs": outs, "err": err}))


def replay_proc(prop, h, tier, point, timeout=240, plain=False):
    import subprocess
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(point, f)
    env = dict(os.environ)
    if h.replay_x64:
        env["JAX_ENABLE_X64"] = "1"
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), prop, h.name, "--tier", tier, "--replay", f.name] + (["--plain"] if plain else []),
                           capture_output=True, text=True, timeout=timeout, env=env)
        for l in r.stdout.splitlines():
            if l.startswith("@@"):
                return json.loads(l[2:])
        return {"outs": {}, "err": ["NoOutput", (r.stderr or "")[-2000:], False, ""]}
    except subprocess.TimeoutExpired:
        return {"outs": {}, "err": ["Timeout", "", False, ""]}
    finally:
        os.unlink(f.name)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("name")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--replay")
    ap.add_argument("--plain", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_main(a.prop, a.name, a.tier, a.replay, a.plain)
    import symx.env as env
    import symx.solve as solve
    import symx.terms as tm
    import symx.trace as tr
    h = find(a.prop, a.name, a.tier)
    t0 = time.time()
    res = {"harness": h.name, "paths": 0, "obligations": [], "violations": [], "undecided": [], "errors": [],
           "bounds": h.bounds, "functions": list(h.functions), "notes": []}
    budget = h.budget * (4 if a.tier == "thorough" else 1)
    stack = [()]
    npaths = 0
    while stack:
        if len(res["violations"]) >= MAXV:
            res["notes"].append("stopped after the first violations")
            break
        if npaths >= h.max_paths:
            res["notes"].append(f"path bound {h.max_paths} reached, {len(stack)} branches unexplored")
            break
        if time.time() - t0 > budget:
            res["notes"].append(f"time budget reached, {len(stack)} branches unexplored")
            res["undecided"].append({"label": "unexplored paths", "why": "time budget"})
            break
        prefix = stack.pop()
        ctx, E, err = env.run_path(h, prefix, a.tier)
        stack.extend(reversed(ctx.alts))
        npaths += 1
        P = ctx.problem()
        P.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        if err is not None:
            if err[0] == "exception":
                point = env.make_point(path_point(P, env, solve))
                rep = replay_proc(a.prop, h, a.tier, point, plain=True)
                e2 = rep["err"]
                if e2 and e2[0] == err[4] and (e2[2] or err[3]):
                    res["violations"].append({"label": f"the code raises {err[1][:300]}", "point": point, "kind": "raises",
                                              "etype": err[4], "observed": e2[1][:300], "trace": err[2][-1500:]})
                else:
                    res["undecided"].append({"label": "execution", "why": f"{err[1][:300]} (not reproduced concretely: {str(e2)[:600]})",
                                             "trace": err[2][-2500:]})
            else:
                res["undecided"].append({"label": "execution", "why": "cannot be encoded: " + err[1][:300],
                                         "trace": err[2][-2500:]})
        decided_here = 0
        tr.CURRENT[0] = ctx
        for label, goal, raws in E.obligations:
            if len(res["violations"]) >= MAXV:
                break
            if time.time() - t0 > budget:
                res["undecided"].append({"label": label, "why": "time budget"})
                continue
            t1 = time.time()
            if isinstance(goal, tuple) and goal[0] == "keys":
                clash = solve.keys_clash(goal[1])
                if clash is None:
                    verdict, pt, how = "proved", None, "unsat"
                else:
                    verdict, pt, how = "cex", path_point(P, env, solve), f"sat: key reused {clash}"
                goal = tm.FALSE
            else:
                try:
                    verdict, pt, how = P.prove(goal, label, raws)
                except Exception as e:
                    verdict, pt, how = "unknown", None, f"checker error {e!r}"
                    res["errors"].append(traceback.format_exc()[-1500:])
            rec = {"label": label, "how": how, "s": round(time.time() - t1, 2), "path": list(map(int, ctx.taken))}
            if verdict == "proved":
                res["obligations"].append(rec)
                decided_here += 1
            elif verdict == "unknown":
                res["undecided"].append({"label": label, "why": str(how)})
            else:
                v = confirm(a, h, E, P, env, tm, goal, label, pt, how)
                if v["confirmed"]:
                    res["violations"].append(v)
                else:
                    res["undecided"].append({"label": label, "why": "counterexample not reproduced by the real code: " + v["why"],
                                             "point": v["point"]})
        # vacuity guard
        if decided_here:
            ok = path_sat(P, tm, solve)
            res["notes"].append("assumptions satisfiable" if ok else "VACUITY: assumptions not shown satisfiable")
            if not ok:
                res["undecided"].append({"label": "vacuity", "why": "assumptions not shown satisfiable"})
        res["notes"] += E.notes + P.log
    res["paths"] = npaths
    res["stats"] = dict(solve.STATS)
    res["prims"] = dict(tr.STATS["prims"])
    res["sym_ops"] = tr.STATS["sym_ops"]
    res["terms"] = tm._COUNT[0]
    res["wall_s"] = round(time.time() - t0, 2)
    print("@@" + json.dumps(res))


def path_point(P, env, solve):
    """a point on this path"""
    import symx.terms as tm
    if not P.A:
        return {}
    r, m = P.satisfiable()
    return m or {}


def path_sat(P, tm, solve):
    if not P.A:
        return True
    conj = tm.and_(*P.A)
    import numpy as np
    try:
        S = solve.Sampler(2000, 5, P.perms)
        (t,), memo = solve.eval_margin([conj], S, 2000)
        if np.asarray(memo[conj.id]).any():
            return True
    except Exception:
        pass
    r, m = P.satisfiable()
    return str(r) == "sat"


def confirm(a, h, E, P, env, tm, goal, label, pt, how):
    seed = 1
    for attempt in range(2):
        try:
            # the sampler seeds used by falsify are P.seed + 17*rnd; opaque applications in the goal are pinned in pt
            pred, apps = env.eval_outs(E, pt or {}, seed, P.perms, goal if isinstance(goal, tm.T) else None)
        except Exception as e:
            return {"confirmed": False, "why": f"prediction failed {e!r} {traceback.format_exc()[-800:]}", "point": {}, "label": label}
        point = env.make_point(pt or {}, seed)
        point["apps"] = apps
        if E.goal_holds and goal not in (tm.TRUE, tm.FALSE):
            return {"confirmed": False, "why": "the assertion holds when equal arguments get equal values", "point": point, "label": label}
        rep = replay_proc(a.prop, h, a.tier, point)
        if rep["err"]:
            return {"confirmed": False, "why": f"replay raised {rep['err'][:2]}", "point": point, "label": label}
        ok, msg = env.compare_outs(pred, rep["outs"], getattr(h, "rep_tol", 2e-4))
        if ok:
            return {"confirmed": True, "label": label, "how": how, "point": point, "outputs": rep["outs"], "kind": "assertion"}
        if hasattr(h, "judge") and h.judge(rep["outs"]):
            return {"confirmed": True, "label": label, "how": f"{how}; the real code contradicts itself within one run", "point": point, "outputs": rep["outs"], "kind": "assertion"}
        return {"confirmed": False, "why": msg, "point": point, "label": label}


if __name__ == "__main__":
    main()
