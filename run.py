#!/opt/venv/bin/python
"""Entry point of every check:  run.py C01 [--tier quick|thorough] [--harness NAME] [-v]

Runs every harness of the property (each in its own process), prints VIOLATION / KNOWN-FINDING / UNDECIDED
lines, rewrites evidence/<id>.json.  Exit 0: nothing explored violates the property; 1: violation;
2: nothing could be decided.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
OUT = os.environ.get("VERIF_OUT", HERE)
TRUSTED = ["JAX's tracing of the real flowMC source and the jaxprs it produces",
           "symx/trace.py: symbolic semantics of the JAX primitives (float arithmetic as exact reals plus NaN/inf flags)",
           "symx/terms.py normal forms; constants that cancel to within 1e-6 relative are taken as cancelling",
           "PRNG idealisation: distinct (key, counter) pairs give independent draws",
           "z3 5.x verdicts"]


def env_for():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    e.pop("PYTHONPATH", None)
    if e.get("VERIF_SRC_COPY"):  # used only to try mutants in a scratch copy
        e["PYTHONPATH"] = e["VERIF_SRC_COPY"]
    e.pop("JAX_ENABLE_X64", None)
    e.setdefault("VERIF_SEED", "1")
    return e


def list_harnesses(prop, tier):
    code = (f"import sys; sys.path.insert(0,{HERE!r}); import importlib, json; "
            f"m=importlib.import_module('harness.{prop.lower()}'); "
            f"print('@@'+json.dumps([[h.name,h.budget] for h in m.harnesses({tier!r})]))")
    r = subprocess.run([PY, "-c", code], capture_output=True, text=True, env=env_for(), cwd=HERE)
    for l in r.stdout.splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:]), None
    return None, (r.stderr or r.stdout)[-3000:]


STOP = [None]  # time after which harnesses still running are given up


def run_one(prop, name, tier, budget):
    lim = budget * (4 if tier == "thorough" else 1) * 1.6 + 60
    t0 = time.time()
    if STOP[0] is not None and t0 > STOP[0]:
        return {"harness": name, "crash": "not run: time limit of the whole check", "wall_s": 0}
    with tempfile.TemporaryFile("w+") as fo, tempfile.TemporaryFile("w+") as fe:
        p = subprocess.Popen([PY, os.path.join(HERE, "symx", "worker.py"), prop, name, "--tier", tier],
                             stdout=fo, stderr=fe, env=env_for(), cwd=HERE)
        while p.poll() is None:
            if time.time() - t0 > lim or (STOP[0] is not None and time.time() > STOP[0]):
                p.kill()
                p.wait()
                return {"harness": name, "crash": f"time limit {time.time() - t0:.0f}s", "wall_s": time.time() - t0}
            try:
                p.wait(timeout=0.5)
            except subprocess.TimeoutExpired:
                pass
        fo.seek(0), fe.seek(0)
        out, err = fo.read(), fe.read()
    for l in out.splitlines():
        if l.startswith("@@"):
            r = json.loads(l[2:])
            if r.get("violations") and tier == "quick":
                # the verdict is settled: harnesses still running get two more minutes
                STOP[0] = min(STOP[0] or 1e18, time.time() + 120)
            return r
    return {"harness": name, "crash": (err or out)[-3000:], "wall_s": time.time() - t0}


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=\"([^\"]*)\" (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    hs, err = list_harnesses(prop, a.tier)
    if hs is None:
        print(f"UNDECIDED property={prop}: harness module failed to load\n{err}")
        sys.exit(2)
    if a.harness:
        hs = [h for h in hs if re.fullmatch(a.harness, h[0])]
    if a.tier == "quick":
        STOP[0] = t0 + 780
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = [ex.submit(run_one, prop, n, a.tier, b) for n, b in hs]
        results = [f.result() for f in futs]

    known = known_findings()
    viol, kf = [], []
    und = []
    discharged = 0
    total = 0
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    samples = []
    agg = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "quick": 0, "lemmas": 0}
    how = {}
    vac_ok = 0
    for r in results:
        if "crash" in r:
            und.append((r["harness"], "execution", r["crash"]))
            total += 1
            continue
        for k in agg:
            agg[k] += r["stats"].get(k, 0)
        total += len(r["obligations"]) + len(r["undecided"]) + len(r["violations"])
        discharged += len(r["obligations"])
        for o in r["obligations"]:
            how[o["how"]] = how.get(o["how"], 0) + 1
        if r["obligations"]:
            samples.append(f"{r['harness']}: {r['obligations'][-1]['label']} -> {r['obligations'][-1]['how']}")
        vac_ok += sum(1 for n in r["notes"] if n == "assumptions satisfiable")
        for u in r["undecided"]:
            und.append((r["harness"], u["label"], u["why"]))
        for v in r["violations"]:
            match = None
            for (kp, kh, kl, what) in known:
                if kp == prop and re.fullmatch(kh, r["harness"]) and kl in v["label"]:
                    match = what
            (kf if match else viol).append((r["harness"], v, match))
    for h, v, what in kf:
        print(f"KNOWN-FINDING: property={prop} {what} [{h}: {v['label']}]")
    for h, l, w in und:
        print(f"UNDECIDED property={prop} harness={h} obligation=\"{l}\": {w[:1500] if a.v else w[:300]}")
    for i, (h, v, _) in enumerate(viol):
        path = os.path.join(OUT, "replays", f"{prop}-{h}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": h, "tier": a.tier, **v,
                       "how_to_replay": f"{PY} symx/worker.py {prop} {h} --tier {a.tier} --replay <file with the 'point' object>"}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path} harness={h} assertion=\"{v['label']}\"")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real code (traced by JAX from /repo's current source into "
                           "jaxprs, executed over real-valued terms with NaN/inf flags and an idealised generator) with "
                           "every obligation put to z3 as an unsatisfiability query over all values within the stated bounds.",
            "obligations": total, "discharged": discharged, "undecided": len(und), "verdicts": how,
            "queries": agg["queries"], "unsat": agg["unsat"], "sat": agg["sat"], "unknown": agg["unknown"],
            "merge_lemmas": agg["lemmas"], "solver_s": round(agg["time"], 2),
            "harnesses": [{"name": r["harness"], "bounds": r.get("bounds", ""), "paths": r.get("paths", 0),
                           "obligations": len(r.get("obligations", [])), "primitives_executed": r.get("sym_ops", 0),
                           "terms": r.get("terms", 0), "wall_s": r.get("wall_s", 0), "notes": sorted(set(r.get("notes", [])))[:6]}
                          for r in results],
            "functions_encoded": sorted({f for r in results for f in r.get("functions", [])}),
            "primitives": sorted({p for r in results for p in r.get("prims", {})}),
            "nonvacuous_paths": vac_ok,
            "samples": samples[:40],
            "known_findings": [f"{h}: {v['label']}" for h, v, _ in kf],
            "undecided_list": [f"{h}: {l}: {w[:200]}" for h, l, w in und][:40],
            "trusted_base": TRUSTED,
        },
        "assumptions": TRUSTED,
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {discharged}/{total} obligations discharged, {len(viol)} violations, {len(kf)} known findings, "
          f"{len(und)} undecided, {agg['queries']} queries, {agg['time']:.1f}s solver, {wall:.1f}s")
    if viol:
        sys.exit(1)
    if discharged == 0:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
