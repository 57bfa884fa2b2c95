#!/usr/bin/env python3
"""mutants.py FILE.py [TAG...]: runs checks against mutated scratch copies. FILE.py defines M = [(tag, [props], [(file, old, new)...])].
Prints one line per (mutant, property): exit code and the obligation summary. Exit 1 is a catch."""
import os, runpy, shutil, subprocess, sys, tempfile, time
M = runpy.run_path(sys.argv[1])["M"]
want = sys.argv[2:]
for tag, props, edits in M:
    if want and tag not in want:
        continue
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/src", tmp + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        bad = None
        for f, old, new in edits:
            p = f"{tmp}/src/flowMC/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                bad = old
            open(p, "w").write(s.replace(old, new, 1))
        if bad:
            print(f"{tag}: PATTERN NOT FOUND {bad!r}", flush=True)
            continue
        for pr in props:
            t = time.time()
            r = subprocess.run(["/verif/run.py", pr], capture_output=True, text=True, cwd="/verif", env=dict(os.environ, VERIF_SRC_COPY=tmp + "/src", VERIF_OUT=tmp))
            out = [l.replace(tmp, "") for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
            v = [l for l in out if l.startswith("VIOLATION")]
            state = {0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER")
            print(f"{tag} {pr}: {state} {time.time()-t:.0f}s | {(v or out or [''])[0][:150]} | {r.stderr[-200:] if r.returncode not in (0,1) else ''}", flush=True)
            if r.returncode not in (0, 1):
                print("\n".join("      " + l[:200] for l in out[-4:]))
    finally:
        shutil.rmtree(tmp)
