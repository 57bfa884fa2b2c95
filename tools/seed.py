#!/usr/bin/env python3
"""seed.py DIR...: verify planted changes. Each /verif/seeded/<id>/ has patch.diff (or edit.json to make it from), demo.py/demo.sh, meta.json.
Checks in a scratch copy: applies, demo passes without and fails with, tests pass; then runs the property's check against the copy."""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
DEMO = '#!/bin/bash\nexport JAX_PLATFORMS=cpu\nexec ${PY:-/opt/venv/bin/python} "$(dirname "$0")/demo.py"\n'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main(ids, notest):
    for i in ids:
        d = f"{V}/seeded/{i}"
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            subprocess.run(["cp", "-a", "/repo", tmp + "/r"], check=True)
            R = tmp + "/r"
            if not os.path.exists(d + "/demo.sh"):
                open(d + "/demo.sh", "w").write(DEMO)
                os.chmod(d + "/demo.sh", 0o755)
            if os.path.exists(d + "/edit.json"):
                for f, old, new in json.load(open(d + "/edit.json")):
                    p = f"{R}/src/flowMC/{f}"
                    s = open(p).read()
                    assert s.count(old) == 1, (i, f, s.count(old), old)
                    open(p, "w").write(s.replace(old, new))
                open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
                os.unlink(d + "/edit.json")
            else:
                r = sh(f"git apply {d}/patch.diff", cwd=R)
                if r.returncode:
                    print(i, "DOES NOT APPLY", r.stderr); continue
            env = dict(os.environ, PYTHONPATH=R + "/src")
            a = sh(f"bash {d}/demo.sh", cwd="/repo")
            b = sh(f"bash {d}/demo.sh", cwd=R, env=env)
            t = "tests skipped"
            if not notest:
                ts = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {R}").replace(". /opt/vp/support/env.sh", f". /opt/vp/support/env.sh; export PYTHONPATH={R}/src")
                open(tmp + "/t.sh", "w").write(ts)
                t = sh(f"bash {tmp}/t.sh {tmp}/o.json").stdout.strip().splitlines()[-1]
            prop = json.load(open(d + "/meta.json"))["property"]
            c = sh(f"{V}/tools/mut.py -p {d}/patch.diff {prop}").stdout
            m = re.search(r"exit\s+(\d+)", c)
            print(f"{i}: demo clean {a.returncode} (want 0), patched {b.returncode} (want !=0); {t}; check {prop} exit {m and m.group(1)}", flush=True)
            if a.returncode or not b.returncode:
                print("   clean:", (a.stdout + a.stderr)[-600:], "\n   patched:", (b.stdout + b.stderr)[-600:])
            if m and m.group(1) != "1":
                print("   MISSED", c[-600:])
        finally:
            shutil.rmtree(tmp)

notest = "--notest" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
main(ids or sorted(os.listdir(V + "/seeded")), notest)
