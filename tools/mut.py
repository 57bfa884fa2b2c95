#!/usr/bin/env python3
"""mut.py FILE OLD NEW PROP...: edit a scratch copy of /repo's src (exact text), run the checks against the copy.
mut.py -p PATCH PROP...: the same with a patch file."""
import os, shutil, subprocess, sys, tempfile
tmp = tempfile.mkdtemp(prefix="mut_")
try:
    shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/src", tmp + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    if sys.argv[1] == "-p":
        props = sys.argv[3:]
        subprocess.run(["git", "apply", "--directory=", os.path.abspath(sys.argv[2])], cwd=tmp, check=True)
    else:
        f, old, new, *props = sys.argv[1:]
        if not f.startswith("src/"):
            f = "src/flowMC/" + f
        p = tmp + "/" + f
        s = open(p).read()
        old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
        assert s.count(old) >= 1, "pattern not found"
        open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, VERIF_SRC_COPY=tmp + "/src", VERIF_OUT=tmp)
    for pr in props:
        r = subprocess.run(["/verif/run.py", pr], capture_output=True, text=True, cwd="/verif", env=env)
        out = [l.replace(tmp, "") for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
        print(pr, "exit", r.returncode, "|", *[l[:230] for l in out[-4:]], r.stderr[-300:], sep="\n  ")
finally:
    shutil.rmtree(tmp)
