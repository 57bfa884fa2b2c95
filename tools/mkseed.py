#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a python file defining SEEDS = [(id, property, edits, needs, breaks, demo_source)]"""
import json, os, runpy, sys
for i, prop, edits, needs, breaks, demo in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    json.dump(edits, open(d + "/edit.json", "w"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(demo)
    print(i, end=" ")
