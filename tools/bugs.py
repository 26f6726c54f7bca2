#!/usr/bin/env python3
"""bugs.py [ID...] [--all-checks]: runs the check of each planted bug's property on a scratch copy of /repo with the bug."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    mut = "/tmp/plant/mut"
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.rmtree(mut, ignore_errors=True)
    os.makedirs(mut)
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (mut, mut, d), shell=True, check=True)
    props = [prop] if "--all-checks" not in sys.argv else sorted({c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]})
    for p in props:
        r = subprocess.run(["python3", HERE + "/lib/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=mut, VERIF_SEED="1"))
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION property=%s " % p)]
        print("%-28s %s rc=%d violations=%d %s" % (i, p, r.returncode, len(v), "CAUGHT" if r.returncode == 1 and v else "missed"), flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:])
    shutil.rmtree(mut)
