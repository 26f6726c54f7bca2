#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO   (used through tools/plants/*.py)
Makes a planted bug: applies the replacement in a scratch copy of /repo, builds it, runs the stable tests and the
demonstration there and on the unchanged tree; kept under seeded/ID only when everything is as it has to be."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant/repo"

DEMO = """#!/bin/bash
# builds demo.cpp with the sources of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
ls src/fisx_*.cpp | xargs -P 8 -I{} sh -c 'g++ -O1 -w -DFISX_DATA_DIR=\\"none\\" -I src -c {} -o "$0/$(basename {}).o"' "$T" || exit 1
g++ -O1 -w -I src "$D/demo.cpp" "$T"/*.o -o "$T/demo" -lpthread || exit 1
R=$PWD
cd "$T" && ./demo "$R/fisx_data"
"""
# demonstrations that need a library: the repository ships no EPDL97 cross sections, synthetic ones are written
DEMO_DATA = DEMO.replace('cd "$T" && ./demo "$R/fisx_data"', 'python3 -B "$D/data.py" "$R/fisx_data" "$T/data" >/dev/null || exit 1\ncd "$T" && ./demo data')


def data_files():
    t = open(os.path.join(HERE, "lib/data.py")).read()
    return {"data.py": t.replace('os.path.join(HERE, "data", "elements.json")', 'os.path.join(os.path.dirname(os.path.abspath(__file__)), "elements.json")'),
            "elements.json": open(os.path.join(HERE, "data/elements.json")).read()}



def run(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def script(name):
    t = open("/opt/vp/" + name).read().replace("/repo", SCRATCH).replace("/opt/vp/build.sh", "/tmp/plant/build.sh")
    p = "/tmp/plant/" + name
    open(p, "w").write(t)
    return p


def plant(id, prop, edits, needs, breaks, demo, demo_sh=None, extra=None):
    if demo and not demo_sh and "argv[1]" in demo:
        demo_sh = DEMO_DATA
        extra = dict(extra or {}, **data_files())
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    os.makedirs("/tmp/plant", exist_ok=True)
    run("cp -a /repo " + SCRATCH)
    run("git -C %s checkout -q -- ." % SCRATCH)
    for f, old, new in edits:
        p = os.path.join(SCRATCH, f)
        t = open(p, newline="").read()
        if t.count(old) != 1:
            print(id, "text found", t.count(old), "times in", f)
            return False
        open(p, "w", newline="").write(t.replace(old, new))
    _, diff = run("git -C %s diff" % SCRATCH)
    d = tempfile.mkdtemp(dir="/tmp/plant")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    if demo:
        open(d + "/demo.cpp", "w").write(demo)
    for k, v in (extra or {}).items():
        open(d + "/" + k, "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    rc, out = run("bash %s/demo.sh" % d, cwd="/repo")
    if rc:
        print(id, "demo fails on the unchanged tree", out[-800:])
        ok = False
    rc, out = run("bash " + script("build.sh"))
    if rc:
        print(id, "does not build", out[-800:])
        ok = False
    t = open("/opt/vp/test.sh").read()
    rc, out = run("bash %s /tmp/plant/out.json" % script("test.sh"))
    try:
        res = json.load(open("/tmp/plant/out.json"))
    except Exception:
        print(out[-800:])
        raise
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests") or base
    got = res.get("passed", [])
    missing = [x for x in (stable if isinstance(stable, list) else stable.get("passed", [])) if x not in got]
    if missing:
        print(id, "tests fail", missing)
        ok = False
    rc, out = run("bash %s/demo.sh" % d, cwd=SCRATCH)
    if rc == 0:
        print(id, "demo passes with the change", out[-400:])
        ok = False
    else:
        print(id, "demo says:", out[-200:].strip())
    shutil.rmtree(SCRATCH)
    if ok:
        dst = os.path.join(HERE, "seeded", id)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.move(d, dst)
        os.chmod(dst, 0o755)
        print(id, "planted")
    else:
        shutil.rmtree(d)
    return ok
