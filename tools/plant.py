"""Plants bugs: checks a seeded change against build, tests, its demo and the property's check.

usage: plant.py ID...     (applies each patch to /repo, restores it afterwards)
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def passed(path):
    d = json.load(open(path))
    return d

def one(i):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = {"id": i, "property": prop}
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    out["demo_clean"] = sh(f"bash {d}/demo.sh", cwd="/repo").returncode
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        return {**out, "error": r.stderr[:300]}
    try:
        out["build"] = sh("bash /opt/vp/build.sh").returncode
        r = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        res = json.load(open("/tmp/plant_out.json"))
        out["tests_failed"] = sorted(set(BASE["stable"]) - set(res["passed"]))[:5]
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        out["demo_bug"] = r.returncode
        out["demo_says"] = (r.stdout + r.stderr)[-200:]
        t = time.time()
        r = sh(f"python3 -m sa {prop}", cwd=V)
        out["check"] = r.returncode
        out["check_s"] = round(time.time() - t, 1)
        out["check_says"] = r.stdout[:300] if r.returncode == 1 else r.stdout[-200:]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    return out

for i in sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded"))):
    o = one(i)
    ok = o.get("demo_clean") == 0 and o.get("demo_bug") not in (0, None) and o.get("build") == 0 and not o.get("tests_failed")
    print(("CAUGHT " if o.get("check") == 1 else "MISSED ") if ok else "INVALID", i, o["property"], "tests", o.get("tests_failed"), o.get("check_s"), o.get("error", ""))
    if not ok or o.get("check") != 1 or "-v" in sys.argv:
        print("   ", json.dumps(o)[:900])
