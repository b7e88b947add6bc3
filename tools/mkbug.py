"""mkbug(id, property, file, [(old, new)], needs, breaks, demo): writes /verif/seeded/<id> (the demo is a Python script)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mkbug(i, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = "/repo/pyactr/" + f
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run in /repo after the build: exit 0 when the property holds here\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def original(d):
    """The lines a patch removes are lines of the original repository."""
    import re
    f, ln, bad = None, 0, []
    base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
    for l in open(os.path.join(d, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            old = open("/repo/" + f).read().split("\n")
            blame = subprocess.run(f"git -C /repo blame -s {f}", shell=True, capture_output=True, text=True).stdout.split("\n")
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m[1])
        elif f and l.startswith("-") and not l.startswith("---"):
            if not (blame[ln - 1].startswith("^") or blame[ln - 1].startswith(base[:7])):
                bad.append(l.strip())
            ln += 1
        elif f and l.startswith(" "):
            ln += 1
    return bad
