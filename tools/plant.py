"""Plant a bug: python3 tools/plant.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)

EDITS: list of (file under /repo, old text, new text); DEMO: Python source, run with cwd /repo.
Applies the edits to a scratch clone of /repo, checks that it builds, passes the stable tests, that the demonstration
fails with the change and passes without it, and runs the property's quick check.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = tempfile.mkdtemp(prefix="plant-")
REPO = SCRATCH + "/repo"
subprocess.check_call(["git", "clone", "-q", "/repo", REPO])
os.mkdir(SCRATCH + "/vp")
for name in os.listdir("/opt/vp"):
    if os.path.isfile("/opt/vp/" + name):
        with open("/opt/vp/" + name) as f, open(SCRATCH + "/vp/" + name, "w") as g:
            g.write(f.read().replace("/repo", REPO).replace("/opt/vp", SCRATCH + "/vp"))
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(VERIF, "seeded", spec["ID"])
os.makedirs(d, exist_ok=True)
DEMO_SH = """#!/bin/bash
# exit 0: the property holds for the demonstrated case
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$HERE/demo.py"
"""
with open(d + "/demo.sh", "w") as f:
    f.write(DEMO_SH)
with open(d + "/demo.py", "w") as f:
    f.write(spec["DEMO"].lstrip("\n"))
with open(d + "/meta.json", "w") as f:
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, f, indent=1)
    f.write("\n")


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo():
    return run("bash", d + "/demo.sh", cwd=REPO)


assert run("git", "-C", REPO, "status", "--porcelain").stdout == "", "unclean"
ok = True
r = demo()
if r.returncode:
    ok = False
    print("DEMO FAILS ON THE UNCHANGED TREE", r.stdout[-800:], r.stderr[-1500:])
try:
    for fn, old, new in spec["EDITS"]:
        s = open(REPO + "/" + fn).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(REPO + "/" + fn, "w").write(s.replace(old, new))
    with open(d + "/patch.diff", "w") as f:
        f.write(run("git", "-C", REPO, "diff").stdout)
    base = {fn: set(run("git", "-C", REPO, "show", "d7a268a:" + fn).stdout.splitlines()) for fn, *_ in spec["EDITS"]}
    for fn in base:
        for line in run("git", "-C", REPO, "diff", "-U0", "--", fn).stdout.splitlines()[4:]:
            if line.startswith("-") and line[1:] not in base[fn]:
                print("NOT A LINE OF THE ORIGINAL REPOSITORY", line)
                ok = False
    b = run("bash", SCRATCH + "/vp/build.sh")
    if b.returncode:
        ok = False
        print("BUILD FAILS", b.stdout[-1000:], b.stderr[-1000:])
    run("bash", SCRATCH + "/vp/test.sh", SCRATCH + "/out.json")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    res = json.load(open(SCRATCH + "/out.json"))
    passed = set(res.get("passed", []))
    bad = [t for t in stable if t not in passed]
    if bad:
        ok = False
        print("TESTS FAIL", bad[:5])
    r = demo()
    if r.returncode == 0:
        ok = False
        print("DEMO PASSES WITH THE PATCH", r.stdout[-500:])
    else:
        print("demo with patch:", (r.stdout + r.stderr).strip().splitlines()[-1][:300])
    if "--nocheck" not in sys.argv:
        c = run("sh", "run.sh", spec["PROPERTY"], cwd=VERIF, env=dict(os.environ, VERIF_REPO=REPO, VERIF_NOEVIDENCE="1"))
        print("check exit", c.returncode, c.stdout[:600], c.stderr[-300:])
finally:
    shutil.rmtree(SCRATCH)
print(spec["ID"], "OK" if ok else "NOT OK")
