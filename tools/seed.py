#!/usr/bin/env python3
"""Build and confirm a planted bug: tools/seed.py SPEC.py [--full-tests]

SPEC.py defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS, TESTS (test modules to run).
Everything happens in a scratch copy; on success the bug is stored in /verif/seeded/ID and the property's check is run on the copy.
"""
import json, os, runpy, shutil, subprocess, sys
spec = runpy.run_path(sys.argv[1])
ID, PROP = spec["ID"], spec["PROP"]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt = f"/tmp/seedwt_{ID}"
shutil.rmtree(wt, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", wt])
try:
    for f, old, new in spec["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    d = f"/tmp/seeds/{ID}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(spec["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=PROP, needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
    print(ID, "demo base rc", a.returncode, "patched rc", b.returncode, b.stderr.strip().splitlines()[-1:] )
    if a.returncode != 0:
        print(a.stderr[-1500:])
    assert a.returncode == 0 and b.returncode != 0
    env = dict(os.environ, XDG_CONFIG_HOME="/opt/vp/astropy-config", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=wt)
    tests = ["hera_cal"] if "--full-tests" in sys.argv else ["hera_cal/tests/" + t for t in spec["TESTS"]]
    if "--no-tests" not in sys.argv:
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-n", "8"] + tests, cwd=wt, env=env, capture_output=True, text=True)
        failed = [l.split()[1] for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = json.dumps(base)
        bad = [f for f in failed if f.split("[")[0].split("::")[-1] in stable]
        print(t.stdout.strip().splitlines()[-1], "stable failures:", bad)
        if bad:
            shutil.rmtree(f"{V}/seeded/{ID}", ignore_errors=True)
            sys.exit("REJECTED: existing tests catch it")
    shutil.rmtree(f"{V}/seeded/{ID}", ignore_errors=True)
    shutil.copytree(d, f"{V}/seeded/{ID}")
    c = subprocess.run([V + "/check", PROP, "--no-evidence"], env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True)
    print("CHECK rc", c.returncode, c.stdout.strip()[-700:])
finally:
    shutil.rmtree(wt, ignore_errors=True)
