"""Make and verify a planted bug. usage: seed.py SPECFILE [id ...] [--notest]
SPECFILE: python defining SEEDS = {id: dict(property, edits=[(file, old, new)], needs, breaks, demo=python source)}"""
import json, os, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = [a for a in sys.argv[2:] if not a.startswith("--")] or list(ns["SEEDS"])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# cwd: /repo. exit 0 when the property holds, nonzero when broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''
for i in ids:
    sp = ns["SEEDS"][i]
    d = f"{ROOT}/seeded/{i}"
    tmp = tempfile.mkdtemp(prefix="seed_")
    w = tmp + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(sp["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    clean = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    for f, a, b in sp["edits"]:
        p = f"{w}/src/pygerber/{f}"; t = open(p).read()
        assert t.count(a) == 1, (i, f, t.count(a))
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    bad = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    ok = clean.returncode == 0 and bad.returncode != 0
    msg = f"{i}: clean {clean.returncode} patched {bad.returncode}"
    if clean.returncode: msg += "\n" + clean.stderr[-800:]
    elif "Assertion" not in bad.stderr: msg += "\n" + bad.stderr[-300:]
    if ok and "--notest" not in sys.argv:
        env = dict(os.environ, PYTHONPATH=w + "/src:/opt/vp/env", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", TZ="UTC", LANG="C.UTF-8",
                   PATH="/opt/venv/bin:/usr/bin:/bin")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", os.environ.get("NJ", "8"), "-p", "no:cacheprovider", "-p", "pygerber_offline", "--timeout=300",
                        "-o", "junit_family=xunit2", f"--junitxml={tmp}/j.xml", "test/"], cwd=w, env=env, capture_output=True)
        subprocess.run(["python3", "/opt/vp/results.py", tmp + "/out.json", f"junit:{tmp}/j.xml"], capture_output=True)
        miss = stable - set(json.load(open(tmp + "/out.json"))["passed"])
        msg += f" tests missing {len(miss)} {sorted(miss)[:3]}"
        ok = not miss
    if not ok:
        msg += "  -> REJECTED"
        shutil.rmtree(d)
    print(msg, flush=True)
    shutil.rmtree(tmp)
