#!/opt/veriftools/pyvenv/bin/python3
"""Confirm a planted bug: plant.py SPECFILE [ID...]

SPECFILE defines BUGS: id -> dict(property, edits=[(file, old, new)], demo, needs, breaks).  Each change is applied to a
scratch copy of /repo, which must build and pass the tests there; demo.py must pass without and fail with the change.
Confirmed bugs are written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
BUGS = ns["BUGS"]
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# exit 0 if the property holds\ncd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${DEMO_SRC:-/repo/src}" exec timeout 200 /opt/venv/bin/python -W ignore demo.py\n'
HEAD = "import ics\nfrom ics import *\nics.initialize_converters()\nimport datetime as dt\n"


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


for bid, b in BUGS.items():
    if len(sys.argv) > 2 and bid not in sys.argv[2:]:
        continue
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        copy = os.path.join(work, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(copy, "src/ics", f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], check=True, capture_output=True, text=True).stdout
        d = os.path.join(work, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
        r = []
        for src in ("/repo/src", copy + "/src"):
            r.append(subprocess.run(["bash", os.path.join(d, "demo.sh")], env={**os.environ, "DEMO_SRC": src}, cwd="/repo", capture_output=True, text=True))
        if r[0].returncode or not r[1].returncode:
            print(bid, "DEMO", r[0].returncode, r[1].returncode, r[0].stderr[-600:], r[1].stdout[-300:])
            continue
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "--deselect", "tests/__init__.py::test_version_matches", "-p", "no:cacheprovider", "--no-cov", "--hypothesis-profile=ci", "--timeout=300", "--basetemp=" + work + "/tmp"],
                           cwd=copy, env={**os.environ, "PYTHONPATH": copy + "/src", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "PYTHONHASHSEED": "0", "HYPOTHESIS_STORAGE_DIRECTORY": work + "/hyp"}, capture_output=True, text=True)
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        if t.returncode:
            print(bid, "TESTS", tail, [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:3])
            continue
        out = "/verif/seeded/" + bid
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(d, f), out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(bid, "ok:", tail, "|", r[1].stderr.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(work)
