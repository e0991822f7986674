#!/opt/veriftools/pyvenv/bin/python3
"""catch.py [TIER] [ID-prefix...]: run the check of each planted bug's property against a scratch copy of /repo/src with the bug."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = args.pop(0) if args and args[0] in ("quick", "thorough") else "quick"
par = int(os.environ.get("PAR", "2"))


def one(d):
    bid = os.path.basename(d)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", w + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, d + "/patch.diff"], check=True, cwd="/")
        t = time.time()
        r = subprocess.run([sys.executable, V + "/run_check.py", prop, tier], cwd=V, capture_output=True, text=True,
                           env={**os.environ, "PYVC_REPO_SRC": w + "/src", "PYVC_EVIDENCE": w + "/ev", "PYVC_JOBS": str(8 // par)})
        line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        what = [l for l in r.stdout.splitlines() if l.startswith(("claim violated", "obligation not"))]
        st = "MISSED" if r.returncode == 0 else ("caught-no-input" if line and line[0].endswith("no-failing-input-found") else "caught") if r.returncode == 1 and line else f"rc={r.returncode}"
        return f"{bid:28} {st:16} {time.time()-t:5.0f}s {(what or [''])[0][:230]}"
    finally:
        shutil.rmtree(w)


ds = [d for d in sorted(glob.glob(V + "/seeded/*")) if not args or any(os.path.basename(d).startswith(a) for a in args)]
with ThreadPoolExecutor(par) as ex:
    for x in ex.map(one, ds):
        print(x, flush=True)
