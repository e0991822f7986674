#!/opt/veriftools/pyvenv/bin/python3
"""Self-test of the verifier: lemmas named bad* (false statements about tricky loops) must not be discharged, the others
must; the true ones must also hold natively, and the false ones that can be refuted must be violated natively."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3
from pyvc import runner
runner.setup_path()
m, lemmas = runner.load("S01")
wrong = []
for k, l in lemmas.items():
    n = k.split(".")[1]
    r = runner.verify_unit("S01", k, {}, 60)
    failed = [c for c, v in r["claims"].items() if v["status"] not in ("discharged", "unreached")]
    ok = r["error"] is None and not failed
    if ok == n.startswith("bad"):
        wrong.append((n, r["error"], failed))
    s = runner.sample_unit("S01", k, {}, 1, 0, 300, 5, "UTC")
    if s["violation"] and not n.startswith("bad"):
        wrong.append((n, "native", s["violation"]))
print(f"pyvc ready, z3 {z3.get_version_string()}: {len(lemmas)} self-test lemmas, {len(wrong)} wrong")
for w in wrong:
    print("  wrong:", w)
sys.exit(1 if wrong else 0)
