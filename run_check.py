#!/opt/veriftools/pyvenv/bin/python3
"""run_check.py PROPERTY [quick|thorough] | --replay FILE"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get("PYVC_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("TZ", "UTC")
from pyvc import runner  # noqa: E402

BUDGETS = {  # verification budget per unit (s), sampling budget per unit and timezone (s), samples per unit and timezone, total sampling budget (s)
    "quick": (150, 4.0, 1500, 20),
    "thorough": (800, 60.0, 100000, 300),
}
TOTAL = {"quick": 420, "thorough": 3600}  # (s) what is not verified by then is reported as such


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    vbudget, sbudget, count, stotal = BUDGETS[tier]
    only = os.environ.get("PYVC_ONLY")
    try:
        m, lemmas = runner.load(prop)
    except BaseException as e:
        import traceback
        tb = traceback.format_exc()
        path = write_replay(prop, "load", {"kind": "load", "prop": prop, "error": tb})
        print(tb)
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        return finish(prop, tier, seed, t0, [], [], [{"claim": "specification applies to the code", "detail": tb}], [])
    from pyvc import spec
    pool = runner.Pool(int(os.environ.get("PYVC_JOBS", "8")))
    units = []
    for k in sorted(lemmas):
        l = lemmas[k]
        if only and only not in k:
            continue
        if l.tier == "thorough" and tier != "thorough":
            continue
        for u in runner.units_of(l):
            units.append((l, u))
    # ---------------- deductive verification
    proof_units = [(l, u) for l, u in units if l.mode == "proof"]
    vres = pool.map(runner._verify_entry, [(prop, l.key, u, vbudget) for l, u in proof_units], vbudget + 60, until=t0 + TOTAL[tier])
    failures = []        # (lemma, unit, claim, status, detail, models)
    for (l, u), r in zip(proof_units, vres):
        if r is None:
            r = {"unit": runner.unit_name(l, u), "claims": {}, "error": "the verifier did not finish", "models": []}
            vres[proof_units.index((l, u))] = r
        if r.get("error"):
            failures.append((l, u, "(all)", "unsupported", r["error"], []))
        for c, x in r["claims"].items():
            if x["status"] != "discharged":
                failures.append((l, u, c, x["status"], x["detail"], [mm for mm in r["models"] if mm["claim"] == c]))
    if os.environ.get("PYVC_VERBOSE"):
        for r in vres:
            print(f"  {r['unit']}: {sum(1 for c in r['claims'].values() if c['status']=='discharged')}/{len(r['claims'])} claims, {r.get('feasible_paths')} paths, {r.get('time')} s {r.get('error') or ''}")
            for c, x in r["claims"].items():
                if x["status"] != "discharged":
                    print("     ", c, x["status"], x["detail"])
            for mm in r["models"][:3]:
                print("      model", mm["claim"], mm["repr"][:600])
            if r.get("trace"):
                print(r["trace"])
    # ---------------- replay of counter-models
    violations = []
    reported = set()
    for l, u, claim, status, detail, models in failures:
        for mm in models[:3]:
            for tz in runner.TZS[:2]:
                rr = pool.map(runner._replay_entry, [(prop, l.key, u, mm["args"], tz)], 60)[0]
                if rr and rr[0] is not None and rr[0] != "discard":
                    violations.append({"lemma": l.key, "unit": u, "claim": rr[0][0], "detail": rr[0][1], "tz": tz, "kind": "model", "args": mm["args"], "repr": rr[1]})
                    break
            if violations:
                break
        if violations:
            break
    # ---------------- sampling of the same lemmas on the real code
    sres = []
    if not violations:
        tasks = []
        for l, u in units:
            tzs = l.tzs or runner.TZS
            if tier == "quick":
                tzs = tzs[:2] if l.tzs is None else tzs
                if l.tzs is None:
                    tzs = ["UTC", "Europe/Berlin"] if getattr(m, "LOCALTIME", False) else [runner.TZS[seed % len(runner.TZS)]]
            for tz in tzs:
                w = l.weight * (2 if l.mode == "bounded" else 1)
                tasks.append((prop, l.key, u, seed, 0, int(count * w), sbudget * w, tz))
        f = min(1.0, stotal * pool.n / max(1.0, sum(t[6] for t in tasks)))
        tasks = [t[:6] + (max(1.0, t[6] * f),) + t[7:] for t in tasks]
        sres = pool.map(runner._sample_entry, tasks, 4 * sbudget * 8 + 120, stop=lambda rs: any(r and r["violation"] for r in rs))
        for t, r in zip(tasks, sres):
            if r is not None and r["violation"]:
                v = r["violation"]
                violations.append({"lemma": t[1], "unit": t[2], "claim": v["claim"], "detail": v["detail"], "tz": t[7], "kind": "sample", "seed": seed, "index": v["index"], "repr": v["args"]})
                break
        sres = [r for r in sres if r is not None]
        # claims that no sample reaches
        if not violations:
            for l, u in units:
                rs = [r for r in sres if r["unit"] == runner.unit_name(l, u)]
                seen = set()
                for r in rs:
                    seen |= set(r["reached"])
                if l.mode == "bounded":
                    miss = [c for c in runner.claim_names(l) if c not in seen]
                    if miss and rs and sum(r["evaluations"] for r in rs) and not os.environ.get("PYVC_STRICT"):
                        # a machine may be too slow to reach rare branches
                        print(f"note: {runner.unit_name(l, u)}: not reached by the samples: {', '.join(miss)}")
                    elif miss or not rs:
                        failures.append((l, u, ", ".join(miss) or "(all)", "unreached", "no sampled input reaches this claim", []))
    known = known_findings(prop)
    rc = 0
    out = []
    if violations:
        v = violations[0]
        k = match_known(known, v)
        if k is None:
            rc = 1
            path = write_replay(prop, "input", {**v, "prop": prop, "obligations": [(l.key, c, s, str(d)[:500]) for l, u, c, s, d, mm in failures]})
            print(f"claim violated: {v['lemma']}: {v['claim']}\n  {str(v['detail'])[:1500]}\n  arguments: {str(v['repr'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
    if failures and not violations:
        rc = 1
        for l, u, c, s, d, mm in failures[:10]:
            print(f"obligation not discharged: {runner.unit_name(l, u)}: {c}: {s}: {str(d)[:600]}")
        path = write_replay(prop, "obligation", {"kind": "obligation", "prop": prop, "obligations": [
            {"lemma": l.key, "unit": runner.unit_name(l, u), "claim": c, "status": s, "detail": str(d)[:3000], "models": [x["repr"] for x in mm]} for l, u, c, s, d, mm in failures]})
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    for line in known:
        print(f"KNOWN-FINDING: property={prop} {line['what']}")
    finish(prop, tier, seed, t0, vres, sres, violations or [{"claim": c, "status": s} for l, u, c, s, d, mm in failures], units)
    return rc


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append({"what": line.split(f"property={prop} ", 1)[1]})
    return out


def match_known(known, v):
    return None


def write_replay(prop, kind, data):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.{kind}.json")
    data["how"] = f"cd {VERIF} && ./run_check.py --replay {path}"
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def replay(path):
    d = json.load(open(path))
    if d.get("kind") in ("load", "obligation"):
        print(json.dumps(d, indent=1))
        return 1
    os.environ["TZ"] = d["tz"]
    time.tzset()
    m, lemmas = runner.load(d["prop"])
    l = lemmas[d["lemma"]]
    if d["kind"] == "model":
        r, rep = runner.replay_model(d["prop"], d["lemma"], d["unit"], d["args"], d["tz"])
    else:
        rng = runner.sample_rng(d["seed"], runner.unit_name(l, d["unit"]), d["index"], d["tz"])
        args = runner.gen_args(l, rng)
        rep = repr(args)
        r = runner.run_native(l, runner.case_args(l, d["unit"]), args)
    print("arguments:", rep)
    print("result:", r)
    return 1 if r not in (None, "discard") else 0


TRUSTED = [
    "pyvc, the VC generator itself (symbolic execution of the Python subset used by ics; differential tests in tools/selftest.py)",
    "models of CPython built-ins and the standard library (str, list, dict, datetime, re, urllib, base64) in pyvc/models.py, strings.py, dtmodel.py, regex.py",
    "z3 5.3 (quantifier-free integer arithmetic with uninterpreted functions), cvc5 on unknown",
    "attrs-generated methods are verified from their generated source; class construction and converter discovery run natively once",
]


def finish(prop, tier, seed, t0, vres, sres, viol, units):
    os.makedirs(EVIDENCE, exist_ok=True)
    claims = [(r["unit"], n, c) for r in vres for n, c in r["claims"].items()]
    nob = sum(c["n"] for _, _, c in claims)
    ndis = sum(c["n"] for _, _, c in claims if c["status"] == "discharged")
    errs = [r for r in vres if r.get("error")]
    nob += len(errs)
    back = {}
    for _, _, c in claims:
        for b, n in c["backends"].items():
            back[b] = back.get(b, 0) + n
    ev = sum(r["evaluations"] for r in sres)
    dist = sum(r["distinct"] for r in sres)
    funcs = sorted({f for r in vres for f in r.get("functions", ())})
    proved = bool(claims) or bool(errs)
    cov = {"functions_under_contract": funcs, "callee_contracts": sorted({c for r in vres for c in r.get("contracts", ())}), "claims": [{"unit": u, "claim": n, "status": c["status"], "instances": c["n"], "solver_s": round(c["time"], 3)} for u, n, c in claims],
           "discharged_by": back, "solver_s": round(sum(r.get("solver_time", 0) for r in vres), 2), "solver_calls": sum(r.get("solver_calls", 0) for r in vres),
           "paths": sum(r.get("feasible_paths", 0) or 0 for r in vres),
           "undischarged_units": [{"unit": r["unit"], "error": r["error"]} for r in errs],
           "bounded_lemmas": sorted({runner.unit_name(l, u) for l, u in units if l.mode == "bounded"}),
           "sampled_evaluations": ev, "sampled_distinct": dist}
    rule = "arguments drawn from the sorts of each lemma with a boundary-biased generator seeded by VERIF_SEED; lemmas run natively on /repo; distinct counts distinct argument tuples that satisfy the assumptions"
    samples = [{"unit": r["unit"], "args": s} for r in sres for s in r["samples"]][:6]
    cov.update({"obligations": nob, "discharged": ndis, "checker_cmd": f"./run_check.py {prop} {tier}", "trusted_base": TRUSTED})
    cov.update({"evaluations": ev, "distinct_nontrivial": dist, "rule": rule, "samples": samples})
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof" if proved else "exploration")
    data = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions(prop), "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol)}
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(data, f, indent=1, default=str)
    print(f"{prop} {tier}: {ndis}/{nob} obligations discharged in {len(vres)} units, {ev} native evaluations, {data['wall_s']} s")
    return 1


def assumptions(prop):
    from importlib import import_module
    base = ["integers, dates and lists are unbounded mathematical values as in Python (memory limits ignored)", "library models listed in trusted_base are assumed",
            "each tzinfo is an arbitrary function of (wall clock, fold) with offsets strictly between -24 h and 24 h whose fromutc preserves the instant"]
    try:
        m = sys.modules.get("specs." + prop) or import_module("specs." + prop)
        return base + list(getattr(m, "ASSUMPTIONS", []))
    except BaseException:
        return base


if __name__ == "__main__":
    sys.exit(main())
