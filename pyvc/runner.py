"""Checks the lemmas of a property: symbolic verification, replay of counter-models, sampling."""
import ast
import base64
import contextlib
import hashlib
import importlib
import inspect
import io
import json
import multiprocessing as mp
import os
import pickle
import random
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("PYVC_REPO_SRC", "/repo/src")  # (another tree only while developing the checks)
VENV = "/opt/venv/lib/python3.12/site-packages"
PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY):
    PY = sys.executable
TZS = ["UTC", "Etc/GMT-2", "America/New_York", "Europe/Berlin"]


def setup_path():
    for p in (VENV, REPO_SRC, VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True


def load(prop):
    setup_path()
    sys.setrecursionlimit(20000)
    warnings.simplefilter("ignore")
    import ics
    if not os.path.abspath(ics.__file__).startswith(REPO_SRC):
        raise RuntimeError(f"ics imported from {ics.__file__}")
    ics.initialize_converters()
    m = importlib.import_module("specs." + prop)
    from . import spec
    return m, {k: l for k, l in spec.LEMMAS.items() if l.prop == prop}


def units_of(l):
    """the cases of a lemma"""
    out = [{}]
    for k, vals in l.cases.items():
        out = [{**u, k: i} for u in out for i in range(len(vals))]
    return out


def case_args(l, unit):
    return {k: l.cases[k][i] for k, i in unit.items()}


def unit_name(l, unit):
    if not unit:
        return l.key
    def nm(v):
        if isinstance(v, tuple) and v:
            return "/".join(nm(x) for x in v if isinstance(x, (str, type)))
        return getattr(v, "__name__", None) or repr(v)[:30]
    return l.key + "[" + ",".join(nm(l.cases[k][i]) for k, i in unit.items()) + "]"


def claim_names(l):
    """names of the claims stated by a lemma (and the helper functions of its module are not included)"""
    src = inspect.getsource(l.fn)
    t = ast.parse(inspect.cleandoc(src) if src[:1] in " \t" else src)
    names = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "prove" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            if n.args[1].value not in names:
                names.append(n.args[1].value)
    return names


# ------------------------------------------------------------------ symbolic verification of one unit
def make_interp(prop):
    from .interp import Interp
    from . import specmodels, spec
    I = Interp()
    specmodels.install(I)
    return I


class _Pickler(pickle.Pickler):
    """calendar timezones are stored by name"""
    def persistent_id(self, o):
        from ics.timezone import Timezone, UTC
        if o is UTC:
            return ("tz", None)
        if isinstance(o, Timezone):
            return ("tz", o.tzid)
        return None


class _Unpickler(pickle.Unpickler):
    def persistent_load(self, pid):
        from ics.timezone import Timezone, UTC
        return UTC if pid[1] is None else Timezone.from_tzid(pid[1])


def dump_args(args):
    b = io.BytesIO()
    _Pickler(b).dump(args)
    return base64.b64encode(b.getvalue()).decode()


def load_args(blob):
    return _Unpickler(io.BytesIO(base64.b64decode(blob))).load()


def verify_unit(prop, key, unit, budget, contracts=(), want_models=True):
    t0 = time.monotonic()
    res = {"unit": None, "claims": {}, "error": None, "paths": 0, "models": []}
    try:
        m, lemmas = load(prop)
        from . import spec
        from .engine import SRaise, Prune
        from .values import Unsupported
        from .sorts import Model
        from .interp import PoisonRead
        l = lemmas[key]
        res["unit"] = unit_name(l, unit)
        I = make_interp(prop)
        e = I.e
        e.deadline = t0 + budget
        from . import contracts as con
        for c in getattr(m, "USES", ()):
            con.use(I, c)
        hook = getattr(m, "setup", None)
        if hook is not None:
            hook(I)
        cargs = case_args(l, unit)
        cur = {}

        def on_fail(model):
            mm = Model(model)
            return {k: l.sorts[k].conc(mm, v) for k, v in cur["args"].items()}
        e.on_fail = on_fail

        def run():
            args = {k: s.sym(I, k) for k, s in l.sorts.items()}
            cur["args"] = args
            try:
                I.call(l.fn, [], {**cargs, **args})
                return ("ok", None)
            except SRaise as x:
                return ("exc", x.exc)

        def outcome(r):
            if r[0] == "exc":
                ex = r[1]
                e.prove(False, "no unexpected exception", f"{type(ex).__name__}: {ex}")
            else:
                res["paths"] += 1
        try:
            e.explore(run, outcome)
        except SRaise as x:
            res["error"] = f"exception outside of a path: {x.exc!r}"
        except PoisonRead as x:
            res["error"] = f"loop-carried state {x.what}"
        except Unsupported as x:
            tb = traceback.extract_tb(x.__traceback__)
            res["error"] = f"unsupported: {x} [in {' > '.join(I.callstack[-6:])}]"
            if os.environ.get("PYVC_TRACE"):
                res["trace"] = traceback.format_exc()
        for o in e.obligations:
            c = res["claims"].setdefault(o.name, {"status": "discharged", "n": 0, "time": 0.0, "backends": {}, "detail": None})
            c["n"] += 1
            c["time"] += o.time
            if o.status == "discharged":
                c["backends"][o.backend] = c["backends"].get(o.backend, 0) + 1
            else:
                if c["status"] != "failed":
                    c["status"] = o.status
                c["detail"] = o.detail or c["detail"]
                if o.status == "failed" and o.args is not None and len(res["models"]) < 8:
                    try:
                        res["models"].append({"claim": o.name, "args": dump_args(o.args), "repr": repr(o.args)[:2000]})
                    except Exception as x:
                        c["detail"] = f"{c['detail'] or ''} [counter-model {o.args!r} can't be stored: {x}]"
        if res["error"] is None:
            for n in claim_names(l):
                if n not in res["claims"] and not l.fn.__dict__.get("optional_claims"):
                    res["claims"][n] = {"status": "unreached", "n": 1, "time": 0.0, "backends": {}, "detail": "no path reaches this claim"}
            if not res["claims"]:
                res["error"] = "no obligations"
        res["functions"] = sorted(e.functions_inlined)
        res["contracts"] = sorted(e.contracts_used)
        res["trusted"] = sorted(e.trusted_used)
        res["solver_calls"], res["solver_time"] = e.solver_calls, round(e.solver_time, 3)
        res["feasible_paths"] = e.paths
    except BaseException as x:
        res["error"] = f"internal: {type(x).__name__}: {x}"
        res["trace"] = traceback.format_exc()
    res["time"] = round(time.monotonic() - t0, 3)
    return res


def _verify_entry(a):
    return verify_unit(*a)


# ------------------------------------------------------------------ native execution
class Alarm(Exception):
    pass


def _limit(sec):
    import signal
    def h(sig, fr):
        raise Alarm()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)


def run_native(l, cargs, args):
    """-> None (holds), 'discard', or (claim, detail)"""
    from . import spec
    out = io.StringIO()
    try:
        _limit(20)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            l.fn(**cargs, **args)
        return None
    except spec.Discard:
        return "discard"
    except spec.Violation as v:
        return (v.name, str(v.detail) if v.detail is not None else "")
    except Alarm:
        return ("terminates", "no result after 20 s")
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as x:
        return ("no unexpected exception", "".join(traceback.format_exception_only(type(x), x)).strip() + "\n" + traceback.format_exc())
    finally:
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)


def sample_rng(seed, name, i, tz):
    h = hashlib.sha256(f"{seed}:{name}:{i}:{tz}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def gen_args(l, r):
    return {k: s.rand(r) for k, s in l.sorts.items()}


def sample_unit(prop, key, unit, seed, start, count, budget, tz, sh=None):
    """native sampling; runs in a process with TZ set"""
    os.environ["TZ"] = tz
    time.tzset()
    t0 = time.monotonic()
    m, lemmas = load(prop)
    from . import spec
    l = lemmas[key]
    name = unit_name(l, unit)
    cargs = case_args(l, unit)
    res = {"unit": name, "tz": tz, "evaluations": 0, "discarded": 0, "reached": {}, "violation": None, "samples": []}
    spec._reached = {}
    distinct = set()
    i = start
    while i < start + count and time.monotonic() - t0 < budget:
        r = sample_rng(seed, name, i, tz)
        try:
            args = gen_args(l, r)
        except Exception as x:
            res["violation"] = {"claim": "sampling", "detail": traceback.format_exc(), "index": i, "args": None}
            break
        v = run_native(l, cargs, args)
        res["evaluations"] += 1
        if v == "discard":
            res["discarded"] += 1
        elif v is not None:
            res["violation"] = {"claim": v[0], "detail": v[1], "index": i, "args": repr(args)[:3000]}
            break
        else:
            distinct.add(hash(repr(args)))
            if len(res["samples"]) < 2:
                res["samples"].append(repr(args)[:300])
        i += 1
    res["distinct"] = len(distinct)
    res["reached"] = dict(spec._reached)
    res["time"] = round(time.monotonic() - t0, 2)
    return res


def _sample_entry(a):
    try:
        return sample_unit(*a)
    except BaseException as x:
        return {"unit": a[1], "tz": a[7], "evaluations": 0, "discarded": 0, "reached": {}, "violation": {"claim": "harness", "detail": traceback.format_exc(), "index": -1, "args": None}, "samples": [], "distinct": 0, "time": 0}


def replay_model(prop, key, unit, blob, tz):
    """run a counter-model natively"""
    os.environ["TZ"] = tz
    time.tzset()
    m, lemmas = load(prop)
    l = lemmas[key]
    args = load_args(blob)
    return run_native(l, case_args(l, unit), args), repr(args)


def _replay_entry(a):
    try:
        return replay_model(*a)
    except BaseException as x:
        return None, repr(x)


class Pool:
    """each task in a fresh process (forked), several at a time, hard time limit"""
    def __init__(self, n=8):
        self.n = n
        self.ctx = mp.get_context("fork")

    def map(self, fn, tasks, limit, stop=None, until=None):
        results = [None] * len(tasks)
        todo = list(range(len(tasks)))
        running = {}
        while todo or running:
            while todo and len(running) < self.n:
                i = todo.pop(0)
                rd, wr = self.ctx.Pipe(False)
                p = self.ctx.Process(target=_child, args=(fn, tasks[i], wr))
                p.start()
                wr.close()
                running[i] = (p, rd, time.monotonic())
            ready = mp.connection.wait([rd for p, rd, t in running.values()], timeout=0.2)
            for i in list(running):
                p, rd, t = running[i]
                if rd in ready:
                    try:
                        results[i] = rd.recv()
                    except EOFError:
                        results[i] = None
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    rd.close()
                    del running[i]
                elif time.monotonic() - t > limit or until is not None and time.monotonic() > until:
                    p.kill()
                    p.join()
                    rd.close()
                    del running[i]
            if until is not None and time.monotonic() > until:
                todo = []
            if stop is not None and stop(results):
                for p, rd, t in running.values():
                    p.kill()
                    p.join()
                break
        return results


def _child(fn, task, wr):
    try:
        r = fn(task)
    except BaseException:
        r = None
    try:
        wr.send(r)
    finally:
        wr.close()
        os._exit(0)


import multiprocessing.connection  # noqa: E402
