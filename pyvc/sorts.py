"""Argument sorts of lemmas: how to create them symbolically, rebuild them from a counter-model, and sample them."""
import ast
import datetime as _dt
import os
import random as _random
import z3

from .values import *
from .seqs import *
from .strings import SStr, Ch, Atom, Dec, mkstr


# ------------------------------------------------------------------ timezones rebuilt from models
class ModelTz(_dt.tzinfo):
    """the zone of a counter-model: an offset table"""
    def __init__(self, name="model", default=0, table=(), back=()):
        self.name, self.default, self.table, self.back = name, default, dict(table), dict(back)

    def __reduce__(self):
        return (ModelTz, (self.name, self.default, tuple(self.table.items()), tuple(self.back.items())))

    def utcoffset(self, d):
        if d is None:
            return None
        us = self.table.get((wall_of(d), d.fold), self.default)
        return _dt.timedelta(microseconds=us)

    def dst(self, d):
        return _dt.timedelta(0)

    def tzname(self, d):
        return self.name

    def fromutc(self, d):
        utc = wall_of(d)
        if utc in self.back:
            w, f = self.back[utc]
            return d.replace(fold=f) + _dt.timedelta(microseconds=w - utc) if not f else (d + _dt.timedelta(microseconds=w - utc)).replace(fold=f)
        return d + _dt.timedelta(microseconds=self.default)

    def __repr__(self):
        return f"ModelTz({self.name!r}, {self.default}, {self.table}, {self.back})"


class Model:
    """counter-model with completion"""
    def __init__(self, m):
        self.m = m
        self.tz = {}
        self.tables = {}
        from . import dtmodel as d
        for f in (d.OFF, d.FU_WALL):
            self.entries(f)

    def ev(self, e):
        v = self.m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise ValueError(f"no value for {e}: {v}")

    def entries(self, decl):
        """finite table of a function in the model; () -> the default"""
        if decl not in self.tables:
            t = {}
            try:
                fi = self.m[decl]
                if fi is not None:
                    rows = [(fi.entry(i), fi.arity()) for i in range(fi.num_entries())]
                    rows = [([en.arg_value(j) for j in range(n)], en.value()) for en, n in rows]
                    t = {tuple(x.as_long() for x in a): v.as_long() for a, v in rows if z3.is_int_value(v)}
                    ev = fi.else_value()
                    if ev is not None and z3.is_int_value(ev):
                        t[()] = ev.as_long()
            except z3.Z3Exception:      # partial interpretation
                pass
            self.tables[decl] = t
        return self.tables[decl]

    def zone(self, v):
        from . import dtmodel as d
        ident = self.ev(v.ident)
        if ident in self.tz:
            return self.tz[ident]
        for obj, i, zt, n in d._zones.values():
            if ident == -(n + 10):
                return obj
        zone = self.ev(v.zone)
        if zone == self.ev(d.SYSLOCAL) and v.kind == "tzlocal":
            import dateutil.tz
            self.tz[ident] = dateutil.tz.tzlocal()
            return self.tz[ident]
        # (read all entries before anything is evaluated: completing the model replaces the interpretations)
        table = {k[1:]: v for k, v in self.entries(d.OFF).items() if k and k[0] == zone}
        walls = {k[1]: v for k, v in self.entries(d.FU_WALL).items() if k and k[0] == zone}
        default = self.entries(d.OFF).get((), 0)
        back = {u: (w, self.ev(d.FU_FOLD(z3.IntVal(zone), z3.IntVal(u)))) for u, w in walls.items()}
        if abs(default) >= DAY:
            default = 0
        self.tz[ident] = ModelTz(f"model{ident}", default, tuple(table.items()), tuple(back.items()))
        return self.tz[ident]


def concretize(m, v):
    if isinstance(v, SChoice):
        for g, x in v.alts[:-1]:
            if m.ev(g):
                return concretize(m, x)
        return concretize(m, v.alts[-1][1])
    if isinstance(v, (SBool, SInt)):
        return m.ev(v.e)
    if isinstance(v, STD):
        return _dt.timedelta(microseconds=m.ev(v.us))
    if isinstance(v, SDT):
        w = m.ev(v.wall)
        tz = concretize(m, v.tz)
        f = v.fold if isinstance(v.fold, int) else m.ev(v.fold)
        return (_dt.datetime(1, 1, 1) + _dt.timedelta(microseconds=w)).replace(tzinfo=tz, fold=f)
    if isinstance(v, SDate):
        return _dt.date(1, 1, 1) + _dt.timedelta(days=m.ev(v.day))
    if isinstance(v, STime):
        f = v.fold if isinstance(v.fold, int) else m.ev(v.fold)
        return (_dt.datetime(1, 1, 1) + _dt.timedelta(microseconds=m.ev(v.tod))).time().replace(tzinfo=concretize(m, v.tz), fold=f)
    if isinstance(v, STz):
        return m.zone(v)
    if isinstance(v, SStr):
        out = []
        for p in v.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Ch):
                out.append(chr(m.ev(p.e)))
            elif isinstance(p, Dec):
                out.append(str(m.ev(p.e)).zfill(p.width or 0))
            elif isinstance(p, Atom):
                from .strings import _LITS
                n = m.ev(p.e)
                for s, k in _LITS.items():
                    if k == n:
                        out.append(s)
                        break
                else:
                    out.append(f"text{n}" if n >= 0 else f"text-{-n}")
            else:
                raise ValueError("unbounded text")
        return "".join(out)
    if isinstance(v, SList):
        if not v.concrete:
            raise ValueError("unbounded list")
        return [concretize(m, x) for x in v.parts]
    if type(v) is tuple:
        return tuple(concretize(m, x) for x in v)
    if isinstance(v, SOpaque) and v.pytype.__name__ == "ParseResult":
        import urllib.parse
        return urllib.parse.urlparse(f"mailto:a{abs(m.ev(v.e))}@b.c")
    if isinstance(v, SOpaque) and v.pytype is _dt.timezone:
        from . import models
        return _dt.timezone(_dt.timedelta(microseconds=m.ev(models.fixed_offset(v))), concretize(m, SStr([Atom(models.fixed_name(v))])))
    if isinstance(v, Sym):
        raise ValueError(f"{v!r} has no concrete form")
    return v


# ------------------------------------------------------------------ sampling pools
_consts = None


def repo_constants():
    """literal constants of the code under verification (sampling dictionary)"""
    global _consts
    if _consts is None:
        ints, strs = set(), set()
        root = os.path.join(os.environ.get("PYVC_REPO_SRC", "/repo/src"), "ics")
        for dp, dn, fn in os.walk(root):
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                try:
                    t = ast.parse(open(os.path.join(dp, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, int) and not isinstance(n.value, bool):
                            ints.add(n.value)
                        elif isinstance(n.value, str) and 0 < len(n.value) <= 12:
                            strs.add(n.value)
        _consts = (sorted(ints), sorted(strs))
    return _consts


_tzpool = None


def tz_pool():
    global _tzpool
    if _tzpool is None:
        import dateutil.tz as dtz
        from ics.timezone import Timezone
        from ics.timezone import UTC as ICSUTC
        p = {
            "utc": [_dt.timezone.utc, ICSUTC, dtz.UTC],
            "fixed": [_dt.timezone(_dt.timedelta(hours=h, minutes=m)) for h, m in ((5, 30), (-3, 0), (14, 0), (-11, -30), (0, 0))]
                     + [_dt.timezone(_dt.timedelta(hours=2), "TWO")],
            "dateutil": [dtz.gettz(n) for n in ("America/New_York", "Europe/Berlin", "Asia/Kolkata", "Pacific/Auckland", "America/New_York")] + [dtz.tzoffset("X", -7200), dtz.tzlocal()],
            "ics": [],
        }
        for n in ("Europe/Berlin", "America/New_York", "Australia/Sydney"):
            try:
                p["ics"].append(Timezone.from_tzid(n))
            except Exception:
                pass
        p["dateutil"] = [x for x in p["dateutil"] if x is not None]
        _tzpool = p
    return _tzpool


class Sort:
    bounded = False      # only sampled, no symbolic form
    def sym(self, I, name):
        raise Unsupported(f"{type(self).__name__} has no symbolic form")
    def conc(self, m, v):
        return concretize(m, v)
    def rand(self, r):
        raise NotImplementedError


def _ivar(I, name, lo=None, hi=None):
    v = z3.Int(name)
    if lo is not None:
        I.e.add(v >= lo)
    if hi is not None:
        I.e.add(v <= hi)
    return v


class Int(Sort):
    def __init__(self, lo=None, hi=None): self.lo, self.hi = lo, hi
    def sym(self, I, name): return SInt(_ivar(I, name, self.lo, self.hi))
    def rand(self, r):
        lo = self.lo if self.lo is not None else -10**12
        hi = self.hi if self.hi is not None else 10**12
        k = r.random()
        if k < .3:
            return max(lo, min(hi, r.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1, 2])))
        if k < .5:
            return max(lo, min(hi, r.choice(repo_constants()[0]) + r.choice([-1, 0, 1])))
        if k < .75:
            return max(lo, min(hi, r.randint(-100, 100)))
        return r.randint(lo, hi)


class Bool(Sort):
    def sym(self, I, name): return SBool(z3.Bool(name))
    def rand(self, r): return r.random() < .5


class Const(Sort):
    def __init__(self, v): self.v = v
    def sym(self, I, name): return self.v
    def conc(self, m, v): return self.v
    def rand(self, r): return self.v


class Choice(Sort):
    """one of several sorts or constants"""
    def __init__(self, *alts):
        self.alts = [a if isinstance(a, Sort) else Const(a) for a in alts]
    def sym(self, I, name):
        if len(self.alts) == 1:
            return self.alts[0].sym(I, name)
        k = z3.Int(name + ".alt")
        out = []
        for i, a in enumerate(self.alts):
            out.append((k == i, a.sym(I, f"{name}.{i}")))
        I.e.add(z3.And(k >= 0, k < len(self.alts)))
        return SChoice(out)
    def conc(self, m, v):
        if not isinstance(v, SChoice):
            return self.alts[0].conc(m, v)
        for (g, x), a in zip(v.alts, self.alts):
            if m.ev(g):
                return a.conc(m, x)
    def rand(self, r): return r.choice(self.alts).rand(r)


def Opt(s):
    return Choice(None, s)


class Tz(Sort):
    """a timezone object: None, one of the UTC objects, or an arbitrary zone (any offset function)"""
    def __init__(self, kinds=("naive", "utc", "zone")): self.kinds = kinds
    def sym(self, I, name):
        alts = []
        for k in self.kinds:
            if k == "naive":
                alts.append(None)
            elif k == "utc":
                alts.append(tz_pool()["utc"][1])
            elif k == "stdutc":
                alts.append(_dt.timezone.utc)
            elif k == "zone":
                i = z3.Int(name + ".tz")
                I.e.add(i > 0)
                I.e.set_store("tzargs", I.e.store.get("tzargs", []) + [i])
                alts.append(STz(i))
        if len(alts) == 1:
            return alts[0]
        k = z3.Int(name + ".tzkind")
        I.e.add(z3.And(k >= 0, k < len(alts)))
        return SChoice([(k == i, a) for i, a in enumerate(alts)])
    def rand(self, r):
        k = r.choice(self.kinds)
        p = tz_pool()
        if k == "naive":
            return None
        if k == "utc":
            return r.choice(p["utc"])
        if k == "stdutc":
            return _dt.timezone.utc
        g = r.choice(["fixed", "dateutil", "ics"])
        return r.choice(p[g] or p["fixed"])


TRANSITIONS = [  # local wall clock readings around transitions of the pool's zones
    (2019, 3, 31, 2), (2019, 10, 27, 2), (2019, 10, 27, 3), (2020, 3, 8, 2), (2020, 11, 1, 1), (2020, 11, 1, 2), (2020, 4, 5, 2), (2020, 10, 4, 2),
    (1900, 1, 1, 0), (1970, 1, 1, 0), (2000, 2, 29, 12), (2020, 12, 31, 23), (2021, 1, 1, 0)]


def rand_wall(r, lo=1901, hi=9990):
    k = r.random()
    if k < .35:
        base = _dt.datetime(*r.choice(TRANSITIONS))
        return base + _dt.timedelta(minutes=r.choice([-121, -61, -60, -31, -30, -1, 0, 0, 1, 29, 30, 31, 59, 60, 61, 120]), seconds=r.choice([0, 0, 0, 1, 59]))
    if k < .7:  # a small world, so that equal and adjacent values occur
        return _dt.datetime(2020, r.choice([1, 1, 2, 7, 12]), r.randint(1, 3), r.choice([0, 0, 0, 1, 12, 23]), r.choice([0, 0, 30, 59]), r.choice([0, 0, 0, 1, 59]))
    if k < .8:
        return _dt.datetime(2020, r.randint(1, 12), r.randint(1, 28))
    if k < .9 and lo <= 1901:
        return _dt.datetime(r.randint(max(lo, 1), min(hi, 9998)), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    return _dt.datetime(r.randint(1970, 2040), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))


class DT(Sort):
    """a datetime. whole: whole seconds only; tz: Tz sort"""
    def __init__(self, tz=None, whole=False, midnight=False, fold=True, micro=True, years=(1901, 9990)):
        self.tz, self.whole, self.midnight, self.fold, self.micro, self.years = tz or Tz(), whole, midnight, fold, micro, years
    def sym(self, I, name):
        f = _ivar(I, name + ".fold", 0, 1) if self.fold else 0
        if self.midnight:
            d = _ivar(I, name + ".day", 0, MAXDAY)
            return SDT(d * DAY, self.tz.sym(I, name), f, d, z3.IntVal(0))
        lo, hi = 0, MAXWALL - 1
        if self.years:
            lo = wall_of(_dt.datetime(self.years[0], 1, 1))
            hi = wall_of(_dt.datetime(self.years[1], 12, 31, 23, 59, 59))
        if self.whole:
            s = _ivar(I, name + ".s", lo // 10**6, hi // 10**6)
            return SDT(s * 10**6, self.tz.sym(I, name), f)
        return SDT(_ivar(I, name + ".wall", lo, hi), self.tz.sym(I, name), f)
    def rand(self, r):
        w = rand_wall(r, *(self.years or (1, 9998)))
        if self.midnight:
            w = w.replace(hour=0, minute=0, second=0, microsecond=0)
        elif not self.whole and self.micro and r.random() < .15:
            w = w.replace(microsecond=r.choice([1, 499999, 500000, 500001, 999999]))
        tz = self.tz.rand(r)
        return w.replace(tzinfo=tz, fold=r.choice([0, 0, 0, 1]) if self.fold else 0)


class Date(Sort):
    def sym(self, I, name): return SDate(_ivar(I, name + ".day", 0, MAXDAY))
    def rand(self, r):
        if r.random() < .1:
            return r.choice([_dt.date.min, _dt.date.max, _dt.date(999, 12, 31), _dt.date(1000, 1, 1), _dt.date(4, 2, 29)])
        return rand_wall(r).date()


class Time(Sort):
    def __init__(self, whole=True, tz=None): self.whole, self.tz = whole, tz or Tz(("naive",))
    def sym(self, I, name):
        f = 0
        if self.whole:
            return STime(_ivar(I, name + ".s", 0, 86399) * 10**6, self.tz.sym(I, name), f)
        return STime(_ivar(I, name + ".tod", 0, DAY - 1), self.tz.sym(I, name), f)
    def rand(self, r):
        if r.random() < .2:
            t = r.choice([_dt.time(0), _dt.time(23, 59, 59), _dt.time(0, 0, 1)])
        else:
            t = _dt.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        if not self.whole and r.random() < .2:
            t = t.replace(microsecond=r.randint(0, 999999))
        return t.replace(tzinfo=self.tz.rand(r))


class TD(Sort):
    def __init__(self, whole=False, lo=None, hi=None, micro=True):
        self.whole = whole
        self.lo = td_us(lo) if lo is not None else TD_MIN_US
        self.hi = td_us(hi) if hi is not None else TD_MAX_US
        self.micro = micro
    def sym(self, I, name):
        if self.whole:
            return STD(_ivar(I, name + ".s", -((-self.lo) // 10**6), self.hi // 10**6) * 10**6)
        return STD(_ivar(I, name + ".us", self.lo, self.hi))
    def rand(self, r):
        k = r.random()
        H = 3600 * 10**6
        if k < .1:
            us = r.choice([self.lo, self.hi])
            if self.whole:
                us = us // 10**6 * 10**6 if us >= 0 else -(-us // 10**6 * 10**6)
        elif k < .3:
            us = r.choice([0, 0, 1, -1, 59, 60, 61, 3599, 3600, 86399, 86400, 86401, 604800, 90061, 172800, 7 * 86400 + 1]) * 10**6
            if r.random() < .3:
                us = -us
        elif k < .5:
            us = r.randint(0, 40) * DAY
        elif k < .7:
            us = r.randint(0, 72) * H + r.choice([0, 0, 30 * 60]) * 10**6
        elif k < .95:
            us = r.randint(-10**6, 10**7) * 10**6
        else:
            us = r.randint(self.lo // 10**6, self.hi // 10**6) * 10**6
        if not self.whole and self.micro and r.random() < .2:
            us += r.choice([1, -1, 500000, 499999, 500001, -500000])
        us = max(self.lo, min(self.hi, us))
        return _dt.timedelta(microseconds=us)


SPECIAL_CHARS = list("\\;,\"^'nNrR:= \t\n\r\x0b\x0c\x85\u2028\u00e9\u00df\u4e2d\U0001f600aZ09-_.+*/TP\x7f\x00\x1f")
WORDS = ["", "a", "foo", "BAR", "x y", "a,b", "a;b", "\\", "\\n", "\\,", "^n", "^^", "^'", "\"", "mailto:a@b.c", "http://x/y?z=1;q,w", "\u00fc\u4e2d", "n", "N", "P1D", "TRUE",
         "line1\nline2", "trailing\\", "1", "NONE", " ", "  lead", "trail ", ":", "=", "a:b=c;d"]


def rand_text(r, alphabet=None, maxlen=12, words=True, exclude=""):
    k = r.random()
    if words and alphabet is None and k < .25:
        s = r.choice(WORDS)
    elif words and alphabet is None and k < .35:
        s = r.choice(repo_constants()[1])
    elif k < .42:
        s = "".join(r.choice(alphabet or SPECIAL_CHARS) for _ in range(r.randint(60, 200)))
    else:
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, maxlen])
        s = "".join(r.choice(alphabet or SPECIAL_CHARS) for _ in range(n))
    if exclude:
        s = "".join(c for c in s if c not in exclude)
    return s


class Text(Sort):
    """opaque text (only its identity matters). nonempty / exclude restrict it; sampled natively"""
    def __init__(self, exclude="", nonempty=False, alphabet=None): self.exclude, self.nonempty, self.alphabet = exclude, nonempty, alphabet
    def sym(self, I, name):
        from .strings import lit_id
        v = z3.Int(name)
        if self.nonempty:
            I.e.add(v != lit_id(""))
        return SStr([Atom(v)])
    def rand(self, r):
        s = rand_text(r, self.alphabet, exclude=self.exclude)
        return s if s or not self.nonempty else r.choice("abcXYZ")


class Plain(Sort):
    """opaque text without the given characters"""
    def __init__(self, exclude, nonempty=False): self.exclude, self.nonempty = exclude, nonempty
    def sym(self, I, name):
        from .strings import lit_id
        v = z3.Int(name)
        if self.nonempty:
            I.e.add(v != lit_id(""))
        return SStr([Atom(v, self.exclude)])
    def rand(self, r):
        s = rand_text(r, None, exclude=self.exclude)
        return s if s or not self.nonempty else r.choice("abcXYZ")


class Chars(Sort):
    """arbitrary text as a sequence of unknown length of arbitrary characters (Unicode scalar values)"""
    def __init__(self, exclude="", alphabet=None, maxlen=12): self.exclude, self.alphabet, self.maxlen = exclude, alphabet, maxlen
    def char(self, I, prefix):
        c = z3.Int(prefix + ".c")
        return SStr([Ch(c)])
    def cond(self, c):
        fs = [c >= 0, c <= 0x10FFFF, z3.Or(c < 0xD800, c > 0xDFFF)]
        for x in self.exclude:
            fs.append(c != ord(x))
        return fs
    def sym(self, I, name):
        elem = self.char(I, name)
        seq = SeqVar(name, elem, name, lambda I2, p: self.char(I2, p), facts=self.cond(z3.Int(name + ".c")))
        return SStr([Many(seq, [(True, [elem])])])
    def rand(self, r):
        return rand_text(r, self.alphabet, self.maxlen, exclude=self.exclude)


class ListOf(Sort):
    """list of unknown length"""
    def __init__(self, elem, maxlen=6): self.elem, self.maxlen = elem, maxlen
    def sym(self, I, name):
        def make(I2, p):
            return self.elem.sym(I2, p + ".e")
        return I.new_list([Many(SeqVar(name, make(I, name), name, make), [(True, [0])])]) if False else self._sym(I, name, make)
    def _sym(self, I, name, make):
        elem = make(I, name)
        mark_own(elem, name)
        seq = SeqVar(name, elem, name, make)
        return I.new_list([Many(seq, [(True, [elem])])])
    def rand(self, r):
        return [self.elem.rand(r) for _ in range(r.choice([0, 1, 1, 2, 2, 3, self.maxlen]))]


class DictOf(Sort):
    """dict of unknown size with keys of one sort and values of another"""
    def __init__(self, key, value, maxlen=4): self.key, self.value, self.maxlen = key, value, maxlen
    def sym(self, I, name):
        def make(I2, p):
            k = self.key.sym(I2, p + ".k")
            I2.e.set_store(("keyed", p), k)
            return (k, self.value.sym(I2, p + ".v"))
        elem = make(I, name)
        mark_own(elem, name)
        return I.new_dict([Many(SeqVar(name, elem, name, make), [(True, [elem])])])
    def rand(self, r):
        return {self.key.rand(r): self.value.rand(r) for _ in range(r.choice([0, 1, 1, 2, 2, self.maxlen]))}


class Nested:
    """the unknown contents of a nested container (an induction hypothesis speaks about them)"""


class SubContainer(Sort):
    """a container with arbitrary contents of any depth; what is known about operations on it are the contracts named by
    the specification (induction over the depth of nesting)"""
    def __init__(self, rand): self.random = rand
    def sym(self, I, name):
        from ics.contentline import Container
        n = Text(nonempty=True).sym(I, name + ".name")
        from . import models
        return I.new_obj(Container, {"name": models.upper_lower(I, n, "upper"), "data": I.new_list([SOpaque(z3.Int(name + ".items"), Nested)])})
    def rand(self, r): return self.random(r)


class Uri(Sort):
    """an arbitrary parsed URL"""
    URIS = ["mailto:a@b.c", "http://x.y/z?a=b#c", "cid:part1", "ldap://h/o=x,c=y", "mailto:%22x%22@b.c", "http://[::1]:80/a;b?c;d", "urn:x:y", "a b", "/x/../y", "HTTP://X/", "", "mailto:A@B.C,d"]
    def sym(self, I, name):
        import urllib.parse
        return SOpaque(z3.Int(name), urllib.parse.ParseResult, True)
    def rand(self, r):
        import urllib.parse
        return urllib.parse.urlparse(r.choice(self.URIS))


class Fixed(Sort):
    """an arbitrary fixed offset (datetime.timezone) with an arbitrary name"""
    NAMES = ["A", "B", "UTC", "Etc/UTC", "utc", "Europe/Berlin", "X Y", "GMT", "UTC+01:00", "", "etc/utc", "ETC/UTC", "Utc"]
    def sym(self, I, name):
        from . import models
        v = SOpaque(z3.Int(name), _dt.timezone, True)
        I.e.add(models.fixed_facts(v))
        return v
    def rand(self, r):
        k = r.random()
        off = _dt.timedelta(hours=r.randint(-12, 12)) if k < .5 else _dt.timedelta(minutes=r.randint(-1439, 1439)) if k < .8 else _dt.timedelta(microseconds=r.randint(-86399999999, 86399999999))
        return _dt.timezone(off) if r.random() < .5 else _dt.timezone(off, r.choice(self.NAMES))


class Span(Sort):
    """an arbitrary existing timespan of a class with these begins, ends and durations (C10: an end or a duration only
    together with a begin; further conditions on them are not needed)"""
    def __init__(self, cls, begin, end, duration): self.cls, self.parts = cls, (Opt(begin), Opt(end), Opt(duration), Choice("second", "day"))
    def sym(self, I, name):
        from . import contracts
        o = I.new_obj(self.cls, {f: s.sym(I, f"{name}.{i}") for i, ((f, k), s) in enumerate(zip(contracts.SPAN_FIELDS, self.parts))})
        t = contracts.span_terms(I, o)
        I.e.add(z3.And(z3.Implies(t[0] == 0, z3.And(t[4] == 0, t[8] == 0)), z3.Or(t[4] == 0, t[8] == 0), contracts.valid_span(self.cls, t)))
        return o
    def rand(self, r):
        while True:
            b, e, d, p = (s.rand(r) for s in self.parts)
            k = r.random()
            if b is not None and k < .3:
                e = b + _dt.timedelta(seconds=r.choice([0, 1, 3600, 86399, 86400, 90000, 10**6]))
            if k < .6 and d is not None:
                d, e = abs(d), None
            if p == "day":
                b, e = (x and x.replace(hour=0, minute=0, second=0, microsecond=0, tzinfo=None) for x in (b, e))
                d = d and _dt.timedelta(days=abs(d).days)
            try:
                return self.cls(b, e, d, p)
            except (ValueError, TypeError, OverflowError):
                pass


class Rule(Sort):
    """an arbitrary recurrence rule set of naive times (assumed contract on dateutil: before(d, inc=True) is the last of
    its times at or before d, if any, and is determined by the rule and d)"""
    def __init__(self, years=(1999, 2001)): self.years = years
    def sym(self, I, name):
        import dateutil.rrule
        return SOpaque(z3.Int(name), dateutil.rrule.rruleset, True)
    def rand(self, r):
        import dateutil.rrule
        s = dateutil.rrule.rruleset()
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            s.rdate(rand_wall(r, *self.years) if r.random() < .3 else _dt.datetime(2000, 1, 1) + _dt.timedelta(hours=r.randint(-5, 40)))
        return s


class Native(Sort):
    """sampled only: fn(rng) -> value"""
    bounded = True
    def __init__(self, fn): self.fn = fn
    def rand(self, r): return self.fn(r)


class Char(Sort):
    """one character (Unicode scalar value)"""
    def __init__(self, exclude="", alphabet=None): self.exclude, self.alphabet = exclude, alphabet
    def sym(self, I, name):
        c = z3.Int(name)
        for f in self.facts(c):
            I.e.add(f)
        return SStr([Ch(c)])
    def facts(self, c):
        return [c >= 0, c <= 0x10FFFF, z3.Or(c < 0xD800, c > 0xDFFF)] + [c != ord(x) for x in self.exclude]
    def rand(self, r):
        while True:
            c = r.choice(self.alphabet or SPECIAL_CHARS)
            if c not in self.exclude:
                return c


class Tup(Sort):
    def __init__(self, *sorts): self.sorts = sorts
    def sym(self, I, name): return tuple(s.sym(I, f"{name}.{i}") for i, s in enumerate(self.sorts))
    def rand(self, r): return tuple(s.rand(r) for s in self.sorts)
