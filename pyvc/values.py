"""Symbolic values of the VC generator.

Concrete Python objects are represented by themselves; everything else is one of the classes below.
Integers are mathematical (Python ints are unbounded, so this is exact), datetimes are (wall microseconds, zone, fold).
"""
import datetime as _dt
import z3

DAY = 86400 * 10**6
MAXDAY = 3652058            # ordinal of date.max - 1, i.e. number of days after 0001-01-01
MAXWALL = (MAXDAY + 1) * DAY
TD_MAX_US = 999999999 * DAY + DAY - 1
TD_MIN_US = -999999999 * DAY


class Unsupported(Exception):
    """a construct or value the VC generator has no rule for: the obligation stays undischarged"""


class Sym:
    pytype = object


class SBool(Sym):
    pytype = bool
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __repr__(self): return f"SBool({self.e})"


class SInt(Sym):
    pytype = int
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __repr__(self): return f"SInt({self.e})"


class SReal(Sym):
    """a float with the exact value n/d (n: integer term, d: positive int); only produced by timedelta.total_seconds()
    and arithmetic on it. Floating point rounding is not modelled (exact for whole seconds in the range of timedelta)"""
    pytype = float
    __slots__ = ("n", "d")
    def __init__(self, n, d=1): self.n, self.d = n, d
    def __repr__(self): return f"SReal({self.n}/{self.d})"


class STz(Sym):
    """an arbitrary tzinfo object. ident: identity of the object, zone: which offset function it uses"""
    pytype = _dt.tzinfo
    __slots__ = ("ident", "zone", "kind")
    def __init__(self, ident, zone=None, kind="other"):
        self.ident = ident
        self.zone = ident if zone is None else zone
        self.kind = kind
    def __repr__(self): return f"STz({self.ident},{self.kind})"


class SDT(Sym):
    pytype = _dt.datetime
    __slots__ = ("wall", "tz", "fold", "_day", "_tod")
    def __init__(self, wall, tz, fold=0, day=None, tod=None):
        self.wall, self.tz, self.fold, self._day, self._tod = wall, tz, fold, day, tod
    @property
    def day(self):
        return self._day if self._day is not None else self.wall / DAY
    @property
    def tod(self):
        return self._tod if self._tod is not None else self.wall % DAY
    def __repr__(self): return f"SDT({self.wall},{self.tz},{self.fold})"


class SDate(Sym):
    pytype = _dt.date
    __slots__ = ("day",)
    def __init__(self, day): self.day = day
    def __repr__(self): return f"SDate({self.day})"


class STime(Sym):
    pytype = _dt.time
    __slots__ = ("tod", "tz", "fold")
    def __init__(self, tod, tz=None, fold=0): self.tod, self.tz, self.fold = tod, tz, fold
    def __repr__(self): return f"STime({self.tod},{self.tz})"


class STD(Sym):
    pytype = _dt.timedelta
    __slots__ = ("us",)
    def __init__(self, us): self.us = us
    def __repr__(self): return f"STD({self.us})"


class SChoice(Sym):
    """lazily decided alternative: [(guard, value)], the last guard is implied"""
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return f"SChoice({self.alts})"


class SObj(Sym):
    """instance of a Python class living on the symbolic heap"""
    __slots__ = ("cls", "attrs", "frozen", "origin", "stamp", "per")
    def __init__(self, cls, attrs=None, stamp=0):
        self.per = ()             # (prefixes of) the sequences each of whose elements has its own such object
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.origin = None
        self.stamp = stamp
    @property
    def pytype(self): return self.cls
    def __repr__(self): return f"<{self.cls.__name__} {self.attrs}>"


class SOpaque(Sym):
    """an unknown value of an uninterpreted sort, only comparable for equality / identity and usable as a payload"""
    __slots__ = ("e", "pytype", "truthy")
    def __init__(self, e, pytype=object, truthy=None):
        self.e, self.pytype, self.truthy = e, pytype, truthy
    def __repr__(self): return f"SOpaque({self.e}:{self.pytype.__name__})"


class SFunc(Sym):
    """function defined by interpreted code (def/lambda) with its closure"""
    pytype = type(lambda: 0)
    def __init__(self, node, env, glob, name, clsname=None, defaults=None, kwdefaults=None, fn=None):
        self.node, self.env, self.glob, self.name, self.clsname = node, env, glob, name, clsname
        self.defaults, self.kwdefaults, self.fn = defaults or [], kwdefaults or {}, fn
    def __repr__(self): return f"SFunc({self.name})"


class SBound(Sym):
    """bound method of a symbolic receiver"""
    pytype = type(values_dummy := [].append)
    def __init__(self, func, self_): self.func, self.self_ = func, self_
    def __repr__(self): return f"SBound({self.func},{self.self_})"


class SMethod(Sym):
    """modelled library method `name` of a symbolic or container receiver"""
    pytype = type([].append)
    def __init__(self, self_, name): self.self_, self.name = self_, name
    def __repr__(self): return f"SMethod({self.self_}.{self.name})"


class STypeOf(Sym):
    pass


def z(v):
    """z3 term of an int-like value"""
    if isinstance(v, (SInt, SBool)):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported(f"no z3 term for {type(v).__name__}")


def wall_of(d):
    """microseconds since 0001-01-01 of a concrete datetime (ignoring tz)"""
    delta = d.replace(tzinfo=None) - _dt.datetime(1, 1, 1)
    return (delta.days * 86400 + delta.seconds) * 10**6 + delta.microseconds


def td_us(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds
