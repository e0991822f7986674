"""Model of datetime, date, time, timedelta and tzinfo (Python's documented semantics; trusted)."""
import datetime as _dt
import operator
import z3
from .values import *
from .engine import SRaise
from .strings import SStr, Dec, Ch, Atom, mkstr, chars_of

I_ = z3.IntSort()
OFF = z3.Function("tz.utcoffset", I_, I_, I_, I_)            # zone, wall, fold -> microseconds
FU_WALL = z3.Function("tz.fromutc.wall", I_, I_, I_)         # zone, utc -> wall
FU_FOLD = z3.Function("tz.fromutc.fold", I_, I_, I_)
CY = z3.Function("civil.year", I_, I_)
CM = z3.Function("civil.month", I_, I_)
CD = z3.Function("civil.day", I_, I_)
ORD = z3.Function("civil.ordinal", I_, I_, I_, I_)
CVALID = z3.Function("civil.valid", I_, I_, I_, z3.BoolSort())

SYSLOCAL = z3.Int("zone:system-local")      # zone used by naive.astimezone() and tzlocal()
UTCZONE = z3.Int("zone:utc")

_zones = {}       # id(concrete tzinfo) -> (obj, z3 ident, z3 zone)


def is_utc_object(tz):
    import dateutil.tz
    if tz is _dt.timezone.utc or isinstance(tz, dateutil.tz.tzutc):
        return True
    return type(tz).__module__.startswith("ics") and getattr(tz, "tzid", None) == "UTC"


def zone_term(I, tz):
    """(ident, zone) terms of a tzinfo value; asserts what is known about it"""
    if isinstance(tz, STz):
        return tz.ident, tz.zone
    if isinstance(tz, SObj):
        z = z3.Int(f"zone:obj{tz.stamp}")
        return z, z
    if isinstance(tz, SOpaque):
        i = z3.Function("Fixed.ident", I_, I_)(tz.e)
        I.e.add(i > 0)
        return i, z3.Function("Fixed.zone", I_, I_)(tz.e)
    r = _zones.get(id(tz))
    if r is None:
        n = len(_zones)
        r = _zones[id(tz)] = (tz, z3.Int(f"tzobj:{type(tz).__name__}{n}"), UTCZONE if is_utc_object(tz) else z3.Int(f"zone:{type(tz).__name__}{n}"), n)
    I.e.add(r[1] == -(r[3] + 10))       # concrete objects are pairwise distinct (negative identities)
    return r[1], r[2]


def fixed_offset(tz):
    """us, for fixed offsets"""
    if isinstance(tz, SOpaque) and tz.pytype is _dt.timezone:
        return z3.Function("Fixed.offset", I_, I_)(tz.e)
    if not isinstance(tz, Sym) and isinstance(tz, _dt.timezone):
        return z3.IntVal(td_us(tz.utcoffset(None)))
    return None


def offset(I, tz, wall, fold):
    o = fixed_offset(tz)
    if o is not None:
        return o
    ident, zone = zone_term(I, tz)
    if zone is UTCZONE:
        return z3.IntVal(0)
    o = OFF(zone, wall, zi(fold))
    I.e.add(z3.And(o > -DAY, o < DAY))
    return o


def zi(x):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SInt):
        return x.e
    return z3.IntVal(int(x))


def lift(I, v):
    """symbolic form of a concrete datetime value"""
    if isinstance(v, (SDT, SDate, STime, STD)):
        return v
    if isinstance(v, _dt.datetime):
        return SDT(z3.IntVal(wall_of(v)), v.tzinfo, v.fold)
    if isinstance(v, _dt.date):
        return SDate(z3.IntVal(v.toordinal() - 1))
    if isinstance(v, _dt.time):
        return STime(z3.IntVal(td_us(_dt.datetime.combine(_dt.date.min, v.replace(tzinfo=None)) - _dt.datetime.min)), v.tzinfo, v.fold)
    if isinstance(v, _dt.timedelta):
        return STD(z3.IntVal(td_us(v)))
    raise Unsupported(f"not a datetime value: {v!r}")


DTC = (_dt.date, _dt.time, _dt.timedelta, SDT, SDate, STime, STD)


def tz_of(I, d):
    tz = I.resolve(d.tz)
    if tz is not d.tz:
        d.tz = d.tz  # (choices stay lazy: the decision is per path)
    return tz


def same_tz(I, a, b):
    """same tzinfo object? python bool (forks)"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (STz, SOpaque)) or isinstance(b, (STz, SOpaque)):
        ia, _ = zone_term(I, a)
        ib, _ = zone_term(I, b)
        return I.e.decide(ia == ib)
    return False


def instant(I, d):
    """UTC microseconds of an aware datetime"""
    return d.wall - offset(I, tz_of(I, d), d.wall, d.fold)


def fold_matters(I, d):
    tz = tz_of(I, d)
    return offset(I, tz, d.wall, 0) != offset(I, tz, d.wall, 1)


def compare_dt(I, op, a, b):
    """op in Eq, Lt, LtE, Gt, GtE"""
    ta, tb = tz_of(I, a), tz_of(I, b)
    if ta is None or tb is None:
        if ta is None and tb is None:
            return rel(op, a.wall, b.wall)
        if op == "Eq":
            return False
        raise SRaise(TypeError("can't compare offset-naive and offset-aware datetimes"))
    if same_tz(I, ta, tb):
        return rel(op, a.wall, b.wall)
    if op == "Eq":
        return mkbool(z3.And(instant(I, a) == instant(I, b), z3.Not(fold_matters(I, a)), z3.Not(fold_matters(I, b))))
    return rel(op, instant(I, a), instant(I, b))


def mkbool(f):
    if isinstance(f, bool):
        return f
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SBool(f)


def rel(op, x, y):
    f = {"Eq": operator.eq, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op](x, y)
    return mkbool(f)


def compare(I, op, a, b):
    a, b = lift(I, a), lift(I, b)
    if isinstance(a, SDT) and isinstance(b, SDT):
        return compare_dt(I, op, a, b)
    if isinstance(a, SDate) and isinstance(b, SDate):
        return rel(op, a.day, b.day)
    if isinstance(a, STD) and isinstance(b, STD):
        return rel(op, a.us, b.us)
    if isinstance(a, STime) and isinstance(b, STime):
        if tz_of(I, a) is None and tz_of(I, b) is None:
            return rel(op, a.tod, b.tod)
        if op == "Eq" and (tz_of(I, a) is None) != (tz_of(I, b) is None):
            return False
        if same_tz(I, tz_of(I, a), tz_of(I, b)):
            return rel(op, a.tod, b.tod)
        raise Unsupported("comparison of aware times")
    if op == "Eq":
        return False
    raise SRaise(TypeError(f"can't compare {a.pytype.__name__} to {b.pytype.__name__}"))


def mk_td(I, us):
    """timedelta result with overflow check"""
    if I.e.decide(z3.And(us >= TD_MIN_US, us <= TD_MAX_US)):
        return STD(us)
    raise SRaise(OverflowError("days out of range"))


def mk_dt(I, wall, tz, fold=0, day=None, tod=None):
    if I.e.decide(z3.And(wall >= 0, wall < MAXWALL)):
        return SDT(wall, tz, fold, day, tod)
    raise SRaise(OverflowError("date value out of range"))


def binop(I, op, a, b):
    """arithmetic on datetimes; returns NotImplemented if not applicable"""
    isd = isinstance
    if isd(a, DTC):
        a = lift(I, a)
    if isd(b, DTC):
        b = lift(I, b)
    if isd(a, SDT):
        if isd(b, STD) and op in ("Add", "Sub"):
            w = a.wall + b.us if op == "Add" else a.wall - b.us
            day = tod = None
            us = z3.simplify(b.us)
            if z3.is_int_value(us) and us.as_long() % DAY == 0 and a._day is not None:
                k = us.as_long() // DAY
                day, tod = (a._day + k if op == "Add" else a._day - k), a._tod
            return mk_dt(I, w, a.tz, 0, day, tod)
        if isd(b, SDT) and op == "Sub":
            ta, tb = tz_of(I, a), tz_of(I, b)
            if (ta is None) != (tb is None):
                raise SRaise(TypeError("can't subtract offset-naive and offset-aware datetimes"))
            if ta is None or same_tz(I, ta, tb):
                return STD(a.wall - b.wall)
            return STD(instant(I, a) - instant(I, b))
    elif isd(a, SDate):
        if isd(b, STD) and op in ("Add", "Sub"):
            n = fdiv(b.us, DAY)
            d = a.day + n if op == "Add" else a.day - n
            if I.e.decide(z3.And(d >= 0, d <= MAXDAY)):
                return SDate(d)
            raise SRaise(OverflowError("date value out of range"))
        if isd(b, SDate) and op == "Sub":
            return STD((a.day - b.day) * DAY)
    elif isd(a, STD):
        if isd(b, STD):
            if op == "Add": return mk_td(I, a.us + b.us)
            if op == "Sub": return mk_td(I, a.us - b.us)
            if op in ("Mod", "FloorDiv", "Div"):
                if I.e.decide(b.us == 0):
                    raise SRaise(ZeroDivisionError("integer modulo by zero"))
                s = z3.simplify(b.us)
                if not z3.is_int_value(s):
                    raise Unsupported("division by a symbolic timedelta")
                k = s.as_long()
                if op == "Mod":
                    return STD(pymod(a.us, k))
                if op == "FloorDiv":
                    return SInt(pyfloordiv(a.us, k))
                return SReal(a.us, k) if k > 0 else SReal(-a.us, -k)
        elif isd(b, (SDT,)) and op == "Add":
            return binop(I, "Add", b, a)
        elif isd(b, (int, SInt)) and not isd(b, bool):
            from .values import z as zz
            if op == "Mult":
                x = z3.simplify(zz(b))
                if z3.is_int_value(x) or z3.is_int_value(z3.simplify(a.us)):
                    return mk_td(I, a.us * x)
                raise Unsupported("nonlinear multiplication")
            if op == "FloorDiv" and isd(b, int) and b != 0:
                return STD(pyfloordiv(a.us, b))
            if op == "Div" and isd(b, int) and b != 0:
                raise Unsupported("timedelta true division")
    elif isd(b, STD) and isd(a, (int, SInt)) and op == "Mult":
        return binop(I, op, b, a)
    return NotImplemented


def linear_form(x):
    """x as a linear combination: ({id: [atom, coefficient]}, constant); x mod k is x - k * (x div k)"""
    terms, const = {}, 0
    todo = [(x, 1)]
    while todo:
        e, c = todo.pop()
        if z3.is_int_value(e):
            const += c * e.as_long()
            continue
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            todo += [(a, c) for a in e.children()]
        elif k == z3.Z3_OP_SUB:
            ch = e.children()
            todo.append((ch[0], c))
            todo += [(a, -c) for a in ch[1:]]
        elif k == z3.Z3_OP_UMINUS:
            todo.append((e.arg(0), -c))
        elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            todo.append((e.arg(1), c * e.arg(0).as_long()))
        elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
            todo.append((e.arg(0), c * e.arg(1).as_long()))
        elif k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            m = e.arg(1).as_long()
            todo.append((e.arg(0), c))
            todo.append((fdiv(e.arg(0), m), -c * m))
        elif k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            d = fdiv(e.arg(0), e.arg(1).as_long())
            if d.eq(e):
                t = terms.setdefault(e.get_id(), [e, 0])
                t[1] += c
            else:
                todo.append((d, c))
        else:
            t = terms.setdefault(e.get_id(), [e, 0])
            t[1] += c
    return {i: t for i, t in terms.items() if t[1]}, const


def _sum(terms, const):
    l = [a if c == 1 else z3.IntVal(c) * a for a, c in sorted(terms, key=lambda t: t[0].get_id())]
    if const or not l:
        l.append(z3.IntVal(const))
    return l[0] if len(l) == 1 else z3.Sum(l)


_FDIV = {}


def fdiv(x, k):
    """floor division by a positive constant, normalized: multiples of k are taken out, common factors cancelled and
    nested divisions merged, so that equal quotients tend to be equal terms"""
    key = (x.get_id(), k)
    if key in _FDIV:
        return _FDIV[key][1]
    terms, const = linear_form(x)
    import math
    x0, k0 = x, k
    while True:
        g = k
        for a, c in terms.values():
            g = math.gcd(g, c)
        if g > 1:
            terms = {i: [a, c // g] for i, (a, c) in terms.items()}
            const //= g
            k //= g
        out = [(a, c // k) for a, c in terms.values() if c % k == 0]
        rest = {i: t for i, t in terms.items() if t[1] % k}
        q, const = const // k, const % k
        if not rest:
            r = _sum(out, q)
            break
        if len(rest) == 1:
            (a, c), = rest.values()
            if c == 1 and a.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
                m = a.arg(1).as_long()
                r = _sum(out + [(fdiv(a.arg(0) + m * const if const else a.arg(0), m * k), 1)], q)
                break
        d = _sum([tuple(t) for t in rest.values()], const) / z3.IntVal(k)
        r = d if not out and not q else _sum(out + [(d, 1)], q)
        break
    _FDIV[key] = (x0, r)     # keeps x0 alive, so that its id stays unique
    return r


def fmod(x, k):
    return z3.simplify(x - z3.IntVal(k) * fdiv(x, k))


def pyfloordiv(x, k):
    """floor division by a non-zero constant (z3's div is floor for positive divisors)"""
    if k > 0:
        return fdiv(x, k)
    return fdiv(-x, -k)


def pymod(x, k):
    if k > 0:
        return fmod(x, k)
    return -fmod(-x, -k)


# ---------------------------------------------------------------- attributes and methods
def civil(I, day):
    y, m, d = CY(day), CM(day), CD(day)
    I.e.add(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 31, ORD(y, m, d) == day, CVALID(y, m, d)))
    return y, m, d


def tod_field(tod, name):
    if name == "hour": return fdiv(tod, 3600000000)
    if name == "minute": return fmod(fdiv(tod, 60000000), 60)
    if name == "second": return fmod(fdiv(tod, 1000000), 60)
    return fmod(tod, 1000000)


def sint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)


def getattr_(I, v, name):
    """attribute of a symbolic datetime value; None if it is a method or unknown"""
    if isinstance(v, (SDT, SDate)) and name in ("year", "month", "day"):
        y, m, d = civil(I, v.day)
        return sint({"year": y, "month": m, "day": d}[name])
    if isinstance(v, (SDT, STime)):
        if name == "tzinfo":
            return tz_of(I, v)
        if name == "fold":
            return sint(v.fold) if isinstance(v.fold, z3.ExprRef) else v.fold
        if name in ("hour", "minute", "second", "microsecond"):
            return sint(tod_field(v.tod, name))
    if isinstance(v, STD):
        if name == "days": return sint(fdiv(v.us, DAY))
        if name == "seconds": return sint(fdiv(fmod(v.us, DAY), 1000000))
        if name == "microseconds": return sint(fmod(v.us, 1000000))
    return None


def cur_local(I):
    """what tzlocal() returns: a new object with the system's local zone"""
    ident = I.e.fresh_int("tzlocal")
    I.e.add(ident > 0)
    for other in I.e.store.get("tzlocals", []):
        I.e.add(ident != other)
    I.e.set_store("tzlocals", I.e.store.get("tzlocals", []) + [ident])
    for other in I.e.store.get("tzargs", []):
        I.e.add(ident != other)
    return STz(ident, SYSLOCAL, "tzlocal")


def astimezone(I, d, tz):
    own = tz_of(I, d)
    if tz is None:
        # a fixed offset timezone with the system's local offset at that instant
        if own is None:
            off = sys_offset(I, d.wall, d.fold)
            utc = d.wall - off
        else:
            utc = instant(I, d)
        w, f = from_utc(I, SYSLOCAL, utc)
        ident = I.e.fresh_int("tzfixed")
        I.e.add(ident > 0)
        z = STz(ident, I.e.fresh_int("zone:fixed"), "fixed")
        I.e.add(OFF(z.zone, w, 0) == w - utc)
        return SDT(w, z, 0)
    if own is None:
        utc = d.wall - sys_offset(I, d.wall, d.fold)
    else:
        if same_tz(I, own, tz):
            return d
        utc = instant(I, d)
    if not I.e.decide(z3.And(utc >= 0, utc < MAXWALL)):
        raise SRaise(OverflowError("date value out of range"))
    ident, zone = zone_term(I, tz)
    if zone is UTCZONE:
        return SDT(utc, tz, 0)
    o = fixed_offset(tz)
    if o is not None:
        if not I.e.decide(z3.And(utc + o >= 0, utc + o < MAXWALL)):
            raise SRaise(OverflowError("date value out of range"))
        return SDT(utc + o, tz, 0)
    w, f = from_utc(I, zone, utc)
    return SDT(w, tz, f)


def sys_offset(I, wall, fold):
    o = OFF(SYSLOCAL, wall, zi(fold))
    I.e.add(z3.And(o > -DAY, o < DAY))
    return o


def from_utc(I, zone, utc):
    """trusted tzinfo.fromutc: preserves the instant"""
    w, f = FU_WALL(zone, utc), FU_FOLD(zone, utc)
    o = OFF(zone, w, f)
    I.e.add(z3.And(o > -DAY, o < DAY, w - o == utc, f >= 0, f <= 1))
    if not I.e.decide(z3.And(w >= 0, w < MAXWALL)):
        raise SRaise(OverflowError("date value out of range"))
    return w, f


def combine(I, d, t, tz=...):
    d, t = lift(I, d), lift(I, t)
    day = d.day
    if tz is ...:
        tz = t.tz
    return SDT(day * DAY + t.tod, tz, t.fold, day, t.tod)


TIME_FIELDS = ("hour", "minute", "second", "microsecond")


def method(I, v, name, args, kw):
    if isinstance(v, SDT):
        if name == "replace":
            return dt_replace(I, v, args, kw)
        if name == "astimezone":
            tz = args[0] if args else kw.get("tz")
            return astimezone(I, v, I.resolve(tz))
        if name == "date": return SDate(v.day)
        if name == "time": return STime(v.tod, None, v.fold)
        if name == "timetz": return STime(v.tod, v.tz, v.fold)
        if name == "utcoffset":
            tz = tz_of(I, v)
            return None if tz is None else STD(offset(I, tz, v.wall, v.fold))
        if name == "toordinal": return sint(v.day + 1)
        if name == "weekday": return sint(v.day % 7)
        if name == "isoweekday": return sint(v.day % 7 + 1)
        if name == "timestamp":
            tz = tz_of(I, v)
            epoch = wall_of(_dt.datetime(1970, 1, 1))
            if tz is None:
                return SReal(v.wall - sys_offset(I, v.wall, v.fold) - epoch, 1000000)
            return SReal(instant(I, v) - epoch, 1000000)
        if name == "strftime": return strftime(I, v, args[0])
        if name in ("isoformat", "__str__", "ctime"): return opaque_str(I, "isoformat")
        if name == "__format__":
            return opaque_str(I, "isoformat")
    if isinstance(v, SDate):
        if name == "strftime": return strftime(I, v, args[0])
        if name in ("isoformat", "__str__", "__format__"): return opaque_str(I, "isoformat")
        if name == "toordinal": return sint(v.day + 1)
        if name == "weekday": return sint(v.day % 7)
        if name == "replace" and not args and not kw: return v
    if isinstance(v, STime):
        if name == "strftime": return strftime(I, v, args[0])
        if name == "replace":
            return time_replace(I, v, args, kw)
        if name in ("isoformat", "__str__", "__format__"): return opaque_str(I, "isoformat")
        if name == "utcoffset" and tz_of(I, v) is None: return None
    if isinstance(v, STD):
        if name == "total_seconds": return SReal(v.us, 1000000)
        if name in ("__str__", "__format__"): return opaque_str(I, "timedelta")
    if name == "__hash__":
        raise Unsupported("hash of a symbolic value")
    if name in ("__eq__", "__lt__", "__le__", "__gt__", "__ge__"):
        return compare(I, {"__eq__": "Eq", "__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE"}[name], v, args[0])
    raise Unsupported(f"method {v.pytype.__name__}.{name}")


def opaque_str(I, what):
    return SStr([Atom(I.e.fresh_int("text:" + what))])


def new_tod(I, v, kw):
    fields = {n: tod_field(v.tod, n) for n in TIME_FIELDS}
    lim = {"hour": 24, "minute": 60, "second": 60, "microsecond": 1000000}
    for n in TIME_FIELDS:
        if n in kw:
            x = I.resolve(kw[n])
            if isinstance(x, int):
                if not 0 <= x < lim[n]:
                    raise SRaise(ValueError(f"{n} out of range"))
                fields[n] = z3.IntVal(x)
            elif isinstance(x, SInt):
                if not I.e.decide(z3.And(x.e >= 0, x.e < lim[n])):
                    raise SRaise(ValueError(f"{n} out of range"))
                fields[n] = x.e
            else:
                raise SRaise(TypeError("an integer is required"))
    return z3.simplify(fields["hour"] * 3600000000 + fields["minute"] * 60000000 + fields["second"] * 1000000 + fields["microsecond"])


def check_tz(I, tz):
    tz = I.resolve(tz)
    if tz is not None and not I.isinstance(tz, _dt.tzinfo):
        raise SRaise(TypeError("tzinfo argument must be None or of a tzinfo subclass"))
    return tz


def dt_replace(I, v, args, kw):
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
    kw = dict(zip(names, args)) | kw
    tz = check_tz(I, kw["tzinfo"]) if "tzinfo" in kw else v.tz
    fold = kw.get("fold", v.fold)
    if isinstance(fold, SInt): fold = fold.e
    day, tod = v.day, v.tod
    if any(n in kw for n in ("year", "month", "day")):
        y, m, d = civil(I, v.day)
        y, m, d = (zi(kw.get(n, c)) for n, c in zip(("year", "month", "day"), (y, m, d)))
        day = date_from(I, y, m, d)
    if any(n in kw for n in TIME_FIELDS):
        if all(n in kw and isinstance(I.resolve(kw[n]), int) for n in TIME_FIELDS):
            tod = new_tod(I, STime(z3.IntVal(0)), kw)
        elif "microsecond" in kw and I.resolve(kw["microsecond"]) == 0 and not any(n in kw for n in TIME_FIELDS[:3]):
            tod = fdiv(tod, 1000000) * 1000000
        else:
            tod = new_tod(I, v, kw)
    elif not any(n in kw for n in ("year", "month", "day")):
        return SDT(v.wall, tz, fold, v._day, v._tod)
    return SDT(day * DAY + tod, tz, fold, day, tod)


def time_replace(I, v, args, kw):
    names = ("hour", "minute", "second", "microsecond", "tzinfo")
    kw = dict(zip(names, args)) | kw
    tz = check_tz(I, kw["tzinfo"]) if "tzinfo" in kw else v.tz
    tod = new_tod(I, v, kw) if any(n in kw for n in TIME_FIELDS) else v.tod
    fold = kw.get("fold", v.fold)
    return STime(tod, tz, fold)


def date_from(I, y, m, d):
    """ordinal of a civil date, ValueError if there is no such date"""
    ok = CVALID(y, m, d)
    o = ORD(y, m, d)
    I.e.add(z3.Implies(ok, z3.And(o >= 0, o <= MAXDAY, CY(o) == y, CM(o) == m, CD(o) == d, y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 31)))
    I.e.add(z3.Implies(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 28), ok))
    if not I.e.decide(ok):
        raise SRaise(ValueError("day is out of range for month"))
    return o


# ---------------------------------------------------------------- strftime / strptime
def strftime(I, v, fmt):
    parts = fmt.parts if isinstance(fmt, SStr) else ([fmt] if fmt else [])
    out = []
    pend = False
    for p in parts:
        if isinstance(p, (Dec, Ch)):
            if pend:
                raise Unsupported("computed strftime directive")
            if isinstance(p, Ch) and not I.e.entails(p.e != ord("%")):
                raise Unsupported("computed strftime format")
            out.append(p)
            continue
        if not isinstance(p, str):
            raise Unsupported("computed strftime format")
        i = 0
        while i < len(p):
            c = p[i]
            if c != "%":
                out.append(c); i += 1
                continue
            if i + 1 >= len(p):
                raise Unsupported("strftime format ends with %")
            out.append(directive(I, v, p[i + 1])); i += 2
    return mkstr(out)


def directive(I, v, c):
    if c == "%":
        return "%"
    if isinstance(v, STime) and c in "Ymd":
        return {"Y": "1900", "m": "01", "d": "01"}[c]
    if c in "Ymd":
        y, m, d = civil(I, v.day)
        if c == "Y":
            # glibc does not pad years to four digits
            return Dec(y, None)
        return Dec(m if c == "m" else d, 2)
    if isinstance(v, SDate):
        if c in "HMS":
            return "00"
        raise Unsupported(f"strftime %{c}")
    if c == "H": return Dec(tod_field(v.tod, "hour"), 2)
    if c == "M": return Dec(tod_field(v.tod, "minute"), 2)
    if c == "S": return Dec(tod_field(v.tod, "second"), 2)
    raise Unsupported(f"strftime %{c}")


def number_of(I, chars):
    """value of digit characters and the condition that all of them are ASCII digits"""
    val = z3.IntVal(0)
    conds = []
    for c in chars:
        if isinstance(c, str):
            if not ("0" <= c <= "9"):
                return None, False
            val = val * 10 + int(c)
        else:
            conds.append(z3.And(c.e >= 48, c.e <= 57))
            val = val * 10 + (c.e - 48)
    return z3.simplify(val), (z3.And(conds) if conds else True)


def strptime(I, s, fmt):
    """datetime.strptime for fixed-width formats built of %Y %m %d %H %M %S and literals"""
    if not isinstance(fmt, str):
        raise Unsupported("computed strptime format")
    # fast path: the text consists of numbers aligned with the directives
    items = [p for p in (s.parts if isinstance(s, SStr) else [s])]
    widths = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2}
    vals = {"Y": z3.IntVal(1900), "m": z3.IntVal(1), "d": z3.IntVal(1), "H": z3.IntVal(0), "M": z3.IntVal(0), "S": z3.IntVal(0)}
    i = 0
    pos = list(items)
    bad = lambda: SRaise(ValueError("time data does not match format"))
    while i < len(fmt):
        c = fmt[i]
        if c == "%":
            k = fmt[i + 1]; i += 2
            w = widths.get(k)
            if w is None:
                raise Unsupported(f"strptime %{k}")
            if pos and isinstance(pos[0], Dec) and pos[0].width == w:
                vals[k] = pos.pop(0).e
                continue
            chars = take_chars(I, pos, w)
            if chars is None:
                raise Unsupported("strptime of a text that is shorter than the format")
            val, ok = number_of(I, chars)
            if ok is False or not I.e.decide(ok):
                # (non-digits might still match shorter numbers, which then can't match the fixed total length ...)
                raise Unsupported("strptime of non-digits")
            vals[k] = val
            continue
        i += 1
        chars = take_chars(I, pos, 1)
        if chars is None:
            raise bad()
        x = chars[0]
        if isinstance(x, str):
            if x.lower() != c.lower():
                raise bad()
        elif not I.e.decide(z3.Or(x.e == ord(c.lower()), x.e == ord(c.upper()))):
            raise bad()
    if pos:
        raise bad()
    for k, lo, hi in (("Y", 1, 9999), ("m", 1, 12), ("d", 1, 31), ("H", 0, 23), ("M", 0, 59), ("S", 0, 61)):
        if not I.e.decide(z3.And(vals[k] >= lo, vals[k] <= hi)):
            raise bad()
    if not I.e.decide(vals["S"] <= 59):
        raise Unsupported("leap seconds in strptime")
    day = date_from(I, vals["Y"], vals["m"], vals["d"])
    tod = vals["H"] * 3600000000 + vals["M"] * 60000000 + vals["S"] * 1000000
    return SDT(day * DAY + tod, None, 0, day, tod)


def take_chars(I, pos, n):
    from .strings import expand_dec
    out = []
    while len(out) < n:
        if not pos:
            return None
        p = pos[0]
        if isinstance(p, str):
            k = n - len(out)
            out.extend(p[:k])
            if len(p) > k:
                pos[0] = p[k:]
            else:
                pos.pop(0)
        elif isinstance(p, Ch):
            out.append(p); pos.pop(0)
        elif isinstance(p, Dec):
            pos[0:1] = expand_dec(I, p)
        else:
            return None
    return out


# ---------------------------------------------------------------- constructors
def new_timedelta(I, args, kw):
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    unit = {"days": DAY, "seconds": 10**6, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * 10**6, "hours": 3600 * 10**6, "weeks": 7 * DAY}
    vals = dict(zip(names, args))
    for k, v in kw.items():
        if k not in unit or k in vals:
            raise SRaise(TypeError(f"unexpected argument {k}"))
        vals[k] = v
    us = z3.IntVal(0)
    for k, v in vals.items():
        v = I.resolve(v)
        if isinstance(v, SReal):
            if v.d == 1:
                us = us + v.n * unit[k]
            elif unit[k] % v.d == 0:
                us = us + v.n * (unit[k] // v.d)
            else:
                raise Unsupported("timedelta of a fraction")
        elif isinstance(v, (int, SInt)):
            us = us + z(v if not isinstance(v, bool) else int(v)) * unit[k]
        elif isinstance(v, float):
            us = us + td_us(_dt.timedelta(**{k: v}))
        else:
            raise SRaise(TypeError("unsupported type for timedelta component"))
    return mk_td(I, us)


def new_datetime(I, args, kw):
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
    vals = dict(zip(names, args)) | kw
    for n in names[:3]:
        if n not in vals:
            raise SRaise(TypeError("function missing required argument"))
    tz = check_tz(I, vals.get("tzinfo"))
    if all(isinstance(I.resolve(vals[n]), int) for n in names[:3]):
        try:
            day = z3.IntVal(_dt.date(*[I.resolve(vals[n]) for n in names[:3]]).toordinal() - 1)
        except Exception as e:
            raise SRaise(e)
    else:
        day = date_from(I, *[zi(I.resolve(vals[n])) for n in names[:3]])
    tod = new_tod(I, STime(z3.IntVal(0)), {k: v for k, v in vals.items() if k in TIME_FIELDS})
    return SDT(day * DAY + tod, tz, vals.get("fold", 0), day, tod)
