"""C14: interval predicates implement half-open interval semantics"""
import datetime as _dt
from dateutil.tz import tzlocal
from specs.common import *

LOCALTIME = True
ASSUMPTIONS = ["datetimes range over the years 1901 to 9990", "times are compared as Python compares datetimes (by wall clock within one zone object, by instant otherwise), naive ones after converting them to local time"]
D = Opt(DT())
AWARE = Opt(DT(Tz(("utc", "zone"))))
UTCDT = Opt(DT(Tz(("utc",))))
TDU = Opt(TD(lo=-DAYTD, hi=_dt.timedelta(days=3000)))
STAMP = _dt.datetime(2020, 1, 1, tzinfo=_dt.timezone.utc)
LAST = wall(_dt.datetime(9998, 1, 1))


def local(d):
    """naive readings are local times"""
    if d is None or not naive(d):
        return d
    return d.astimezone(tzlocal())


def bounds(cls, ts):
    try:
        e = effective_end(cls, ts.begin_time, ts.end_time, ts.duration, ts.precision)
    except OverflowError:
        assume(False)
    if e is not None:
        assume(wall(e) < LAST)
    return local(ts.begin_time), local(e)


def starts_within(b1, e1, b2, e2):
    return b2 <= b1 and b1 < e2


def ends_within(b1, e1, b2, e2):
    return b2 <= e1 and e1 < e2


def intersects(b1, e1, b2, e2):
    return starts_within(b1, e1, b2, e2) or starts_within(b2, e2, b1, e1)


def includes(b1, e1, b2, e2):
    return b1 <= b2 and e2 < e1


def is_included_in(b1, e1, b2, e2):
    return includes(b2, e2, b1, e1)


# predicate, what it needs of (begin, end, other begin, other end)
PREDICATES = [("starts_within", starts_within, (1, 0, 1, 1)), ("ends_within", ends_within, (0, 1, 1, 1)), ("intersects", intersects, (1, 1, 1, 1)),
              ("includes", includes, (1, 1, 1, 1)), ("is_included_in", is_included_in, (1, 1, 1, 1))]


def check(pred, x, y, kx, ky, tx, ty):
    name, spec, needs = pred
    b1, e1 = bounds(kx, tx)
    b2, e2 = bounds(ky, ty)
    missing = False
    for v, n in zip((b1, e1, b2, e2), needs):
        if n and v is None:
            missing = True
    try:
        r = getattr(x, name)(y)
    except ValueError:
        prove(missing, "only missing times are refused")
    else:
        prove(not missing, "missing times are refused")
        prove(iff(r, spec(b1, e1, b2, e2)), "half-open interval semantics")


@lemma("C14", cases={"pred": PREDICATES}, b1=AWARE, e1=AWARE, d1=TDU, b2=AWARE, e2=AWARE, d2=TDU)
def aware_spans(pred, b1, e1, d1, b2, e2, d2):
    x = make_timespan(Timespan, b1, e1, d1, "second")
    y = make_timespan(Timespan, b2, e2, d2, "second")
    check(pred, x, y, Timespan, Timespan, x, y)


@lemma("C14", cases={"pred": PREDICATES, "cls": [EventTimespan, TodoTimespan]}, b1=D, e1=D, p1=PRECISION, b2=D, d2=TDU)
def mixed_spans(pred, cls, b1, e1, p1, b2, d2):
    """local and aware times, all-day timespans, events and todos"""
    x = make_timespan(cls, b1, e1, None, p1)
    y = make_timespan(EventTimespan, b2, None, d2, "second")
    check(pred, x, y, cls, EventTimespan, x, y)


@lemma("C14", cases={"pred": PREDICATES, "cls": [Event, Todo]}, b1=D, e1=D, b2=DT(), d2=TDU)
def entries_like_timespans(pred, cls, b1, e1, b2, d2):
    kind = EventTimespan if cls is Event else TodoTimespan
    t1 = make_timespan(kind, b1, e1, None, "second")
    t2 = make_timespan(EventTimespan, b2, None, d2, "second")
    x = cls(timespan=t1, uid="u", dtstamp=STAMP)
    y = Event(timespan=t2, uid="u", dtstamp=STAMP)
    check(pred, x, y, kind, EventTimespan, t1, t2)
    prove(both(x.timespan is t1, y.timespan is t2), "nothing is modified")


@lemma("C14", mode="bounded", weight=2, cases={"pred": PREDICATES}, b1=D, e1=D, d1=TDU, p1=PRECISION, k1=Choice(Timespan, EventTimespan, TodoTimespan), b2=D, e2=D, d2=TDU, p2=PRECISION, k2=Choice(Timespan, EventTimespan, TodoTimespan))
def any_spans(pred, b1, e1, d1, p1, k1, b2, e2, d2, p2, k2):
    x = make_timespan(k1, b1, e1, d1, p1)
    y = make_timespan(k2, b2, e2, d2, p2)
    check(pred, x, y, k1, k2, x, y)
    if k1 is EventTimespan and k2 is not Timespan:
        xe = Event(timespan=x, uid="u", dtstamp=STAMP)
        ye = (Event if k2 is EventTimespan else Todo)(timespan=y, uid="u", dtstamp=STAMP)
        check(pred, xe, ye, k1, k2, x, y)
        check(pred, xe, y, k1, k2, x, y)
        prove(both(xe.timespan is x, ye.timespan is y, x.begin_time is b1, x.end_time is e1, x.duration is d1), "nothing is modified")


@lemma("C14", mode="bounded", b1=D, e1=D, d1=TDU, p1=PRECISION, b2=D, e2=D, d2=TDU, p2=PRECISION)
def intersection_is_symmetric(b1, e1, d1, p1, b2, e2, d2, p2):
    """follows from the semantics above"""
    x = make_timespan(Timespan, b1, e1, d1, p1)
    y = make_timespan(Timespan, b2, e2, d2, p2)
    try:
        r = x.intersects(y)
    except (ValueError, OverflowError):
        assume(False)
    prove(r == y.intersects(x), "intersects is symmetric")
    prove(x.is_included_in(y) == y.includes(x), "includes and is_included_in are converse")


@lemma("C14", cases={"cls": KINDS}, b1=D, e1=D, d1=TDU, p1=PRECISION, t=DT())
def includes_instant(cls, b1, e1, d1, p1, t):
    x = make_timespan(cls, b1, e1, d1, p1)
    b, e = bounds(cls, x)
    i = local(t)
    try:
        r = x.includes(t)
    except ValueError:
        prove(either(b is None, e is None), "only missing times are refused")
    else:
        prove(both(b is not None, e is not None), "missing times are refused")
        prove(iff(r, b <= i and i < e), "half-open interval semantics")


@lemma("C14", cases={"cls": [Event, Todo]}, b1=D, e1=D, d1=TDU, p1=PRECISION, t=DT())
def entry_includes_instant(cls, b1, e1, d1, p1, t):
    kind = EventTimespan if cls is Event else TodoTimespan
    ts = make_timespan(kind, b1, e1, d1, p1)
    x = cls(timespan=ts, uid="u", dtstamp=STAMP)
    b, e = bounds(kind, ts)
    i = local(t)
    try:
        r = x.includes(t)
    except ValueError:
        prove(either(b is None, e is None), "only missing times are refused")
    else:
        prove(both(b is not None, e is not None), "missing times are refused")
        prove(iff(r, b <= i and i < e), "half-open interval semantics")
    prove(x.timespan is ts, "nothing is modified")


@lemma("C14", cases={"cls": [Event, Todo]}, b1=UTCDT, d1=TDU, b2=UTCDT, d2=TDU)
def touching_does_not_intersect(cls, b1, d1, b2, d2):
    kind = EventTimespan if cls is Event else TodoTimespan
    x = make_timespan(kind, b1, None, d1, "second")
    y = make_timespan(kind, b2, None, d2, "second")
    b, e = bounds(kind, x)
    b2, e2 = bounds(kind, y)
    assume(b is not None and e is not None and b2 is not None and e2 is not None)
    assume(e == b2)
    prove(implies(d1 is not None and d1 > ZERO, not x.intersects(y)), "merely touching spans do not intersect")


def _near_transition(r):
    """instants and naive readings around one change of the clocks of the process' zone"""
    base = r.choice([_dt.datetime(2020, 11, 1, 1), _dt.datetime(2020, 3, 8, 2), _dt.datetime(2019, 10, 27, 2), _dt.datetime(2020, 4, 5, 2), _dt.datetime(2021, 11, 7, 1)])
    def near():
        return base + _dt.timedelta(minutes=r.choice([-90, -60, -30, 0, 0, 15, 30, 30, 45, 59, 60, 90]))
    def any_of():
        d = near().replace(fold=r.randrange(2))
        k = r.random()
        if k < .45:
            return d
        if k < .8:
            return d.astimezone(tzlocal()).astimezone(_dt.timezone.utc)
        return d.astimezone(tzlocal())
    b = any_of()
    e = any_of()
    return b, e, any_of(), near().replace(fold=r.randrange(2))


@lemma("C14", mode="bounded", weight=2, cases={"cls": KINDS}, x=Native(_near_transition))
def instants_when_clocks_change(cls, x):
    """repeated and skipped local readings"""
    b1, e1, t, u = x
    try:
        s = cls(b1, e1)
    except (ValueError, TypeError):
        assume(False)
    b, e = bounds(cls, s)
    for i in (t, u):
        prove(s.includes(i) == (b <= local(i) and local(i) < e), "half-open interval semantics")
