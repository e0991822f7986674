"""C13: ordering of events, todos and timespans is one consistent total preorder"""
import datetime as _dt
from dateutil.tz import tzlocal
from specs.common import *

LOCALTIME = True
ASSUMPTIONS = ["datetimes range over the years 1901 to 9990",
               "compared times lie outside of repeated or skipped hours: within one zone (and for local times) the order of readings is the order of instants"]
KINDPAIRS = [(Timespan, Timespan), (EventTimespan, EventTimespan), (TodoTimespan, TodoTimespan)]
D = Opt(DT())
AWARE = Opt(DT(Tz(("utc", "zone"))))
MIXED = Opt(DT(Tz(("naive", "zone"))))
TDU = Opt(TD(lo=-DAYTD, hi=_dt.timedelta(days=3000)))
STAMP = _dt.datetime(2020, 1, 1, tzinfo=_dt.timezone.utc)
MISSING = _dt.datetime(1900, 1, 1)
LAST = wall(_dt.datetime(9998, 1, 1))


def regular(x):
    """not in a repeated or skipped hour"""
    if naive(x):
        y = x.astimezone(tzlocal())
        return both(wall(y) == wall(x), inst(x.replace(fold=0)) == inst(x.replace(fold=1)), inst(y.replace(fold=0)) == inst(y.replace(fold=1)))
    return inst(x.replace(fold=0)) == inst(x.replace(fold=1))


def consistent(x, y):
    """the readings of one zone are ordered like their instants"""
    if naive(x) or naive(y):
        return True
    if x.tzinfo is not y.tzinfo:
        return True
    return both(iff(wall(x) < wall(y), inst(x) < inst(y)), iff(wall(x) == wall(y), inst(x) == inst(y)))


def key(cls, ts):
    """(first, second): the two times a timespan is ordered by"""
    try:
        e = effective_end(cls, ts.begin_time, ts.end_time, ts.duration, ts.precision)
    except OverflowError:
        assume(False)
    if e is not None:
        assume(wall(e) < LAST)
    b = ts.begin_time if ts.begin_time is not None else MISSING
    e = e if e is not None else MISSING
    return (e, b) if issubclass(cls, TodoTimespan) else (b, e)


def before(k1, k2, s1, s2):
    """strictly before, lexicographically by instants, then summaries"""
    a1, b1 = inst(k1[0]), inst(k1[1])
    a2, b2 = inst(k2[0]), inst(k2[1])
    return either(a1 < a2, both(a1 == a2, b1 < b2), both(a1 == a2, b1 == b2, s1 < s2))


def assume_regular(k1, k2):
    for x in k1 + k2:
        assume(regular(x))
    for x in k1:
        for y in k2:
            assume(consistent(x, y))


def check_order(x, y, k1, k2, s1, s2):
    assume_regular(k1, k2)
    lt, gt = before(k1, k2, s1, s2), before(k2, k1, s2, s1)
    prove(iff(x < y, lt), "< is the order")
    prove(iff(x > y, gt), "> is the reverse order")
    prove(iff(x <= y, not gt), "<= is not >")
    prove(iff(x >= y, not lt), ">= is not <")


@lemma("C13", cases={"cls": KINDS}, b1=AWARE, e1=AWARE, d1=TDU, b2=AWARE, e2=AWARE, d2=TDU)
def aware_timespans_ordered(cls, b1, e1, d1, b2, e2, d2):
    x = make_timespan(cls, b1, e1, d1, "second")
    y = make_timespan(cls, b2, e2, d2, "second")
    check_order(x, y, key(cls, x), key(cls, y), "", "")


@lemma("C13", cases={"cls": KINDS}, b1=D, e1=D, d1=TDU, p1=PRECISION)
def ordered_by_key(cls, b1, e1, d1, p1):
    """what a timespan is ordered by"""
    x = make_timespan(cls, b1, e1, d1, p1)
    k = key(cls, x)
    c = x.cmp_tuple()
    prove(len(c) == 2, "two times")
    for i in (0, 1):
        prove(inst(c[i]) == inst(k[i]), "by the instants of begin and effective end (reversed for todos)")
        prove(not naive(c[i]), "local times count as times of the local zone")


@lemma("C13", cases={"cls": [Event, Todo]}, b1=D, e1=D, d1=TDU, p1=PRECISION, s1=Opt(Text()))
def entry_ordered_by_key(cls, b1, e1, d1, p1, s1):
    kind = EventTimespan if cls is Event else TodoTimespan
    ts = make_timespan(kind, b1, e1, d1, p1)
    x = cls(timespan=ts, uid="u", dtstamp=STAMP, summary=s1)
    k = key(kind, ts)
    c = x.cmp_tuple()
    prove(len(c) == 3, "two times and the summary")
    for i in (0, 1):
        prove(inst(c[i]) == inst(k[i]), "by the instants of begin and effective end (reversed for todos)")
        prove(not naive(c[i]), "local times count as times of the local zone")
    prove(c[2] == (s1 if s1 is not None else ""), "then by the summary")


@lemma("C13", cases={"cls": [Event, Todo]}, b1=AWARE, e1=AWARE, d1=TDU, s1=Opt(Text()), b2=DT(Tz(("utc", "zone"))), s2=Opt(Text()))
def entries_ordered(cls, b1, e1, d1, s1, b2, s2):
    kind = EventTimespan if cls is Event else TodoTimespan
    t1, t2 = make_timespan(kind, b1, e1, d1, "second"), make_timespan(kind, b2, None, None, "second")
    x = cls(timespan=t1, uid="u", dtstamp=STAMP, summary=s1)
    y = cls(timespan=t2, uid="v", dtstamp=STAMP, summary=s2)
    check_order(x, y, key(kind, t1), key(kind, t2), s1 if s1 is not None else "", s2 if s2 is not None else "")


@lemma("C13", mode="bounded", weight=2, cases={"cls": KINDS}, b1=D, e1=D, d1=TDU, p1=PRECISION, b2=D, e2=D, d2=TDU, p2=PRECISION)
def timespans_ordered(cls, b1, e1, d1, p1, b2, e2, d2, p2):
    x = make_timespan(cls, b1, e1, d1, p1)
    y = make_timespan(cls, b2, e2, d2, p2)
    check_order(x, y, key(cls, x), key(cls, y), "", "")


def _rand_spans(r):
    out = []
    for _ in range(r.randint(2, 5)):
        b = DT().rand(r) if r.random() < .8 else None
        k = r.random()
        e = d = None
        if k < .4 and b is not None:
            e = b + _dt.timedelta(seconds=r.choice([0, 1, 60, 3600, 86400, 90000]))
        elif k < .7 and b is not None:
            d = _dt.timedelta(seconds=r.choice([0, 1, 60, 3600, 86400, 90000]))
        elif b is None and k < .7:
            e = DT().rand(r)
        out.append((b, e, d, r.choice([None, "", "a", "b"])))
    return out


@lemma("C13", mode="bounded", cases={"cls": [Event, Todo]}, spans=Native(_rand_spans))
def sorting_entries(cls, spans):
    """bounded: lists of up to 5 entries"""
    kind = EventTimespan if cls is Event else TodoTimespan
    xs, ks = [], []
    for b, e, d, s in spans:
        t = make_timespan(kind, b, e, d, "second")
        xs.append(cls(timespan=t, uid="u", dtstamp=STAMP, summary=s))
        ks.append((key(kind, t), s or ""))
    for k1, s1 in ks:
        for k2, s2 in ks:
            assume_regular(k1, k2)
    for x, (k1, s1) in zip(xs, ks):
        for y, (k2, s2) in zip(xs, ks):
            lt, gt = before(k1, k2, s1, s2), before(k2, k1, s2, s1)
            prove(both(iff(x < y, lt), iff(x > y, gt), iff(x <= y, not gt), iff(x >= y, not lt)), "the operators implement the order")
    ys = sorted(xs)
    pos = {id(x): i for i, x in enumerate(xs)}
    idx = [pos[id(y)] for y in ys]
    for i, j in zip(idx, idx[1:]):
        prove(not before(ks[j][0], ks[i][0], ks[j][1], ks[i][1]), "sorting is by the order")
        prove(i < j or before(ks[i][0], ks[j][0], ks[i][1], ks[j][1]), "ties keep their order")


OPS = [lambda a, b: a < b, lambda a, b: a > b, lambda a, b: a <= b, lambda a, b: a >= b]


@lemma("C13", cases={"cls": [Timespan, EventTimespan, TodoTimespan, Event, Todo], "op": OPS}, b1=D, other=Choice(None, 1, "x", MISSING, (1, 2), SEC))
def unrelated_types_refused(cls, op, b1, other):
    x = cls(b1) if issubclass(cls, Timespan) else cls(begin=b1, uid="u", dtstamp=STAMP)
    for a, b in ((x, other), (other, x)):
        try:
            op(a, b)
        except TypeError:
            ok = True
        else:
            ok = False
        prove(ok, "comparing with unrelated types is refused")
