"""C15: timeline queries are complete, exact and chronological"""
from specs.comps import *
from dateutil.tz import tzlocal
from ics.timeline import Timeline

NOTE = "iterating and all queries are proved for calendars of any number of events with any timespans, with and without normalization (except conversion to the local zone for single times: bounded); nested and repeated events, todays and tuples as arguments are bounded"
LOCALTIME = True
USES = ["spans"]
ASSUMPTIONS = ["no transitions of timezones among the times of the events and queries (comparing datetimes is not transitive there)",
               "heapq pops the items in an order in which no item is smaller than an earlier one", "datetimes range over the years 1910 to 9000 and durations up to 3000 days"]
DAYTD = dt.timedelta(days=1)
BERLIN = dateutil.tz.gettz("Europe/Berlin")
ZONES = [None, None, dt.timezone.utc, dt.timezone(5 * H), BERLIN]


def rand_time(r, tz="any"):
    d = dt.datetime(2020, 1, 13) + dt.timedelta(hours=r.choice([0, 0, 1, 6, 12, 23, 24, 30, 48, 71, r.randint(0, 96)]), seconds=r.choice([0, 0, 0, 59, 1800]), microseconds=r.choice([0, 0, 0, 1, 999999, 500000]))
    return d.replace(tzinfo=r.choice(ZONES) if tz == "any" else tz)


def rand_span_event(r, allday=True):
    k = r.random()
    s = r.choice([None, "", "a", "b"])
    if k < .12:
        return Event(s)
    if k < .3 and allday:
        e = Event(s, begin=dt.datetime(2020, 1, r.randint(13, 17)), **({"duration": DAYTD * r.choice([1, 2])} if r.random() < .5 else {}))
        e.make_all_day()
        return e
    b = rand_time(r)
    d = dt.timedelta(hours=r.choice([0, 0, 1, 5, 12, 24, 36, 72]), seconds=r.choice([0, 0, 1, 1800]))
    k = r.random()
    if k < .2:
        return Event(s, begin=b)
    if k < .6:
        return Event(s, begin=b, duration=d)
    e = b + d
    return Event(s, begin=b, end=e if b.tzinfo is None or r.random() < .7 else e.astimezone(r.choice([z for z in ZONES if z])))


def rand_events(r, allday=True):
    n = r.choice([0, 1, 2, 3, 5, 8, 12])
    ev = [rand_span_event(r, allday) for _ in range(n)]
    if ev and r.random() < .3:
        ev.append(r.choice(ev).clone())
    if ev and r.random() < .2:
        x = r.choice(ev).clone()
        x.convert_end(r.choice(["end", "duration", None]) if x.end_representation else None)
        ev.append(x)
    r.shuffle(ev)
    return ev


def rand_normalization(r):
    z = r.choice([None, dt.timezone.utc, BERLIN])
    a = [NormalizationAction.IGNORE, NormalizationAction.REPLACE, NormalizationAction.CONVERT]
    return Normalization(r.choice([z, lambda: dt.timezone.utc]) if z else z, r.choice(a), r.choice(a[1:] if z is None else a))


# ---------------------------------------------------------------- specification

def local(d):
    return d.astimezone(tzlocal()) if d is not None and d.tzinfo is None else d


def norm(n, d):
    """normalization of an instant"""
    if n is None or d is None:
        return d
    a = n.normalize_floating if d.tzinfo is None else n.normalize_with_tz
    z = n.replacement() if callable(n.replacement) else n.replacement
    return d if a == NormalizationAction.IGNORE else d.replace(tzinfo=z) if a == NormalizationAction.REPLACE else d.astimezone(z)


def effective_end(t):
    if t.end_time is not None:
        return t.end_time
    if t.begin_time is None:
        return None
    if t.duration is not None:
        return t.begin_time + t.duration
    return t.begin_time + (DAYTD if t.precision == "day" else dt.timedelta(0))


def span(n, t):
    """(begin, end) of a timespan, normalized and comparable"""
    b = norm(n, t.begin_time)
    e = b + t.duration if t.duration is not None else norm(n, t.end_time) if t.end_time is not None else effective_end(Timespan_like(b, t.precision))
    return local(b), local(e)


class Timespan_like:
    def __init__(self, b, p):
        self.begin_time, self.precision, self.end_time, self.duration = b, p, None, None


def intersects(b1, e1, b2, e2):
    return b2 <= b1 < e2 or b1 <= b2 < e1


def included(b1, e1, b2, e2):
    return b2 <= b1 and e1 < e2


def snapshot(cal):
    return [(id(e), e.timespan, e.summary, e.uid) for e in cal.events], [id(t) for t in cal.todos]


def same_objects(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check_order(n, cal, seq):
    spans = [span(n, e.timespan) for e in seq]
    prove(all(spans[i] <= spans[i + 1] for i in range(len(seq) - 1)), "chronological")
    want = [e for e in cal.events if e.timespan.begin_time is not None]
    prove(sorted(map(id, seq)) == sorted(map(id, want)), "every event with a begin exactly once")


def make(events, n):
    cal = Calendar(events=events)
    return cal, Timeline(cal, n) if n is not None else cal.timeline


NORM = Native(lambda r: rand_normalization(r) if r.random() < .4 else None)


def usable(cal, n):
    """all-day timespans cannot be normalized; times need to stay comparable"""
    if n is None:
        return True
    if any(e.all_day for e in cal.events):
        return False
    # replacing the zones of a begin and end in different zones may put the end before the begin
    return all(norm(n, e.begin) <= norm(n, e.end) for e in cal.events if e.begin is not None)


# ---------------------------------------------------------------- proved for calendars of any size
def ids(l):
    return [id(x) for x in l]


STAMP = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)
LONG = TD(lo=ZERO, hi=dt.timedelta(days=3000))
WHEN = DT(years=(1910, 9000))
EVENTS = ListOf(Tup(Span(EventTimespan, WHEN, WHEN, LONG), Opt(Text())))
NA = NormalizationAction
ACTIONS = [NA.IGNORE, NA.REPLACE, NA.CONVERT]
# (each action in each position)
SOME = [None, (NA.IGNORE, NA.REPLACE), (NA.CONVERT, NA.IGNORE), (NA.REPLACE, NA.CONVERT)]
MODES = [None] + [(a, b) for a in ACTIONS for b in ACTIONS]


def calendar_of(events):
    return Calendar(events=[Event(timespan=t, summary=s, uid="u", dtstamp=STAMP) for t, s in events])


def normalization_of(mode, tz):
    """(C12: a function that gives the replacement is the same as the replacement)"""
    return None if mode is None else Normalization(tz, *mode)


def timespan_for(n, t):
    """(what normalizing means is C12)"""
    return t if n is None else n.normalize(t)


def one_zone(mode, tz):
    """converting to the local zone makes a new timezone object every time"""
    return mode is None or NA.CONVERT not in mode or tz is not None


def normalizable(n, t):
    """all-day timespans can't be normalized, and the result has to be a timespan"""
    try:
        timespan_for(n, t)
    except ValueError:
        return False
    return True


def setting(events, mode, tz):
    cal = calendar_of(events)
    n = normalization_of(mode, tz)
    assume(all([normalizable(n, t) for t, s in events]))
    return cal, n, cal.timeline if n is None else Timeline(cal, n)


@lemma("C15", cases={"mode": MODES}, events=EVENTS, tz=Tz())
def every_event_once(mode, events, tz):
    cal, n, tl = setting(events, mode, tz)
    before = ids(cal.events)
    order = list(tl.iterator())
    with_begin = [(timespan_for(n, e.timespan), e) for e in cal.events if e.timespan.begin_time is not None]
    prove(sorted(ids([e for t, e in order])) == sorted(ids([e for t, e in with_begin])), "every event with a begin exactly once")
    prove(sorted_permutation(order, with_begin), "sorted by comparing timespans, then events")
    prove(ids(tl) == ids([e for t, e in order]), "iterating yields the events of the iterator")
    prove(ids(cal.events) == before, "the calendar is not modified")


@lemma("C15", cases={"query": ["included", "overlapping"], "mode": SOME}, events=EVENTS, tz=Tz(), q=Span(Timespan, WHEN, WHEN, LONG))
def span_query(query, mode, events, tz, q):
    assume(q.begin_time is not None and (q.end_time is not None or q.duration is not None))
    cal, n, tl = setting(events, mode, tz)
    assume(normalizable(n, q))
    before = ids(cal.events)
    order = list(tl.iterator())
    got = list(getattr(tl, query)(q))
    rel = "is_included_in" if query == "included" else "intersects"
    nq = timespan_for(n, q)
    prove(ids(got) == ids([e for t, e in order if span_relation(rel, t, nq)]), "exactly the matching events in order")
    prove(ids(cal.events) == before, "the calendar is not modified")


FORMS = [("times", None), ("dates", None), ("dates", (NA.REPLACE, NA.CONVERT)), ("event span", None), ("event span", (NA.REPLACE, NA.CONVERT))]


@lemma("C15", cases={"query": ["included", "overlapping"], "form": FORMS}, events=EVENTS, tz=Tz(), a=WHEN, b=WHEN, c=Date(), d=Date())
def query_arguments(query, form, events, tz, a, b, c, d):
    form, mode = form
    assume(one_zone(mode, tz) and naive(a) == naive(b))
    if form == "dates":
        assume(both(dt.date(1910, 1, 1) < c, c <= d, d < dt.date(9000, 1, 1)))
        a, b = dt.datetime(c.year, c.month, c.day), dt.datetime(d.year, d.month, d.day)
        args = (c, d)
    elif form == "times":
        args = (a, b)
    cal, n, tl = setting(events, mode, tz)
    try:
        q = EventTimespan(a) if form == "event span" else Timespan(a, b)
    except ValueError:
        q = None
    if form == "event span":
        args = (q,)
    if q is not None:
        assume(normalizable(n, q))
    try:
        got = list(getattr(tl, query)(*args))
    except ValueError:
        prove(q is None, "only what is no timespan is refused")
        return
    prove(q is not None, "what is no timespan is refused")
    nq = timespan_for(n, q)
    rel = "is_included_in" if query == "included" else "intersects"
    prove(ids(got) == ids([e for t, e in tl.iterator() if span_relation(rel, t, nq)]), "exactly the matching events in order")
query_arguments.optional_claims = True


@lemma("C15", cases={"query": ["included", "overlapping"]}, q=Span(Timespan, WHEN, WHEN, LONG), b=WHEN)
def no_additional_stop(query, q, b):
    tl = Calendar().timeline
    prove(raises(ValueError, lambda: list(getattr(tl, query)(q, b))), "timespan with additional stop is rejected")


@lemma("C15", cases={"query": ["at", "start_after"], "form": [("time", m) for m in SOME] + [("date", None), ("date", (NA.REPLACE, NA.REPLACE))]}, events=EVENTS, tz=Tz(), q=WHEN, d=Date())
def instant_query(query, form, events, tz, q, d):
    form, mode = form
    assume(one_zone(mode, tz))
    arg = q
    if form == "date":
        assume(both(dt.date(1910, 1, 1) < d, d < dt.date(9000, 1, 1)))
        arg, q = d, dt.datetime(d.year, d.month, d.day)
    cal, n, tl = setting(events, mode, tz)
    before = ids(cal.events)
    order = list(tl.iterator())
    i = q if n is None else n.normalize(q)
    if query == "at":
        got = list(tl.at(arg))
        prove(ids(got) == ids([e for t, e in order if span_relation("includes", t, i)]), "exactly the events that include the instant")
    else:
        got = list(tl.start_after(arg))
        i = local(i)
        prove(ids(got) == ids([e for t, e in order if local(t.begin_time) > i]), "exactly the events that begin later")
    prove(ids(cal.events) == before, "the calendar is not modified")
instant_query.optional_claims = True


@lemma("C15", cases={"strict": [False, True], "form": [("time", m) for m in SOME] + [("date", None), ("date", (NA.REPLACE, NA.REPLACE))]}, events=EVENTS, tz=Tz(), q=WHEN, d=Date())
def day_query(strict, form, events, tz, q, d):
    form, mode = form
    arg = q
    if form == "date":
        assume(both(dt.date(1910, 1, 1) < d, d < dt.date(9000, 1, 1)))
        arg, q = d, dt.datetime(d.year, d.month, d.day)
    assume(one_zone(mode, tz))
    cal, n, tl = setting(events, mode, tz)
    m = q.replace(hour=0, minute=0, second=0, microsecond=0, fold=0)
    q = Timespan(m, m + DAYTD)
    assume(normalizable(n, q))
    nq = timespan_for(n, q)
    got = list(tl.on(arg, strict=strict) if strict else tl.on(arg))
    prove(ids(got) == ids([e for t, e in tl.iterator() if span_relation("is_included_in" if strict else "intersects", t, nq)]), "exactly the events that are included in or intersect the day")


LAST = dt.datetime(9998, 1, 1)


def regular(x):
    """not in a repeated or skipped hour"""
    if naive(x):
        y = x.astimezone(tzlocal())
        return both(wall(y) == wall(x), inst(x.replace(fold=0)) == inst(x.replace(fold=1)), inst(y.replace(fold=0)) == inst(y.replace(fold=1)))
    return inst(x.replace(fold=0)) == inst(x.replace(fold=1))


def consistent(x, y):
    """the readings of one zone are ordered like their instants"""
    if naive(x) or naive(y):
        return True
    if x.tzinfo is not y.tzinfo:
        return True
    return both(iff(wall(x) < wall(y), inst(x) < inst(y)), iff(wall(x) == wall(y), inst(x) == inst(y)))


@lemma("C15", cases={"second": ["begin", "duration", "end"]}, b1=WHEN, d1=LONG, s1=Opt(Text()), b2=WHEN, d2=LONG, f2=WHEN, s2=Opt(Text()))
def sorted_is_chronological(second, b1, d1, s1, b2, d2, f2, s2):
    """two neighbours of the sorted pairs"""
    t1 = make_timespan(EventTimespan, b1, None, d1, "second")
    t2 = make_timespan(EventTimespan, b2, f2 if second == "end" else None, d2 if second == "duration" else None, "second")
    x = (t1, Event(timespan=t1, summary=s1, uid="u", dtstamp=STAMP))
    y = (t2, Event(timespan=t2, summary=s2, uid="v", dtstamp=STAMP))
    e1, e2 = b1 + d1, f2 if second == "end" else b2 + (d2 if second == "duration" else ZERO)
    for p in (b1, e1, b2, e2):
        assume(regular(p))
    for p in (b1, e1):
        for q in (b2, e2):
            assume(consistent(p, q))
    assume(not y < x)
    i1, j1, i2, j2 = inst(b1), inst(e1), inst(b2), inst(e2)
    prove(either(i1 < i2, both(i1 == i2, j1 < j2), both(i1 == i2, j1 == j2)), "by begin, then by end")


# ---------------------------------------------------------------- sampled
@lemma("C15", mode="bounded", events=Native(rand_events), n=NORM)
def iteration(events, n):
    cal, tl = make(events, n)
    if not usable(cal, n):
        return
    before = snapshot(cal)
    seq = list(tl)
    check_order(n, cal, seq)
    prove(same_objects(seq, list(tl)), "the same order every time")
    prove(same_objects(seq, [e for t, e in tl.iterator()]), "the iterator yields the same events")
    prove(snapshot(cal) == before, "the calendar is not modified")


@lemma("C15", mode="bounded", weight=2, events=Native(rand_events), n=NORM, seed=Native(lambda r: r.getrandbits(40)))
def span_queries(events, n, seed):
    import random
    r = random.Random(seed)
    cal, tl = make(events, n)
    if not usable(cal, n):
        return
    tz = r.choice(ZONES)
    a, b = sorted([rand_time(r, tz), rand_time(r, tz)])
    b = b.replace(microsecond=a.microsecond)   # timespans last whole seconds
    if b < a:
        a, b = b, a
    form = r.choice(["times", "dates", "span", "duration", "event"])
    if form == "dates":
        a, b = dt.datetime(a.year, a.month, a.day), dt.datetime(b.year, b.month, b.day)
        args = (a.date(), b.date())
    elif form == "times":
        args = (a, b)
    elif form == "span":
        args = (Timespan(a, b),)
    elif form == "duration":
        args = (Timespan(a, None, b - a),)
    else:
        args = (EventTimespan(a, b),)
    before = snapshot(cal)
    order = list(tl)
    qb, qe = local(norm(n, a)), local(norm(n, b))
    if form == "duration":
        qe = local(norm(n, a) + (b - a))
    prove(same_objects(list(tl.included(*args)), [e for e in order if included(*span(n, e.timespan), qb, qe)]), "included: exactly the included events")
    prove(same_objects(list(tl.overlapping(*args)), [e for e in order if intersects(*span(n, e.timespan), qb, qe)]), "overlapping: exactly the intersecting events")
    prove(snapshot(cal) == before, "the calendar is not modified")
    if len(args) == 1:
        for q in (tl.included, tl.overlapping):
            prove(raises(ValueError, lambda: list(q(args[0], b))), "timespan with additional stop is rejected")


@lemma("C15", mode="bounded", weight=2, events=Native(rand_events), n=NORM, q=Native(rand_time), form=Native(lambda r: r.choice(["dt", "tuple", "date"])))
def instant_queries(events, n, q, form):
    cal, tl = make(events, n)
    if not usable(cal, n):
        return
    arg = q
    if form == "date":
        arg = q.date()
        q = dt.datetime(q.year, q.month, q.day)
    elif form == "tuple" and q.tzinfo is None:
        arg = q.timetuple()[:6] + (q.microsecond,)
    before = snapshot(cal)
    order = list(tl)
    i = local(norm(n, q))
    prove(same_objects(list(tl.start_after(arg)), [e for e in order if span(n, e.timespan)[0] > i]), "start_after: exactly the events that begin later")
    prove(same_objects(list(tl.at(arg)), [e for e in order if span(n, e.timespan)[0] <= i < span(n, e.timespan)[1]]), "at: exactly the events that include the instant")
    if isinstance(arg, dt.date):
        m = q.replace(hour=0, minute=0, second=0, microsecond=0)
        qb, qe = local(norm(n, m)), local(norm(n, m + DAYTD))
        prove(same_objects(list(tl.on(arg)), [e for e in order if intersects(*span(n, e.timespan), qb, qe)]), "on: exactly the events that intersect the day")
        prove(same_objects(list(tl.on(arg, strict=True)), [e for e in order if included(*span(n, e.timespan), qb, qe)]), "on, strict: exactly the events included in the day")
    prove(snapshot(cal) == before, "the calendar is not modified")


@lemma("C15", mode="bounded", days=Native(lambda r: [(r.randint(-2, 2), r.choice([0, 1, 24, 48]), r.random() < .3) for _ in range(r.choice([1, 2, 4]))]))
def today_is_a_day(days):
    day = dt.date.today()
    events = []
    for o, h, whole in days:
        e = Event(begin=dt.datetime(day.year, day.month, day.day) + dt.timedelta(o), duration=H * h)
        if whole:
            e.make_all_day()
        events.append(e)
    cal = Calendar(events=events)
    got = [list(cal.timeline.today()), list(cal.timeline.today(strict=True))]
    want = [list(cal.timeline.on(day)), list(cal.timeline.on(day, strict=True))]
    if dt.date.today() != day:
        return
    prove(all(same_objects(a, b) for a, b in zip(got, want)), "today: the events of the current day")
