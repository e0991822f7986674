"""C12: timezone replacement keeps wall clocks, conversion keeps instants"""
import datetime as _dt
from specs.common import *
from ics.icalendar import Calendar

LOCALTIME = True
ASSUMPTIONS = ["datetimes range over the years 1901 to 9990"]
NA = NormalizationAction
D = Opt(DT())
TDU = Opt(TD())
STAMP = _dt.datetime(2020, 1, 1, tzinfo=_dt.timezone.utc)
SETTINGS = Choice(NA.IGNORE, NA.REPLACE, NA.CONVERT, True, False)

SETTINGS3 = Choice(NA.IGNORE, NA.REPLACE, NA.CONVERT)


def entry_of(cls, ts):
    return cls(timespan=ts, uid="u", dtstamp=STAMP)


def in_zone(d, tz):
    """expressed in the zone tz; None is the local zone, as for datetime.astimezone"""
    return not naive(d) if tz is None else d.tzinfo is tz


def replaced(old, new, tz):
    if old is None:
        return new is None
    return both(wall(new) == wall(old), new.tzinfo is tz, new.fold == old.fold)


def converted(old, new, tz):
    if old is None:
        return new is None
    return both(inst(new) == inst(old), in_zone(new, tz))


def is_floating(begin, end):
    return naive(begin) if begin is not None else end is None or naive(end)


@lemma("C12", cases={"cls": KINDS}, begin=D, end=D, duration=TDU, precision=PRECISION, tz=Tz())
def replace_timezone_keeps_readings(cls, begin, end, duration, precision, tz):
    ts = make_timespan(cls, begin, end, duration, precision)
    try:
        new = ts.replace_timezone(tz)
    except ValueError:
        if precision == "second":
            # only a result that is no valid timespan is refused
            b = None if begin is None else begin.replace(tzinfo=tz)
            e = None if end is None else end.replace(tzinfo=tz)
            prove(not valid_timespan(cls, b, e, duration, precision), "valid timespans are not refused")
        return
    prove(precision == "second", "all-day timespans are refused")
    prove(both(replaced(begin, new.begin_time, tz), replaced(end, new.end_time, tz)), "the wall clock readings are kept in the new zone")
    prove(both(new.duration is duration, new.precision == precision, type(new) is cls), "everything else is kept")


@lemma("C12", cases={"cls": KINDS}, begin=D, end=D, duration=TDU, precision=PRECISION, tz=Tz())
def convert_timezone_keeps_instants(cls, begin, end, duration, precision, tz):
    ts = make_timespan(cls, begin, end, duration, precision)
    try:
        new = ts.convert_timezone(tz)
    except ValueError:
        if precision == "second" and tz is not None:
            b = None if begin is None else begin.astimezone(tz)
            e = None if end is None else end.astimezone(tz)
            prove(not valid_timespan(cls, b, e, duration, precision), "valid timespans are not refused")
        return
    except OverflowError:
        return
    prove(precision == "second", "all-day timespans are refused")
    prove(both(converted(begin, new.begin_time, tz), converted(end, new.end_time, tz)), "the instants are kept in the new zone")
    prove(both(new.duration is duration, new.precision == precision, type(new) is cls), "everything else is kept")


@lemma("C12", cases={"cls": [Event, Todo], "name": ["replace_timezone", "convert_timezone"]}, begin=D, end=D, duration=TDU, precision=PRECISION, tz=Tz())
def entries_like_timespans(cls, name, begin, end, duration, precision, tz):
    kind = EventTimespan if cls is Event else TodoTimespan
    ts = make_timespan(kind, begin, end, duration, precision)
    x = entry_of(cls, ts)
    try:
        getattr(x, name)(tz)
    except (ValueError, OverflowError):
        prove(x.timespan is ts, "a refused change leaves the entry unchanged")
        return
    new = x.timespan
    prove(precision == "second", "all-day entries are refused")
    if name == "replace_timezone":
        prove(both(replaced(begin, new.begin_time, tz), replaced(end, new.end_time, tz)), "the wall clock readings are kept in the new zone")
    else:
        prove(both(converted(begin, new.begin_time, tz), converted(end, new.end_time, tz)), "the instants are kept in the new zone")
    prove(both(new.duration is duration, new.precision == precision, type(new) is kind), "everything else is kept")
entries_like_timespans.optional_claims = True


# ------------------------------------------------------------------ Normalization
def action_for(floating, normalize_floating, normalize_with_tz):
    """specification: what a normalization does"""
    setting = normalize_floating if floating else normalize_with_tz
    if setting is NA.REPLACE:
        return "replace"
    return "convert" if setting is NA.CONVERT or setting is True else None


def make_normalization(tz, called, nf, nt):
    return Normalization((lambda: tz) if called else tz, nf, nt)


def check_normalized(action, old, new, tz, what):
    if action == "replace":
        prove(replaced(old, new, tz), f"replacement keeps the wall clock reading of a {what}")
    elif action == "convert":
        prove(converted(old, new, tz), f"conversion keeps the instant of a {what}")
    else:
        prove(new is old, f"a {what} that is not to be normalized is kept")


@lemma("C12", cases={"called": [False, True]}, value=DT(), tz=Tz(), nf=SETTINGS, nt=SETTINGS)
def normalize_datetime(called, value, tz, nf, nt):
    n = make_normalization(tz, called, nf, nt)
    action = action_for(naive(value), nf, nt)
    try:
        new = n.normalize(value)
    except OverflowError:
        return
    check_normalized(action, value, new, tz, "datetime")


@lemma("C12", value=Date(), tz=Tz(), nf=SETTINGS, nt=SETTINGS)
def normalize_date(value, tz, nf, nt):
    """dates are their midnights"""
    n = make_normalization(tz, False, nf, nt)
    assume(both(_dt.date(1901, 1, 1) < value, value < _dt.date(9990, 1, 1)))
    value = _dt.datetime(value.year, value.month, value.day)
    new = n.normalize(value)
    action = action_for(True, nf, nt)
    check_normalized(action, value, new, tz, "datetime")


@lemma("C12", tz=Tz(), nf=SETTINGS, nt=SETTINGS)
def normalize_none(tz, nf, nt):
    prove(make_normalization(tz, False, nf, nt).normalize(None) is None, "None stays None")


@lemma("C12", cases={"cls": KINDS}, begin=D, end=D, duration=TDU, precision=PRECISION, tz=Tz(), nf=SETTINGS3, nt=SETTINGS3)
def normalize_timespan(cls, begin, end, duration, precision, tz, nf, nt):
    ts = make_timespan(cls, begin, end, duration, precision)
    n = make_normalization(tz, True, nf, nt)
    action = action_for(is_floating(begin, end), nf, nt)
    try:
        new = n.normalize(ts)
    except (ValueError, OverflowError):
        prove(action is not None, "without an action nothing is refused")
        return
    prove(action is None or precision == "second", "all-day timespans are refused")
    if action is None:
        prove(new is ts, "a timespan that is not to be normalized is kept")
    check_normalized(action, begin, new.begin_time, tz, "begin")
    check_normalized(action, end, new.end_time, tz, "end")
    prove(both(new.duration is duration, new.precision == precision), "everything else is kept")
    prove(both(ts.begin_time is begin, ts.end_time is end), "the original is unchanged")


@lemma("C12", cases={"cls": [Event, Todo]}, begin=D, end=D, duration=TDU, precision=PRECISION, tz=Tz(), nf=SETTINGS3, nt=SETTINGS3)
def normalize_entry(cls, begin, end, duration, precision, tz, nf, nt):
    kind = EventTimespan if cls is Event else TodoTimespan
    ts = make_timespan(kind, begin, end, duration, precision)
    x = entry_of(cls, ts)
    n = make_normalization(tz, False, nf, nt)
    action = action_for(is_floating(begin, end), nf, nt)
    try:
        y = n.normalize(x)
    except (ValueError, OverflowError):
        prove(action is not None, "without an action nothing is refused")
        prove(x.timespan is ts, "a refused change leaves the entry unchanged")
        return
    prove(y is x, "the entry itself is normalized")
    prove(action is None or precision == "second", "all-day entries are refused")
    new = x.timespan
    check_normalized(action, begin, new.begin_time, tz, "begin")
    check_normalized(action, end, new.end_time, tz, "end")
    prove(both(new.duration is duration, new.precision == precision), "everything else is kept")


# ------------------------------------------------------------------ calendars
def _rand_entries(r):
    out = []
    for _ in range(r.randint(0, 4)):
        cls = r.choice([Event, Todo])
        kind = EventTimespan if cls is Event else TodoTimespan
        p = r.choice(["second", "second", "day"])
        b = DT(midnight=p == "day", tz=Tz(("naive",)) if p == "day" else None).rand(r)
        try:
            ts = r.choice([lambda: kind(b, None, None, p), lambda: kind(b, b + DAYTD * r.randint(1, 3), None, p), lambda: kind(b, None, DAYTD * r.randint(1, 3), p), lambda: kind()])()
        except (ValueError, OverflowError):
            continue
        out.append((cls, ts))
    return out


@lemma("C12", mode="bounded", entries=Native(_rand_entries), tz=Tz(), nf=SETTINGS, nt=SETTINGS, how=Choice(0, 1, 2))
def normalize_calendar(entries, tz, nf, nt, how):
    """bounded: calendars of up to 4 entries"""
    xs = [entry_of(cls, ts) for cls, ts in entries]
    c = Calendar(events=[x for x in xs if isinstance(x, Event)], todos=[x for x in xs if isinstance(x, Todo)])
    events, todos = list(c.events), list(c.todos)
    try:
        if how == 0:
            c.normalize(Normalization(tz, nf, nt))
        elif how == 1:
            c.normalize(tz, nf, nt)
        else:
            c.normalize(lambda: tz, normalize_floating=nf, normalize_with_tz=nt)
    except OverflowError:
        assume(False)
    prove(both(len(c.events) == len(events), len(c.todos) == len(todos), all(a is b for a, b in zip(c.events + c.todos, events + todos))), "the calendar keeps its entries")
    for x, (cls, ts) in zip(xs, entries):
        new = x.timespan
        if ts.precision == "day":
            prove(new is ts, "all-day entries are kept as they are")
            continue
        action = action_for(is_floating(ts.begin_time, ts.end_time), nf, nt)
        for old, nw in ((ts.begin_time, new.begin_time), (ts.end_time, new.end_time)):
            if action == "replace":
                prove(replaced(old, nw, tz), "replacement keeps the wall clock readings")
            elif action == "convert":
                prove(converted(old, nw, tz), "conversion keeps the instants")
            else:
                prove(nw is old, "times that are not to be normalized are kept")
        prove(new.duration is ts.duration, "durations are kept")
