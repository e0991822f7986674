"""C11: changing how an end is represented never changes when an entry happens"""
import datetime as _dt
from specs.common import *

ASSUMPTIONS = ["datetimes range over the years 1901 to 9990", "precision is one of 'second' and 'day' (the two documented values)",
               "begin and end share their timezone object where the end is turned into a duration or into whole days (wall clock arithmetic of Python)"]
D = Opt(DT())
TDU = Opt(TD())
STAMP = _dt.datetime(2020, 1, 1, tzinfo=_dt.timezone.utc)


def same_zone(a, b):
    return a is None or b is None or a.tzinfo is b.tzinfo


def same_wall(a, b):
    """same wall clock reading in the same zone"""
    if a is None or b is None:
        return a is b
    return both(wall(a) == wall(b), a.tzinfo is b.tzinfo)


def entry_of(cls, ts):
    return cls(timespan=ts, uid="u", dtstamp=STAMP)


def span_kind(cls):
    return EventTimespan if cls is Event else TodoTimespan


def rep_of(ts):
    if ts.duration is not None:
        return "duration"
    return None if ts.end_time is None else "end"


LAST = wall(_dt.datetime(9998, 1, 1))
TARGETS = ["end", "duration", None, "due"]


def old_end_of(cls, begin, end, duration, precision):
    """the effective end, in the range of the calendar; all-day durations are whole days"""
    if precision == "day" and duration is not None:
        assume(us(duration) % DAYUS == 0)
    try:
        e = effective_end(cls, begin, end, duration, precision)
    except OverflowError:
        assume(False)
    if e is not None:
        assume(wall(e) < LAST)
    return e


def check_convert(cls, begin, end, duration, precision, target, convert):
    ts = make_timespan(cls, begin, end, duration, precision)
    old_end = old_end_of(cls, begin, end, duration, precision)
    rep = rep_of(ts)
    # "due" is the name todos use for their end; an end without a begin has no duration
    ok = target is None or rep is not None and (target != "due" or cls is TodoTimespan) and (target != "duration" or begin is not None)
    try:
        new = convert(ts, target)
    except ValueError:
        prove(not ok, "a set end can be converted")
        return
    prove(new.begin_time is begin, "begin is kept")
    prove(new.precision == precision, "the precision is kept")
    if target is None:
        prove(both(new.end_time is None, new.duration is None), "removing the end leaves neither end nor duration")
    else:
        prove(rep_of(new) == (None if rep is None else "duration" if target == "duration" else "end"), "the end is represented as asked")
        prove(same_wall(new.get_effective_end(), old_end), "the effective end is kept")


@lemma("C11", cases={"cls": KINDS, "target": TARGETS}, begin=D, end=D, duration=TDU, precision=PRECISION)
def convert_end_keeps_times(cls, target, begin, end, duration, precision):
    assume(same_zone(begin, end))
    assume(begin is None or end is None or begin <= end)
    check_convert(cls, begin, end, duration, precision, target, lambda ts, t: ts.convert_end(t))
convert_end_keeps_times.optional_claims = True


def _entry_convert(ts, target):
    cls = Event if isinstance(ts, EventTimespan) else Todo
    x = entry_of(cls, ts)
    x.convert_end(target)
    return x.timespan


@lemma("C11", cases={"cls": [EventTimespan, TodoTimespan], "target": TARGETS}, begin=D, end=D, duration=TDU, precision=PRECISION)
def entry_convert_end_keeps_times(cls, target, begin, end, duration, precision):
    assume(same_zone(begin, end))
    check_convert(cls, begin, end, duration, precision, target, _entry_convert)
entry_convert_end_keeps_times.optional_claims = True


@lemma("C11", cases={"cls": KINDS}, begin=DT(Tz(("utc", "stdutc"))), end=DT(Tz(("utc", "stdutc", "zone"))))
def convert_end_keeps_instants(cls, begin, end):
    """with a begin in UTC, the instant of the end is kept whatever the zone of the end"""
    ts = make_timespan(cls, begin, end, None, "second")
    new = ts.convert_end("duration")
    prove(new.begin_time is begin, "begin is kept")
    prove(inst(new.get_effective_end()) == inst(end), "the instant of the end is kept")


def check_all_day(cls, begin, end, duration, precision, make):
    ts = make_timespan(cls, begin, end, duration, precision)
    old_end = old_end_of(cls, begin, end, duration, precision)
    new = make(ts)
    if precision == "day":
        prove(both(new.begin_time is begin, new.end_time is end, new.duration is duration, new.precision == "day"), "identity on all-day timespans")
        return
    prove(new.precision == "day", "the result is all-day")
    nb, ne = new.begin_time, new.get_effective_end()
    if begin is None:
        prove(nb is None, "no begin is invented")
    else:
        prove(both(naive(nb), is_midnight(nb), wall(nb) <= wall(begin), wall(begin) < wall(nb) + DAYUS), "it starts at midnight of the day of the begin")
    if old_end is None:
        # a plain all-day timespan or todo without end stays without end
        prove(both(new.end_time is None, new.duration is None), "no end is invented")
    else:
        prove(both(naive(ne), is_midnight(ne)), "it ends at midnight")
        prove(both(wall(ne) >= wall(old_end), wall(ne) <= wall(old_end) + DAYUS), "it covers the end and at most one more day")
        prove(iff(new.duration is not None, duration is not None), "the end is a duration iff it was before")
        if begin is not None:
            prove(wall(ne) >= wall(nb) + DAYUS, "it lasts at least one day")
            prove(implies(wall(old_end) > wall(begin), wall(ne) < wall(old_end) + DAYUS), "it ends less than a day after a later end")


@lemma("C11", cases={"cls": KINDS}, begin=D, end=D, duration=TDU, precision=PRECISION)
def make_all_day_covers(cls, begin, end, duration, precision):
    assume(same_zone(begin, end))
    check_all_day(cls, begin, end, duration, precision, lambda ts: ts.make_all_day())


def _entry_all_day(ts):
    x = entry_of(Event if isinstance(ts, EventTimespan) else Todo, ts)
    x.make_all_day()
    prove(x.all_day, "the entry is all-day")
    return x.timespan


@lemma("C11", cases={"cls": [EventTimespan, TodoTimespan]}, begin=D, end=D, duration=TDU, precision=PRECISION)
def entry_make_all_day_covers(cls, begin, end, duration, precision):
    assume(same_zone(begin, end))
    check_all_day(cls, begin, end, duration, precision, _entry_all_day)


@lemma("C11", cases={"cls": [Event, Todo]}, begin=D, end=D, duration=TDU)
def unset_all_day_keeps_times(cls, begin, end, duration):
    ts = make_timespan(span_kind(cls), begin, end, duration, "day")
    old_end = old_end_of(span_kind(cls), begin, end, duration, "day")
    x = entry_of(cls, ts)
    x.unset_all_day()
    new = x.timespan
    prove(not x.all_day, "the entry is not all-day")
    prove(both(new.begin_time is begin, new.end_time is end, new.duration is duration), "begin, end and duration are kept")
    assume(begin is not None and (end is not None or duration is not None))
    prove(wall(x.end) == wall(old_end), "a set end is kept")


def _valid(*a):
    try:
        return valid_timespan(*a)
    except (TypeError, OverflowError):
        return False


def expect(cls, x, op, begin, end, duration, precision):
    """op(x) must set exactly these values if they are valid"""
    try:
        op(x)
    except (ValueError, TypeError):
        prove(not _valid(span_kind(cls), begin, end, duration, precision), "valid values are accepted")
        return
    t = x.timespan
    prove(both(t.begin_time is begin, t.end_time is end, t.duration is duration, t.precision == precision), "exactly the intended parts change")
    prove(both(x.begin is begin, iff(x.has_explicit_end, end is not None or duration is not None)), "the entry reports the new begin and whether it has an end")
    if end is not None:
        prove(x.end is end, "the entry reports the new end")
    if duration is not None:
        prove(x.duration is duration, "the entry reports the new duration")


@lemma("C11", cases={"cls": [Event, Todo]}, begin=D, end=D, duration=TDU, precision=PRECISION, v=D)
def set_begin_keeps_end_or_duration(cls, begin, end, duration, precision, v):
    x = entry_of(cls, make_timespan(span_kind(cls), begin, end, duration, precision))

    def op(x):
        x.begin = v
    expect(cls, x, op, v, end, duration, precision)


@lemma("C11", cases={"how": [(Event, "end"), (Todo, "end"), (Todo, "due")]}, begin=D, end=D, duration=TDU, precision=PRECISION, v=D)
def set_end_replaces_duration(how, begin, end, duration, precision, v):
    cls, name = how
    x = entry_of(cls, make_timespan(span_kind(cls), begin, end, duration, precision))

    def op(x):
        if name == "due":
            x.due = v
        else:
            x.end = v
    expect(cls, x, op, begin, v, None, precision)
set_end_replaces_duration.optional_claims = True


@lemma("C11", cases={"cls": [Event, Todo]}, begin=D, end=D, duration=TDU, precision=PRECISION, v=TDU)
def set_duration_replaces_end(cls, begin, end, duration, precision, v):
    x = entry_of(cls, make_timespan(span_kind(cls), begin, end, duration, precision))

    def op(x):
        x.duration = v
    expect(cls, x, op, begin, None, v, precision)
set_duration_replaces_end.optional_claims = True
