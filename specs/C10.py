"""C10: every timespan that exists is valid"""
import datetime as _dt
import pickle
from specs.common import *

LOCALTIME = True
ASSUMPTIONS = ["datetimes range over the years 1901 to 9990", "precision is one of 'second' and 'day' (the two documented values)"]
D = Opt(DT())
TDU = Opt(TD())


@lemma("C10", cases={"cls": KINDS}, begin=D, end=D, duration=TDU, precision=PRECISION)
def created_iff_valid(cls, begin, end, duration, precision):
    try:
        ts = cls(begin, end, duration, precision)
    except (ValueError, TypeError) as e:
        try:
            ok = valid_timespan(cls, begin, end, duration, precision)
        except (TypeError, OverflowError):
            ok = False
        prove(not ok, "only invalid combinations are rejected")
    else:
        prove(valid_timespan(cls, begin, end, duration, precision), "only valid combinations are accepted")
        prove(both(ts.begin_time is begin, ts.end_time is end, ts.duration is duration, ts.precision == precision), "the values are stored")


def _replace_tz(ts, tz, b, e, d):
    return ts.replace_timezone(tz)


def _convert_tz(ts, tz, b, e, d):
    return ts.convert_timezone(tz)


def _make_all_day(ts, tz, b, e, d):
    return ts.make_all_day()


def _to_end(ts, tz, b, e, d):
    return ts.convert_end("end")


def _to_duration(ts, tz, b, e, d):
    return ts.convert_end("duration")


def _to_none(ts, tz, b, e, d):
    return ts.convert_end(None)


def _replace_begin(ts, tz, b, e, d):
    return ts.replace(begin_time=b)


def _replace_end(ts, tz, b, e, d):
    return ts.replace(end_time=e, duration=None)


def _replace_both(ts, tz, b, e, d):
    return ts.replace(begin_time=b, end_time=e)


def _replace_duration(ts, tz, b, e, d):
    return ts.replace(end_time=None, duration=d)


def _replace_precision(ts, tz, b, e, d):
    return ts.replace(precision="day" if ts.precision == "second" else "second")


OPS_TZ = [_replace_tz, _convert_tz]
OPS = [_make_all_day, _to_end, _to_duration, _to_none, _replace_precision]
OPS_SET = [_replace_begin, _replace_end, _replace_both, _replace_duration]


def check_result(cls, ts, begin, end, duration, precision, new):
    prove(isinstance(new, cls), "the kind is kept")
    prove(valid_timespan(cls, new.begin_time, new.end_time, new.duration, new.precision), "the result is valid")
    prove(both(ts.begin_time is begin, ts.end_time is end, ts.duration is duration, ts.precision == precision), "the original is unchanged")


@lemma("C10", cases={"cls": KINDS, "op": OPS_TZ}, begin=D, end=D, duration=TDU, precision=PRECISION, tz=Tz())
def timezone_operations(cls, op, begin, end, duration, precision, tz):
    ts = make_timespan(cls, begin, end, duration, precision)
    try:
        new = op(ts, tz, None, None, None)
    except Exception:
        return
    check_result(cls, ts, begin, end, duration, precision, new)


@lemma("C10", cases={"cls": KINDS, "op": OPS}, begin=D, end=D, duration=TDU, precision=PRECISION)
def end_operations(cls, op, begin, end, duration, precision):
    ts = make_timespan(cls, begin, end, duration, precision)
    try:
        new = op(ts, None, None, None, None)
    except Exception:
        return
    check_result(cls, ts, begin, end, duration, precision, new)


@lemma("C10", cases={"cls": KINDS, "op": OPS_SET}, begin=D, end=D, duration=TDU, precision=PRECISION, b=D, e=D, d=TDU)
def replace_operations(cls, op, begin, end, duration, precision, b, e, d):
    ts = make_timespan(cls, begin, end, duration, precision)
    try:
        new = op(ts, None, b, e, d)
    except Exception:
        return
    check_result(cls, ts, begin, end, duration, precision, new)


# ------------------------------------------------------------------ entries
STAMP = _dt.datetime(2020, 1, 1, tzinfo=_dt.timezone.utc)


def entry_of(cls, ts):
    return cls(timespan=ts, uid="u", dtstamp=STAMP)


def span_kind(cls):
    return EventTimespan if cls is Event else TodoTimespan


def _e_begin(x, v, d, tz):
    x.begin = v


def _e_end(x, v, d, tz):
    x.end = v


def _e_due(x, v, d, tz):
    if isinstance(x, Todo):
        x.due = v
    else:
        x.end = v


def _e_duration(x, v, d, tz):
    x.duration = d


def _e_all_day(x, v, d, tz):
    x.make_all_day()


def _e_unset_all_day(x, v, d, tz):
    x.unset_all_day()


def _e_convert_end(x, v, d, tz):
    x.convert_end("end")


def _e_convert_duration(x, v, d, tz):
    x.convert_end("duration")


def _e_convert_due(x, v, d, tz):
    x.convert_end("due")


def _e_convert_none(x, v, d, tz):
    x.convert_end(None)


def _e_replace_tz(x, v, d, tz):
    x.replace_timezone(tz)


def _e_convert_tz(x, v, d, tz):
    x.convert_timezone(tz)


E_OPS1 = [_e_begin, _e_end, _e_due, _e_replace_tz, _e_convert_tz]
E_OPS2 = [_e_duration, _e_all_day, _e_unset_all_day, _e_convert_end, _e_convert_duration, _e_convert_due, _e_convert_none]


def check_entry(cls, op, begin, end, duration, precision, v, d, tz):
    ts = make_timespan(span_kind(cls), begin, end, duration, precision)
    x = entry_of(cls, ts)
    try:
        op(x, v, d, tz)
    except Exception:
        prove(x.timespan is ts, "a rejected change leaves the previous timespan in place")
        return
    new = x.timespan
    prove(isinstance(new, span_kind(cls)), "an entry holds a timespan of its kind")
    prove(valid_timespan(span_kind(cls), new.begin_time, new.end_time, new.duration, new.precision), "an entry holds a valid timespan")


@lemma("C10", cases={"cls": [Event, Todo], "op": E_OPS1}, begin=D, end=D, duration=TDU, precision=PRECISION, v=D, tz=Tz())
def entry_setters(cls, op, begin, end, duration, precision, v, tz):
    check_entry(cls, op, begin, end, duration, precision, v, None, tz)
entry_setters.optional_claims = True


@lemma("C10", cases={"cls": [Event, Todo], "op": E_OPS2}, begin=D, end=D, duration=TDU, precision=PRECISION, d=TDU)
def entry_operations(cls, op, begin, end, duration, precision, d):
    check_entry(cls, op, begin, end, duration, precision, None, d, None)


@lemma("C10", cases={"cls": [Event, Todo], "kind": KINDS}, begin=D, end=D, duration=TDU, precision=PRECISION)
def entry_holds_its_kind(cls, kind, begin, end, duration, precision):
    ts = make_timespan(kind, begin, end, duration, precision)
    old = span_kind(cls)()
    x = entry_of(cls, old)
    try:
        x.timespan = ts
    except (ValueError, TypeError):
        prove(not issubclass(kind, span_kind(cls)), "a timespan of the right kind is accepted")
        prove(x.timespan is old, "a rejected timespan leaves the previous one in place")
    else:
        prove(issubclass(kind, span_kind(cls)), "a timespan of another kind is rejected")
        prove(x.timespan is ts, "the timespan is stored")
entry_holds_its_kind.optional_claims = True


@lemma("C10", cases={"cls": [Event, Todo]}, begin=D, end=D, duration=TDU)
def entry_created_iff_valid(cls, begin, end, duration):
    kind = span_kind(cls)
    try:
        if cls is Event:
            x = Event(begin=begin, end=end, duration=duration, uid="u", dtstamp=STAMP)
        else:
            x = Todo(begin=begin, due=end, duration=duration, uid="u", dtstamp=STAMP)
    except (ValueError, TypeError):
        try:
            ok = valid_timespan(kind, begin, end, duration, "second")
        except (TypeError, OverflowError):
            ok = False
        prove(not ok, "only invalid combinations are rejected")
    else:
        ts = x.timespan
        prove(valid_timespan(kind, begin, end, duration, "second"), "only valid combinations are accepted")
        prove(both(ts.begin_time is begin, ts.end_time is end, ts.duration is duration, ts.precision == "second", isinstance(ts, kind)), "the values are stored")


def _rand_history(r):
    return [(r.randrange(12), DT().rand(r) if r.random() < .9 else None, TD(lo=-DAYTD, hi=9 * DAYTD).rand(r) if r.random() < .9 else None, Tz().rand(r)) for _ in range(r.randint(1, 8))]


@lemma("C10", mode="bounded", cases={"cls": [Event, Todo]}, begin=D, end=D, duration=TDU, history=Native(_rand_history))
def entry_histories(cls, begin, end, duration, history):
    """bounded: histories of up to 8 operations (follows from the single steps above; kept as a cross-check)"""
    try:
        x = entry_of(cls, span_kind(cls)(begin, end, duration))
    except (ValueError, TypeError, OverflowError):
        assume(False)
    for n, v, d, tz in history:
        old = x.timespan
        try:
            (E_OPS1 + E_OPS2)[n](x, v, d, tz)
        except Exception:
            prove(x.timespan is old, "a rejected change leaves the previous timespan in place")
        t = x.timespan
        prove(valid_timespan(span_kind(cls), t.begin_time, t.end_time, t.duration, t.precision), "an entry holds a valid timespan")


class NoOffset(_dt.tzinfo):
    """a tzinfo object which knows no offset"""
    def utcoffset(self, d): return None
    def dst(self, d): return None
    def tzname(self, d): return None


NO_OFFSET = NoOffset()


def _with(d, how):
    if d is None or how == "as is":
        return d
    return d.replace(tzinfo=None if how == "naive" else NO_OFFSET)


@lemma("C10", mode="bounded", cases={"cls": KINDS}, begin=D, end=D, duration=TDU, precision=PRECISION, hows=Tup(*[Choice("as is", "naive", "none")] * 2))
def zones_without_an_offset(cls, begin, end, duration, precision, hows):
    """one of the times has a tzinfo without an offset, the other has no tzinfo"""
    begin, end = _with(begin, hows[0]), _with(end, hows[1])
    assume(begin is not None and end is not None and "none" in hows)
    try:
        cls(begin, end, duration, precision)
    except (ValueError, TypeError):
        return
    prove((begin.tzinfo is None) == (end.tzinfo is None), "times with and without a timezone are not mixed")
