"""Random timezones, times and components (shared by several specifications)."""
import datetime as dt
from collections import defaultdict
from urllib.parse import urlparse
import dateutil.tz, dateutil.rrule
from specs.lines import *
from ics.timezone import *
from ics.timezone.converters import *
from ics.icalendar import Calendar
from ics.event import Event, deterministic_event_data
from ics.todo import Todo
from ics.alarm import *
from ics.attendee import Attendee, Organizer
from ics.geo import Geo
from ics.component import Component

import warnings
warnings.simplefilter("ignore")
TZ_NAMES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Africa/Casablanca"]
_tz = {}


def builtin_tz(name):
    if name not in _tz:
        _tz[name] = Timezone.from_tzid(name)
    return _tz[name]


def two_phase(tzid, std, dst, m1=3, m2=10, first=1990):
    """a zone with yearly transitions"""
    def obs(cls, frm, to, m, name):
        rs = dateutil.rrule.rruleset()
        rs.rrule(dateutil.rrule.rrule(dateutil.rrule.YEARLY, dtstart=dt.datetime(first, m, 25, 2), bymonth=m))
        return cls(frm, to, rs, name)
    return Timezone(tzid, [obs(TimezoneStandardObservance, dst, std, m2, "S"), obs(TimezoneDaylightObservance, std, dst, m1, "D")])


H = dt.timedelta(hours=1)


def zone_pool():
    if not _tz.get("pool"):
        _tz["pool"] = [None, dt.timezone.utc, UTC, dateutil.tz.UTC] + [builtin_tz(n) for n in TZ_NAMES[:4]] + [
            two_phase("Custom/A", H, 2 * H), two_phase("Custom/B", -3 * H, -2 * H, 10, 3), Timezone_from_offset("Custom/Fix", dt.timedelta(hours=5, minutes=30)),
            dt.timezone(dt.timedelta(hours=1)), dt.timezone(-dt.timedelta(hours=9, minutes=30)), dt.timezone(dt.timedelta(hours=3), "Named"),
        ]
    return _tz["pool"]


def rand_zone(r, aware=None):
    p = zone_pool()
    return r.choice(p[1:]) if aware else r.choice(p) if aware is None else None


def rand_dt(r, tz="any", years=(1975, 2035), whole=True):
    """a datetime of whole seconds"""
    if tz == "any":
        tz = rand_zone(r)
    d = dt.datetime(r.randint(*years), r.randint(1, 12), r.randint(1, 28), r.choice([0, 2, 12, 23, r.randint(0, 23)]), r.choice([0, 30, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]), tzinfo=tz)
    if r.random() < .2:
        d = d.replace(hour=0, minute=0, second=0)
    if r.random() < .15:
        d = d.replace(fold=1)
    return d


def rand_td(r, lo=0):
    return dt.timedelta(r.choice([0, 0, 1, 2, 7, 30]), r.choice([0, 1, 59, 60, 3600, 5400, 86399, r.randint(0, 86399)])) if lo == 0 or r.random() < .5 else -dt.timedelta(r.choice([0, 1]), r.choice([0, 60, 3600]))


def rand_text1(r):
    """summary, description: any text"""
    return r.choice(["", "x", "Hello, World", "a;b", "a\\nb", "line\nbreak", "\\", ",", ";", "caf\u00e9 \u2028", " lead", "trail ", "A:b", "x" * 100, "word " * 30, rand_text(r, NOCTRL + ["\n"], words=False)])


def rand_word(r):
    return r.choice(["a", "foo", "Bar-1", "x y", "u@example.org", "1234", "Room 5"])


def rand_url(r):
    return urlparse(r.choice(["http://example.org/", "https://x.y/z?a=b;c#d", "mailto:a@b.c", "ftp://f/g", "cid:part1"]))


def rand_uid(r):
    return "%08x@example.org" % r.getrandbits(32)


def rand_params1(r):
    """extra parameters of a known property"""
    p = {}
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        p[r.choice(["X-P", "X-Q", "LANGUAGE", "ALTREP", "x-low"])] = rand_pvalues(r, r.choice([1, 1, 2]))
    return p


def rand_person_extra(r):
    p = {}
    for _ in range(r.choice([0, 1, 2, 4])):
        k = r.choice(["CN", "ROLE", "PARTSTAT", "CUTYPE", "RSVP", "MEMBER", "SENT-BY", "DIR", "X-FOO", "DELEGATED-TO"])
        p[k] = [r.choice(["TRUE", "FALSE"])] if k == "RSVP" else rand_pvalues(r, r.choice([1, 1, 2]))
    return p


def rand_person(r, cls):
    return cls(urlparse(r.choice(["mailto:a@example.org", "mailto:b@x.y", "http://who/1"])), rand_person_extra(r))


def rand_alarm(r):
    kind = r.choice([AudioAlarm, DisplayAlarm, EmailAlarm, NoneAlarm, CustomAlarm])
    kw = {"trigger": r.choice([-dt.timedelta(minutes=15), dt.timedelta(0), dt.timedelta(hours=3, seconds=5), rand_dt(r, dt.timezone.utc)])}
    if r.random() < .5:
        kw["repeat"] = r.choice([0, 1, 5])
        kw["duration"] = r.choice([dt.timedelta(minutes=5), dt.timedelta(days=1)])
    if kind is CustomAlarm:
        kw["action"] = r.choice(["X-FOO", "PROCEDURE", "audio", "Display", "X,y;z"])
    if kind in (DisplayAlarm, EmailAlarm) and r.random() < .8:
        kw["description"] = rand_text1(r)
    if kind is EmailAlarm and r.random() < .8:
        kw["summary"] = rand_text1(r)
        kw["attendees"] = [rand_person(r, Attendee) for _ in range(r.choice([0, 1, 2]))]
    if kind is AudioAlarm and r.random() < .5:
        kw["attach"] = rand_attach(r)
    if kind is EmailAlarm and r.random() < .5:
        kw["attach"] = [rand_attach(r) for _ in range(r.choice([0, 1, 3]))]
    a = kind(**kw)
    decorate(r, a)
    return a


def rand_attach(r):
    return r.choice([urlparse("http://example.org/a.txt"), b"\x00binary\xff", b"abc", urlparse("cid:x")])


def decorate(r, c):
    """unknown lines and sub-components"""
    if r.random() < .4:
        for _ in range(r.choice([1, 2, 3])):
            c.extra.append(rand_unknown(r))


def rand_unknown(r):
    if r.random() < .3:
        return Container(r.choice(["X-SUB", "VFOO", "DAYLIGHTX", "VCALENDAR"]), [rand_unknown(r) for _ in range(r.choice([0, 1, 2]))])
    return ContentLine(r.choice(["X-ONE", "X-TWO", "X-WR-CALNAME", "CONTACT", "RESOURCES", "X-SUMMARY", "VTIMEZONE", "VCALENDAR", "UIDS"]), rand_params(r), rand_value(r, 40))


def rand_entry(r, cls, tz="any", plain_times=False):
    kw = {}
    if tz == "any":
        tz = rand_zone(r)
    k = r.random()
    begin = rand_dt(r, tz)
    if k < .12 and cls is Event or k < .2 and cls is Todo:
        pass
    elif k < .35:
        kw["begin"] = begin
    elif k < .6:
        kw["begin"], kw["duration"] = begin, abs(rand_td(r))
    elif k < .65 and cls is Todo:
        kw["due"] = begin
    else:
        tz2 = tz if tz is None or r.random() < .6 else rand_zone(r, True)
        end = rand_dt(r, tz2)
        if r.random() < .7:
            end = (begin + abs(rand_td(r))).replace(tzinfo=tz2)
        kw["begin"], kw["due" if cls is Todo else "end"] = begin, end
    try:
        e = cls(**kw)
    except ValueError:
        e = cls(begin=begin)
    if r.random() < .25:
        e = cls(begin=begin.replace(tzinfo=None), **({"duration": dt.timedelta(r.choice([1, 2]))} if r.random() < .4 else {}))
        e.make_all_day()
    e.uid = rand_uid(r)
    e.dtstamp = dt.datetime(2020, 1, r.randint(1, 28), tzinfo=dt.timezone.utc)
    for f in ("summary", "description", "location"):
        if r.random() < .4:
            setattr(e, f, rand_text1(r))
    if r.random() < .3:
        e.status = r.choice(["TENTATIVE", "CONFIRMED", "CANCELLED"])
    if r.random() < .2:
        e.created = rand_dt(r, dt.timezone.utc)
    if r.random() < .2:
        e.last_modified = rand_dt(r, rand_zone(r, True))
    if r.random() < .2:
        e.url = rand_url(r)
    if r.random() < .3:
        e.alarms = [rand_alarm(r) for _ in range(r.choice([1, 2]))]
    if r.random() < .2:
        e.attach = [rand_attach(r) for _ in range(r.choice([1, 2]))]
    if cls is Event:
        if r.random() < .2:
            e.organizer = rand_person(r, Organizer)
        if r.random() < .3:
            e.attendees = [rand_person(r, Attendee) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .3:
            e.categories = [r.choice(["a", "b,c", "d;e", "f\\g", "WORK", "x\ny"]) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .2:
            e.geo = Geo(round(r.uniform(-90, 90), r.choice([0, 3, 6])), round(r.uniform(-180, 180), r.choice([0, 3, 6])))
        if r.random() < .2:
            e.transparent = r.random() < .5
        if r.random() < .2:
            e.classification = r.choice(["PUBLIC", "PRIVATE", "X-y"])
    else:
        if r.random() < .3:
            e.percent = r.randint(0, 100)
        if r.random() < .3:
            e.priority = r.randint(0, 9)
        if r.random() < .2:
            e.completed = rand_dt(r, r.choice([None, dt.timezone.utc, builtin_tz("Europe/Berlin")]))
    decorate(r, e)
    return e


def rand_calendar(r, n=(0, 1, 2, 3)):
    c = Calendar(creator=r.choice(["me", "x,y;z", "ics"]))
    c.events = [rand_entry(r, Event) for _ in range(r.choice(n))]
    c.todos = [rand_entry(r, Todo) for _ in range(r.choice(n))]
    if r.random() < .3:
        c.scale = "GREGORIAN"
    if r.random() < .3:
        c.method = "PUBLISH"
    decorate(r, c)
    return c


def ctx():
    """a context (not empty: an empty one is replaced by the converters)"""
    c = defaultdict(lambda: None)
    c["specification"] = True
    return c


def ctx_with(c):
    """a context with the timezones that were written using context c"""
    n = ctx()
    n["DatetimeAvailableTimezones"] = dict(c["DatetimeAvailableTimezones"] or {})
    return n


def written(c):
    """(container, context for reading it alone)"""
    x = ctx()
    out = c.to_container(x)
    return out, ctx_with(x)


def parse1(text):
    return string_to_container(text)


def same_zone(a, b):
    """the same zone, once written"""
    if a is None or b is None:
        return a is b
    if is_utc(a) or is_utc(b):
        return is_utc(a) and is_utc(b)
    return equal_zone(Timezone.from_tzinfo(a), Timezone.from_tzinfo(b))


def zone_key(z):
    """what a timezone defines (its onsets may be written as a rule or as dates)"""
    key = getattr(z, "__key", None)
    if key is None:
        from itertools import islice
        key = (z.tzid, [(type(o), o.tzoffsetfrom, o.tzoffsetto, o.tzname, o.comment, list(islice(o.rrule, 8))) for o in z.observances])
        object.__setattr__(z, "__key", key)
    return key


def equal_zone(a, b):
    return a is b or zone_key(a) == zone_key(b)


def same_dt(a, b):
    """the same wall clock reading in the same zone"""
    if a is None or b is None:
        return a is b
    return a.replace(tzinfo=None, fold=0) == b.replace(tzinfo=None, fold=0) and same_zone(a.tzinfo, b.tzinfo)


def same_timespan(a, b):
    return type(a) is type(b) and same_dt(a.begin_time, b.begin_time) and same_dt(a.end_time, b.end_time) and a.duration == b.duration and a.precision == b.precision


def same_value(a, b):
    """attribute values that mean the same once written"""
    if isinstance(a, dt.datetime) and isinstance(b, dt.datetime):
        return same_dt(a, b)
    if isinstance(a, Timespan):
        return same_timespan(a, b)
    if isinstance(a, Geo):
        return isinstance(b, Geo) and all(abs(x - y) < 1e-6 for x, y in zip(a, b))
    if isinstance(a, dateutil.rrule.rruleset):
        from itertools import islice
        return list(islice(a, 8)) == list(islice(b, 8))
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Component):
        return same_component(a, b)
    if isinstance(a, (Attendee, Organizer)):
        return type(a) is type(b) and a.email == b.email and norm_params(a.extra) == norm_params(b.extra)
    return type(a) is type(b) and a == b


def norm_params(p):
    return [(str(k), [str(v) for v in vs]) for k, vs in p.items()]


def fields_of(c):
    import attr
    return [f.name for f in attr.fields(type(c)) if f.name not in ("extra", "extra_params")]


def differing(a, b):
    """names of attributes that differ"""
    out = [n for n in fields_of(a) if not same_value(getattr(a, n), getattr(b, n))]
    if [plain(x) for x in a.extra] != [plain(x) for x in b.extra]:
        out.append("extra")
    return out


def same_component(a, b):
    return type(a) is type(b) and differing(a, b) == []


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False
