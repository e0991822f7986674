"""C28: converting timezones for output never changes their offset"""
from specs.comps import *
from ics.types import ContextDict
import os, time
import zoneinfo
from ics.timezone.converters import Timezone_from_tzinfo

NOTE = "proved for every fixed offset with any name, every time, with no, a shared and a plain context, and for calendar timezones; timezones that have a name (zoneinfo, dateutil), local ones, foreign classes and longer histories of conversions are sampled (bounded)"
ASSUMPTIONS = ["datetime.timezone: offset within a day, equality by offset, the default name of an offset other than zero is not a spelling of UTC"]


def rand_fixed(r):
    off = dt.timedelta(minutes=r.randint(-23 * 60 - 59, 23 * 60 + 59)) if r.random() < .7 else dt.timedelta(seconds=r.randint(-86399, 86399))
    if r.random() < .6:
        return dt.timezone(off)
    return dt.timezone(off, r.choice(["A", "B", "UTC", "Etc/UTC", "utc", "Europe/Berlin", "X Y", "GMT"]))


class Odd(dt.tzinfo):
    def utcoffset(self, d): return H
    def dst(self, d): return None
    def tzname(self, d): return "odd"
    def __repr__(self): return "Odd()"


class OddEq(Odd):
    """unhashable"""
    __hash__ = None
    def __eq__(self, o): return True


UTCS = [Timezone_from_offset("Etc/UTC", dt.timedelta(0)), dt.timezone.utc, UTC, dateutil.tz.UTC, dateutil.tz.tzutc(), zoneinfo.ZoneInfo("UTC"), dt.timezone(dt.timedelta(0), "Foo")]
os.environ["TZ"] = "America/New_York"   # tzlocal() would equal UTC where the local time is UTC
time.tzset()
LOCALS = [dateutil.tz.tzlocal()] + ([dateutil.tz.tzfile("/etc/localtime")] if os.path.exists("/etc/localtime") else [])
BAD = [Odd(), dateutil.tz.tzstr("EST5EDT"), dateutil.tz.tzoffset("X", 3600), dateutil.tz.tzrange("A", 3600)]
ICS = [two_phase("Custom/A", H, 2 * H), Timezone_from_offset("Custom/Fix", H), Timezone_from_offset("A", H), Timezone_from_offset("B", 2 * H), Timezone_from_offset("My/UTC", 2 * H), two_phase("Etc/UTC/X", H, 2 * H), Timezone_from_offset("UTC+1", H)]


def rand_tz(r):
    k = r.random()
    if k < .5:
        return ("fixed", rand_fixed(r))
    if k < .6:
        return ("fixed", r.choice([dt.timezone(H, "A"), dt.timezone(H, "B"), dt.timezone(H), dt.timezone(2 * H, "A"), dt.timezone(2 * H)]))
    if k < .7:
        return ("utc", r.choice(UTCS))
    if k < .75:
        return ("local", r.choice(LOCALS))
    if k < .8:
        return ("bad", r.choice(BAD))
    if k < .9:
        return ("ics", r.choice(ICS))
    n = r.choice(TZ_NAMES[:4])
    return ("named", (n, r.choice([zoneinfo.ZoneInfo, dateutil.tz.gettz])(n)))


def outcome(tz, context):
    try:
        return Timezone_from_tzinfo(tz, context) if context is not None else Timezone_from_tzinfo(tz)
    except ValueError:
        return ValueError


def check(kind, tz, got):
    if kind == "fixed":
        off = tz.utcoffset(None)
        if off == dt.timedelta(0):
            prove(got is UTC, "UTC is passed through as UTC")
            return
        prove(isinstance(got, Timezone) and not is_utc(got), "a fixed offset is converted")
        for d in (dt.datetime(1, 1, 2), dt.datetime(1969, 12, 31), dt.datetime(2020, 7, 1, 12, fold=1), dt.datetime(9999, 12, 31)):
            prove(got.utcoffset(d) == off, "the same offset for every time")
            prove(got.dst(d) == dt.timedelta(0), "no DST for every time")
        if is_utc(Timezone_from_offset(tz.tzname(None), off)):
            prove(got.tzid == dt.timezone(off).tzname(None), "named after its offset")
        else:
            prove(got.tzid == tz.tzname(None), "the name is kept")
    elif kind == "utc":
        prove(is_utc(got) and (got is UTC or got is tz), "UTC is passed through as UTC")
    elif kind == "local":
        prove(got is None, "local time yields no timezone")
    elif kind == "bad":
        prove(got is ValueError, "timezones that can't be represented are rejected")
    elif kind == "ics":
        prove(got is tz, "calendar timezones are passed through")
        prove(not is_utc(tz), "calendar timezones with other names are not UTC")
    else:
        prove(isinstance(got, Timezone) and got == builtin_tz(tz[0]), "named timezones become the built-in timezone of that name")


@lemma("C28", mode="bounded", weight=2, zones=Native(lambda r: [rand_tz(r) for _ in range(r.choice([1, 2, 6]))]), shared=Native(lambda r: r.random() < .7), plaindict=Native(lambda r: r.random() < .5))
def conversions(zones, shared, plaindict):
    c = ({} if plaindict else ctx()) if shared else None
    for kind, tz in zones + zones:
        t = tz[1] if kind == "named" else tz
        got = outcome(t, c)
        check(kind, tz, got)


@lemma("C28", mode="bounded", tz=Native(rand_fixed), d=Native(lambda r: rand_dt(r, None, (1, 9999))))
def fixed_offsets(tz, d):
    off = tz.utcoffset(None)
    got = Timezone.from_tzinfo(tz)
    prove(got.utcoffset(d) == off and got.dst(d) == dt.timedelta(0), "the same offset for every time")
    prove(is_utc(tz) == (off == dt.timedelta(0)), "UTC exactly if the offset is zero")
    prove(is_utc(d.replace(tzinfo=tz)) == (off == dt.timedelta(0)) and not is_utc(d), "UTC exactly if the offset is zero")


SPELLINGS = ["UTC", "ETC/UTC"]
KINDS = ["none", "shared", "plain", "from_tzinfo"]


@lemma("C28", cases={"kind": KINDS}, tz=Fixed(), d=DT(years=None))
def any_fixed_offset(kind, tz, d):
    c = {} if kind == "plain" else ctx() if kind == "shared" else None
    got = Timezone.from_tzinfo(tz) if kind == "from_tzinfo" else Timezone_from_tzinfo(tz) if kind == "none" else Timezone_from_tzinfo(tz, c)
    off = tz.utcoffset(None)
    prove(iff(is_utc(tz), off == dt.timedelta(0)), "UTC exactly if the offset is zero")
    if off == dt.timedelta(0):
        prove(got is UTC, "UTC is passed through as UTC")
    else:
        prove(isinstance(got, Timezone) and not is_utc(got), "a fixed offset is converted")
        prove(got.utcoffset(d) == off, "the same offset for every time")
        prove(got.dst(d) == dt.timedelta(0), "no DST for every time")
        name = tz.tzname(None)
        if name.upper() in SPELLINGS:
            prove(got.tzid == dt.timezone(off).tzname(None), "named after its offset")
        else:
            prove(got.tzid == name, "the name is kept")


@lemma("C28", cases={"shared": ["none", "shared", "plain"]}, first=Fixed(), second=Fixed(), d=DT(years=None))
def histories_of_fixed_offsets(shared, first, second, d):
    c = {} if shared == "plain" else ctx() if shared == "shared" else None
    Timezone_from_tzinfo(first, c)
    got = Timezone_from_tzinfo(second, c)
    again = Timezone_from_tzinfo(second, c)
    prove(got.utcoffset(d) == second.utcoffset(None) and got.dst(d) == dt.timedelta(0), "the same offset for every time")
    prove(again.utcoffset(d) == second.utcoffset(None) and again.dst(d) == dt.timedelta(0), "the same answer again")
    prove(iff(is_utc(got), second.utcoffset(None) == dt.timedelta(0)), "UTC exactly if the offset is zero")


@lemma("C28", cases={"shared": ["none", "shared", "plain"]}, rules=Rule(), offset=TD(), offset2=TD(), tzid=Text(nonempty=True), first=Fixed())
def calendar_timezones(shared, rules, offset, offset2, tzid, first):
    c = {} if shared == "plain" else ctx() if shared == "shared" else None
    tz = Timezone(tzid, [TimezoneStandardObservance(offset, offset2, rules, tzid)])
    prove(Timezone_from_tzinfo(tz, c) is tz, "calendar timezones are passed through")
    Timezone_from_tzinfo(first, c)
    prove(Timezone_from_tzinfo(tz, c) is tz, "calendar timezones are passed through")
    prove(Timezone.from_tzinfo(tz, c) is tz, "calendar timezones are passed through")
