"""C09: date, date-time, time and period values survive serialization"""
from specs.comps import *
from ics.valuetype.datetime import DatetimeConverter, DateConverter, TimeConverter, PeriodConverter
from ics.types import copy_extra_params

NOTE = "proved for every wall clock reading of whole seconds in every year, floating, UTC, with any fixed offset with a name and with any calendar timezone of one observance; timezones known by name (zoneinfo, dateutil) are sampled (bounded)"
ASSUMPTIONS = ["strftime and strptime of the formats in use (dtmodel.py)", "datetime.timezone as in C28"]
USES = ["duration"]


def extra(r):
    return r.choice([{}, {"X-P": ["1", "2"]}, {"X-P": ["a"], "X-TZID": ["b"]}])


def roundtrip(conv, v, params, fresh):
    """the value written and read again with the parameters and context that result"""
    p, c = {k: list(x) for k, x in params.items()}, ctx()
    text = conv.serialize(v, p, c)
    p2 = copy_extra_params(p)
    back = conv.parse(text, p2, ctx() if fresh else c)
    return text, p, p2, back


def wire_dt(d):
    return f"{d.year:04}{d.month:02}{d.day:02}T{d.hour:02}{d.minute:02}{d.second:02}"


def tzid_of(tz):
    return None if tz is None or is_utc(tz) else Timezone.from_tzinfo(tz).tzid


def check_params(p, params, tz):
    want = dict(params)
    if tzid_of(tz) is not None:
        want["TZID"] = [tzid_of(tz)]
    return p == want


@lemma("C09", mode="bounded", weight=2, v=Native(lambda r: rand_dt(r, years=r.choice([(1, 9999), (1900, 2100)]))), params=Native(extra), fresh=Native(lambda r: r.random() < .5))
def datetimes(v, params, fresh):
    if tzid_of(v.tzinfo) is not None and not any(v.tzinfo is builtin_tz(n) for n in TZ_NAMES):
        fresh = False
    text, p, p2, back = roundtrip(DatetimeConverter, v, params, fresh)
    prove(text == wire_dt(v) + ("Z" if v.tzinfo is not None and is_utc(v) else ""), "written as the wall clock reading")
    prove(check_params(p, params, v.tzinfo), "written with the TZID of its zone or none")
    prove(back.replace(tzinfo=None, fold=0) == v.replace(tzinfo=None, fold=0), "same wall clock reading")
    prove(same_zone(back.tzinfo, v.tzinfo), "same timezone")
    prove(p2 == params, "the TZID is consumed, other parameters are kept")
    prove(back.microsecond == 0, "whole seconds")


@lemma("C09", mode="bounded", v=Native(lambda r: dt.date(r.choice([1, 999, 2000, 9999, r.randint(1, 9999)]), r.randint(1, 12), r.randint(1, 28))), params=Native(extra))
def dates(v, params):
    text, p, p2, back = roundtrip(DateConverter, v, params, True)
    prove(text == f"{v.year:04}{v.month:02}{v.day:02}", "written as the date")
    prove(type(back) is dt.date and back == v, "same date")
    prove(p == params and p2 == params, "parameters are kept")


def rand_time(r):
    return dt.time(r.randint(0, 23), r.randint(0, 59), r.choice([0, 59, r.randint(0, 59)]), tzinfo=rand_zone(r))


@lemma("C09", mode="bounded", v=Native(rand_time), params=Native(extra))
def times(v, params):
    text, p, p2, back = roundtrip(TimeConverter, v, params, False)
    prove(text == f"{v.hour:02}{v.minute:02}{v.second:02}" + ("Z" if v.tzinfo is not None and is_utc(v.tzinfo) else ""), "written as the wall clock reading")
    prove(check_params(p, params, v.tzinfo), "written with the TZID of its zone or none")
    prove(type(back) is dt.time and back.replace(tzinfo=None) == v.replace(tzinfo=None), "same wall clock reading")
    prove(same_zone(back.tzinfo, v.tzinfo), "same timezone")
    prove(p2 == params, "the TZID is consumed, other parameters are kept")


def rand_period(r):
    tz = rand_zone(r)
    b = rand_dt(r, tz)
    if r.random() < .5:
        return Timespan(b, None, abs(rand_td(r)))
    e = b + abs(rand_td(r))
    try:
        return Timespan(b, e.replace(fold=0))
    except ValueError:
        return Timespan(b, b)


@lemma("C09", mode="bounded", v=Native(rand_period), params=Native(extra))
def periods(v, params):
    text, p, p2, back = roundtrip(PeriodConverter, v, params, False)
    z = "Z" if v.begin_time.tzinfo is not None and is_utc(v.begin_time) else ""
    prove(text.startswith(wire_dt(v.begin_time) + z + "/"), "written with its begin")
    prove(check_params(p, params, v.begin_time.tzinfo), "written with the TZID of its zone or none")
    prove(same_dt(back.begin_time, v.begin_time), "same begin")
    prove(same_dt(back.end_time, v.end_time), "same end")
    prove(back.duration == v.duration, "same duration")
    prove(p2 == params, "the TZID is consumed, other parameters are kept")


@lemma("C09", mode="bounded", v=Native(lambda r: rand_dt(r, None)), z=Native(lambda r: r.choice("Zz")), tzid=Native(lambda r: r.choice(["UTC", "Europe/Berlin", "Custom/A", "Etc/UTC"])), avail=Native(lambda r: r.random() < .5))
def utc_with_tzid(v, z, tzid, avail):
    c = ctx()
    if avail:
        c["DatetimeAvailableTimezones"] = {"Custom/A": zone_pool()[8], "Europe/Berlin": builtin_tz("Europe/Berlin")}
    for conv, text in ((DatetimeConverter, wire_dt(v)), (TimeConverter, wire_dt(v)[9:])):
        try:
            conv.parse(text + z, {"TZID": [tzid]}, c)
            ok = False
        except ValueError:
            ok = True
        prove(ok, "a trailing Z together with a TZID is rejected")


@lemma("C09", mode="bounded", v=Native(lambda r: rand_dt(r, None)), w=Native(lambda r: rand_dt(r, None)), which=Native(lambda r: r.choice(["Europe/Berlin", "Custom/A", "America/New_York"])))
def defined_zones_first(v, w, which):
    """a TZID names the definition in the context, else the built-in one"""
    mine = Timezone_from_offset(which, 7 * H)
    c = ctx()
    c["DatetimeAvailableTimezones"] = {which: mine, "Other": UTC}
    a = DatetimeConverter.parse(wire_dt(v), {"TZID": [which]}, c)
    prove(a == v.replace(tzinfo=mine) and a.tzinfo is mine, "the zone of the context")
    b = DatetimeConverter.parse(wire_dt(w), {"TZID": ["Asia/Kolkata"]}, c)
    prove(same_dt(b, w.replace(tzinfo=builtin_tz("Asia/Kolkata"))), "the built-in zone")


SECONDS = DT(Tz(("naive",)), whole=True, years=None)
PARAMS = DictOf(Text(nonempty=True, exclude=["TZID"]), ListOf(Text()))
ZONES = ["floating", "utc", "defined", "fixed"]
UTC_OBJECTS = Choice(UTC, dt.timezone.utc, dateutil.tz.UTC)


def zone_of(kind, utc, tzid, rule, off, fixed):
    if kind == "floating":
        return None
    if kind == "utc":
        return utc
    if kind == "defined":
        tz = Timezone(tzid, [TimezoneStandardObservance(off, off, rule, tzid)])
        assume(not is_utc(tz))
        return tz
    assume(both(fixed.utcoffset(None) != dt.timedelta(0), fixed.tzname(None) != ""))
    return fixed


def with_tzid(params, tz, name):
    """the params that are written"""
    if tz is None or is_utc(tz):
        return params
    want = copy_extra_params(params)
    want["TZID"] = [name]
    return want


@lemma("C09", cases={"kind": ZONES}, v=SECONDS, params=PARAMS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), rule=Rule(), off=TD(), fixed=Fixed())
def any_datetime(kind, v, params, utc, tzid, rule, off, fixed):
    assume("TZID" not in params)
    tz = zone_of(kind, utc, tzid, rule, off, fixed)
    v = v.replace(tzinfo=tz)
    c = ctx()
    name = None if tz is None or is_utc(tz) else tzid if kind == "defined" else Timezone.from_tzinfo(tz).tzid
    p = copy_extra_params(params)
    text = DatetimeConverter.serialize(v, p, c)
    stamp = "%04d%02d%02dT%02d%02d%02d" % (v.year, v.month, v.day, v.hour, v.minute, v.second)
    prove(text == stamp + ("Z" if kind == "utc" else ""), "written as the wall clock reading")
    prove(p == with_tzid(params, tz, name), "written with the TZID of its zone or none")
    back = DatetimeConverter.parse(text, p, c)
    prove(wall(back) == wall(v), "same wall clock reading")
    prove(p == params, "the TZID is consumed, other parameters are kept")
    if kind == "floating":
        prove(back.tzinfo is None, "same timezone")
    elif kind == "utc":
        prove(is_utc(back), "same timezone")
    elif kind == "defined":
        prove(back.tzinfo is tz, "same timezone")
    else:
        prove(back.tzinfo.utcoffset(v.replace(tzinfo=None)) == fixed.utcoffset(None), "same timezone")
        prove(back.tzinfo.tzid == name, "same timezone")


@lemma("C09", v=Date(), params=PARAMS)
def any_date(v, params):
    assume("TZID" not in params)
    p = copy_extra_params(params)
    text = DateConverter.serialize(v, p, ctx())
    prove(text == "%04d%02d%02d" % (v.year, v.month, v.day), "written as the date")
    prove(p == params, "parameters are kept")
    back = DateConverter.parse(text, p, ctx())
    prove(type(back) is dt.date and back == v, "same date")
    prove(p == params, "parameters are kept")


@lemma("C09", cases={"kind": ZONES}, v=SECONDS, params=PARAMS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), rule=Rule(), off=TD(), fixed=Fixed())
def any_time(kind, v, params, utc, tzid, rule, off, fixed):
    assume("TZID" not in params)
    tz = zone_of(kind, utc, tzid, rule, off, fixed)
    t = v.time().replace(tzinfo=tz)
    c = ctx()
    name = None if tz is None or is_utc(tz) else tzid if kind == "defined" else Timezone.from_tzinfo(tz).tzid
    p = copy_extra_params(params)
    text = TimeConverter.serialize(t, p, c)
    prove(text == "%02d%02d%02d" % (t.hour, t.minute, t.second) + ("Z" if kind == "utc" else ""), "written as the wall clock reading")
    prove(p == with_tzid(params, tz, name), "written with the TZID of its zone or none")
    back = TimeConverter.parse(text, p, c)
    prove(type(back) is dt.time, "same wall clock reading")
    prove(both(back.hour == t.hour, both(back.minute == t.minute, both(back.second == t.second, back.microsecond == 0))), "same wall clock reading")
    prove(p == params, "the TZID is consumed, other parameters are kept")
    if kind == "floating":
        prove(back.tzinfo is None, "same timezone")
    elif kind == "utc":
        prove(is_utc(back), "same timezone")
    elif kind == "defined":
        prove(back.tzinfo is tz, "same timezone")
    else:
        prove(back.tzinfo.utcoffset(v) == fixed.utcoffset(None), "same timezone")
        prove(back.tzinfo.tzid == name, "same timezone")


@lemma("C09", cases={"kind": ZONES, "ends": ["end", "duration"]}, v=SECONDS, w=SECONDS, span=TD(whole=True, lo=dt.timedelta(0)), params=PARAMS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), rule=Rule(), off=TD(), fixed=Fixed())
def any_period(kind, ends, v, w, span, params, utc, tzid, rule, off, fixed):
    assume("TZID" not in params)
    tz = zone_of(kind, utc, tzid, rule, off, fixed)
    v = v.replace(tzinfo=tz)
    w = w.replace(tzinfo=tz)
    try:
        period = Timespan(v, w) if ends == "end" else Timespan(v, None, span)
    except (ValueError, OverflowError):
        assume(False)
    c = ctx()
    name = None if tz is None or is_utc(tz) else tzid if kind == "defined" else Timezone.from_tzinfo(tz).tzid
    p = copy_extra_params(params)
    text = PeriodConverter.serialize(period, p, c)
    prove(p == with_tzid(params, tz, name), "written with the TZID of its zone or none")
    back = PeriodConverter.parse(text, p, c)
    prove(p == params, "the TZID is consumed, other parameters are kept")
    prove(wall(back.begin_time) == wall(v), "same begin")
    if ends == "duration":
        prove(both(back.end_time is None, back.duration == span), "same end")
    else:
        prove(both(back.duration is None, wall(back.end_time) == wall(w)), "same end")
    for x in (back.begin_time, back.end_time):
        if x is not None:
            if kind == "floating":
                prove(x.tzinfo is None, "same timezone")
            elif kind == "utc":
                prove(is_utc(x), "same timezone")
            elif kind == "defined":
                prove(x.tzinfo is tz, "same timezone")
            else:
                prove(x.tzinfo.tzid == name, "same timezone")


@lemma("C09", cases={"conv": [DatetimeConverter, TimeConverter], "z": ["Z", "z"]}, v=SECONDS, tzid=Text(nonempty=True), rest=PARAMS)
def any_utc_with_tzid(conv, z, v, tzid, rest):
    text = conv.serialize(v if conv is DatetimeConverter else v.time()) + z
    params = copy_extra_params(rest)
    params["TZID"] = [tzid]
    try:
        conv.parse(text, params, ctx())
        ok = False
    except ValueError:
        ok = True
    prove(ok, "a trailing Z together with a TZID is rejected")


@lemma("C09", v=SECONDS, which=Text(nonempty=True), other=Text(nonempty=True), rule=Rule(), off=TD())
def any_defined_zone_first(v, which, other, rule, off):
    mine = Timezone(which, [TimezoneStandardObservance(off, off, rule, which)])
    c = ctx()
    c["DatetimeAvailableTimezones"] = {other: UTC}
    c["DatetimeAvailableTimezones"][which] = mine
    a = DatetimeConverter.parse(DatetimeConverter.serialize(v), {"TZID": [which]}, c)
    prove(wall(a) == wall(v), "the zone of the context")
    prove(a.tzinfo is mine, "the zone of the context")


@lemma("C09", cases={"kinds": [(a, b) for a in ZONES[1:] for b in ZONES[1:] if (a, b) != ("utc", "utc")]}, v=SECONDS, w=SECONDS, rest=PARAMS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), rule=Rule(), off=TD(), fixed=Fixed(), tzid2=Text(nonempty=True), rule2=Rule(), off2=TD(), fixed2=Fixed())
def periods_between_zones(kinds, v, w, rest, utc, tzid, rule, off, fixed, tzid2, rule2, off2, fixed2):
    """a period has one TZID"""
    assume("TZID" not in rest)
    params = copy_extra_params(rest)
    a = zone_of(kinds[0], utc, tzid, rule, off, fixed)
    b = zone_of(kinds[1], utc, tzid2, rule2, off2, fixed2)
    if not is_utc(a) and not is_utc(b):
        assume(Timezone.from_tzinfo(a).tzid != Timezone.from_tzinfo(b).tzid)
    try:
        period = Timespan(v.replace(tzinfo=a), w.replace(tzinfo=b))
    except (ValueError, OverflowError):
        assume(False)
    try:
        PeriodConverter.serialize(period, params, ctx())
        ok = False
    except ValueError:
        ok = True
    prove(ok, "periods between different zones are refused")


def rand_mixed(r):
    z = [rand_zone(r) for _ in range(2)]
    return [rand_dt(r, x, (1990, 2030)).replace(fold=0) for x in z]


@lemma("C09", mode="bounded", bounds=Native(rand_mixed), params=Native(extra))
def mixed_periods(bounds, params):
    try:
        v = Timespan(*bounds)
    except (ValueError, TypeError):
        return
    p, c = {k: list(x) for k, x in params.items()}, ctx()
    try:
        text = PeriodConverter.serialize(v, p, c)
    except ValueError:
        prove(tzid_of(v.begin_time.tzinfo) != tzid_of(v.end_time.tzinfo), "periods in one zone are written")
        return
    back = PeriodConverter.parse(text, p, c)
    for x, y in ((v.begin_time, back.begin_time), (v.end_time, back.end_time)):
        prove(same_dt(x, y) or tzid_of(v.begin_time.tzinfo) == tzid_of(v.end_time.tzinfo), "the same times in the same zones")
