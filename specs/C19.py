"""C19: every timezone a calendar refers to is defined in it exactly once"""
from specs.comps import *
from ics.converter.component import ComponentMeta
from ics.timezone import RRULE_EPOCH_START
from ics.valuetype.datetime import DatetimeConverter, TimeConverter
from ics.valuetype.text import TextConverter

NOTE = "proved: each written time records its zone and nothing else, whatever was recorded before; a calendar with any number of entries writes exactly the recorded zones, before the first event; two entries, or the two times of one, in any zones; definitions are used wherever they are, with anything unknown around. Zones known by name and larger calendars are bounded"
ASSUMPTIONS = ["durations and texts survive (C07, C01)"]
USES = ["duration", "text"]
TIMES = ["DTSTART", "DTEND", "DUE", "COMPLETED", "CREATED", "LAST-MODIFIED", "DTSTAMP", "TRIGGER"]
UTC_NAMES = ["UTC", "ETC/UTC"]


def used_tzids(container):
    out = []
    for x in container:
        if isinstance(x, Container):
            if x.name in ("VEVENT", "VTODO", "VALARM"):
                out += used_tzids(x)
        elif x.name in TIMES and "TZID" in x.params:
            out += [str(v) for v in x.params["TZID"]]
    return out


def check_defined(cal, container):
    names = [x.name for x in container]
    used = used_tzids(container)
    vtz = [(i, x) for i, x in enumerate(container) if isinstance(x, Container) and x.name == "VTIMEZONE"]
    tzids = [[l.value for l in x if l.name == "TZID"] for i, x in vtz]
    prove(all(len(t) == 1 for t in tzids), "one TZID for each VTIMEZONE")
    tzids = [t[0] for t in tzids]
    prove(all(tzids.count(t) == 1 for t in used), "each TZID is defined exactly once")
    prove(len(set(tzids)) == len(tzids), "no VTIMEZONE is written twice")
    prove(all(t in used for t in tzids if t.upper() in UTC_NAMES), "no VTIMEZONE for UTC")
    comps = [i for i, n in enumerate(names) if n in ("VEVENT", "VTODO")]
    prove(all(i < min(comps, default=10**9) for i, x in vtz), "VTIMEZONEs come before the first event")


def zones_of(cal):
    out = []
    for e in cal.events + cal.todos:
        for d in [e.timespan.begin_time, e.timespan.end_time, getattr(e, "completed", None), e.created, e.last_modified]:
            if d is not None and d.tzinfo is not None and not is_utc(d):
                z = Timezone.from_tzinfo(d.tzinfo)
                if not any(equal_zone(z, x) for x in out):
                    out.append(z)
    return out


@lemma("C19", mode="bounded", cal=Native(rand_calendar))
def written_definitions(cal):
    c = cal.to_container()
    check_defined(cal, c)
    want = zones_of(cal)
    have = [Timezone.from_container(x) for x in c if x.name == "VTIMEZONE" and isinstance(x, Container)]
    prove(len(want) == len(have) and all(any(equal_zone(z, y) for y in have) for z in want), "exactly the zones of the times are defined, as they are")
    text = cal.serialize()
    back = Calendar(text)
    for a, b in zip(cal.events + cal.todos, back.events + back.todos):
        prove(same_timespan(a.timespan, b.timespan), "the same times in the same zones")


def similar_tzids(r):
    n = r.choice(["A/B", "Europe/Berlin", "x", "UTC+1"])
    return r.sample([n, "/" + n, n + "/", n.lower(), n.upper() + "X", n + " ", "a/" + n, n.split("/")[-1] + "-", n.replace("/", "_")], r.choice([1, 2, 3, 4]))


@lemma("C19", mode="bounded", tzids=Native(similar_tzids), equal=Native(lambda r: r.random() < .6), seed=Native(lambda r: r.getrandbits(40)))
def similar_zones(tzids, equal, seed):
    """zones with the same rules or with similar TZIDs are all defined"""
    import random
    r = random.Random(seed)
    tzids = list(dict.fromkeys(tzids))
    rules = [Timezone_from_offset("?", H * (1 if equal else i + 1)).observances for i in range(len(tzids))]
    zones = [Timezone(tzid=t, observances=o) for t, o in zip(tzids, rules)]
    cal = Calendar()
    used = []
    for i in range(r.choice([1, 2, 4, 6])):
        z = r.choice(zones)
        used.append(z)
        cls = r.choice([Event, Event, Todo])
        (cal.events if cls is Event else cal.todos).append(cls(begin=dt.datetime(2020, 1, 1 + i, tzinfo=z), **({"duration": H} if r.random() < .5 else {})))
    c = cal.to_container()
    check_defined(cal, c)
    have = [Timezone.from_container(x) for x in c if x.name == "VTIMEZONE" and isinstance(x, Container)]
    prove(sorted(z.tzid for z in have) == sorted({z.tzid for z in used}), "exactly the zones of the times are defined")
    back = Calendar(cal.serialize())
    for a, b in zip(cal.events + cal.todos, back.events + back.todos):
        prove(b.begin.tzinfo.tzid == a.begin.tzinfo.tzid and equal_zone(a.begin.tzinfo, b.begin.tzinfo), "the same zone")


@lemma("C19", mode="bounded", cal=Native(rand_calendar), seed=Native(lambda r: r.random()))
def definitions_anywhere(cal, seed):
    """the definition is used wherever it is placed, in preference to a built-in one"""
    import random
    c = cal.to_container().clone(deep=True)
    r = random.Random(seed)
    names = sorted(set(used_tzids(c)))
    # redefine each zone, under its own or a built-in name
    new = {t: ("Europe/Berlin" if i == 0 and r.random() < .5 else t, Timezone_from_offset("?", dt.timedelta(minutes=r.choice([-90, 15, 600])))) for i, t in enumerate(names)}
    new = {t: (n, Timezone_from_offset(n, z.observances[0].tzoffsetto)) for t, (n, z) in new.items()}

    def rename(x):
        for y in x:
            if isinstance(y, Container):
                rename(y)
            elif "TZID" in y.params and y.name in TIMES:
                y.params["TZID"] = [new[str(y.params["TZID"][0])][0]]
    items = [x for x in c if x.name != "VTIMEZONE" or not isinstance(x, Container)]
    for x in items:
        if isinstance(x, Container) and x.name in ("VEVENT", "VTODO"):
            rename(x)
    if len({n for n, z in new.values()}) < len(new):
        return
    # definitions of other names
    decoys = [n for t in list(new.values()) for n in ("/x/" + t[0], t[0] + "/x", t[0].lower(), t[0].split("/")[-1]) if n not in [m for m, z in new.values()] and r.random() < .3]
    def moved(d):
        return d if d is None or d.tzinfo is None or is_utc(d) else d.replace(tzinfo=new[Timezone.from_tzinfo(d.tzinfo).tzid][1])
    for e in cal.events + cal.todos:
        try:
            t = e.timespan
            type(t)(moved(t.begin_time), moved(t.end_time), t.duration, t.precision)
        except ValueError:
            return   # the end would be before the begin
    for n, z in new.values():
        items.insert(r.randint(0, len(items)), z.to_container())
    for n in set(decoys):
        items.insert(r.randint(0, len(items)), Timezone_from_offset(n, dt.timedelta(minutes=-345)).to_container())
    for back in (Calendar(Container("VCALENDAR", items)), Calendar(Container("VCALENDAR", items).serialize())):
        prove(len(back.events) == len(cal.events) and len(back.todos) == len(cal.todos), "every entry is read")
        for a, b in zip(cal.events + cal.todos, back.events + back.todos):
            for x, y in [(a.timespan.begin_time, b.timespan.begin_time), (a.timespan.end_time, b.timespan.end_time)]:
                if x is not None and x.tzinfo is not None and not is_utc(x):
                    n, z = new[Timezone.from_tzinfo(x.tzinfo).tzid]
                    prove(equal_zone(y.tzinfo, z) and y.replace(tzinfo=None, fold=0) == x.replace(tzinfo=None, fold=0), "interpreted with the definition in the calendar")


# ------------------------------------------------------------------ deductive part
AVAIL = "DatetimeAvailableTimezones"
SECONDS = DT(Tz(("naive",)), whole=True, years=None)
STAMP = dt.datetime(2020, 1, 1, tzinfo=UTC)
ZONES = ["floating", "utc", "defined", "fixed"]
UTC_OBJECTS = Choice(UTC, dt.timezone.utc, dateutil.tz.UTC)
PARAMS = DictOf(Text(nonempty=True), ListOf(Text()))


def zone_of(kind, utc, tzid, rule, off, fixed):
    if kind == "floating":
        return None
    if kind == "utc":
        return utc
    if kind == "defined":
        tz = Timezone(tzid, [TimezoneStandardObservance(off, off, rule, tzid)])
        assume(not is_utc(tz))
        return tz
    assume(both(fixed.utcoffset(None) != dt.timedelta(0), fixed.tzname(None) != ""))
    return fixed


@lemma("C19", cases={"kind": ZONES, "conv": [DatetimeConverter, TimeConverter]}, v=SECONDS, defs=DictOf(Text(nonempty=True), Text()), params=PARAMS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), rule=Rule(), off=TD(), fixed=Fixed())
def written_times_are_recorded(kind, conv, v, defs, params, utc, tzid, rule, off, fixed):
    """whatever was recorded before"""
    assume("TZID" not in params)
    tz = zone_of(kind, utc, tzid, rule, off, fixed)
    c = ctx()
    known = {k: z for k, z in defs.items()}
    c[AVAIL] = known
    x = v.replace(tzinfo=tz)
    conv.serialize(x if conv is DatetimeConverter else x.timetz(), params, c)
    prove(c[AVAIL] is known, "recorded in the context")
    if kind in ("floating", "utc"):
        prove("TZID" not in params, "no TZID for UTC or local times")
        prove(known == defs, "nothing is recorded for UTC or local times")
        return
    t = params["TZID"][0]
    prove(len(params["TZID"]) == 1 and t in known, "the zone of the time is recorded")
    if t in defs:
        prove(known == defs, "zones are recorded once")
    else:
        prove(list(known) == list(defs) + [t], "only this zone is recorded")
        prove(known[t].tzid == t and not is_utc(known[t]), "the recorded zone has this TZID")


written_times_are_recorded.optional_claims = True


@lemma("C19", defs=DictOf(Text(nonempty=True), Text()), texts=ListOf(Text()), a=ListOf(Text()), scale=Opt(Text()), method=Opt(Text()))
def recorded_zones_are_written(defs, texts, a, scale, method):
    """each zone in the context is written once, before the first event"""
    ContentLine("X").value = ""
    c = ctx()
    c[AVAIL] = {t: Timezone_from_offset(t, H) for t in defs}
    cal = Calendar(events=[Event(summary=s, uid="u", dtstamp=STAMP) for s in texts], todos=[Todo(uid=s, dtstamp=STAMP) for s in a], scale=scale, method=method)
    out = cal.to_container(c)
    plain_ones = cal.to_container().data
    n = 2 + (scale is not None) + (method is not None)
    prove(both(*[x.name in ("VERSION", "PRODID", "SCALE", "METHOD") for x in plain_ones[:n]]), "VTIMEZONEs come before the first event")
    prove(out.data == plain_ones[:n] + [z.to_container() for z in c[AVAIL].values()] + plain_ones[n:], "exactly the recorded zones are written, each once")


@lemma("C19", cases={"kinds": [(a, b) for a in ZONES for b in ZONES if (a, b) != ("fixed", "fixed")]}, v=SECONDS, w=SECONDS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), fixed=Fixed(), tzid2=Text(nonempty=True))
def two_entries(kinds, v, w, utc, tzid, fixed, tzid2):
    k1, k2 = kinds
    z1 = zone_of(k1, utc, tzid, RRULE_EPOCH_START, H, fixed)
    z2 = zone_of(k2, utc, tzid2, RRULE_EPOCH_START, 2 * H, fixed)
    cal = Calendar(events=[Event(timespan=EventTimespan(v.replace(tzinfo=z1)), uid="u", dtstamp=STAMP)], todos=[Todo(timespan=TodoTimespan(w.replace(tzinfo=z2)), uid="u", dtstamp=STAMP)])
    out = cal.to_container()
    used = [z for k, z in ((k1, z1), (k2, z2)) if k in ("defined", "fixed")]
    ids = [Timezone.from_tzinfo(z).tzid for z in used]
    if len(ids) == 2:
        ids = ids if ids[0] != ids[1] else ids[:1]
    prove([x.name for x in out] == ["VERSION", "PRODID"] + ["VTIMEZONE" for _ in ids] + ["VEVENT", "VTODO"], "VTIMEZONEs come before the first event")
    prove([[y.value for y in x if y.name == "TZID"] for x in out["VTIMEZONE"]] == [[TextConverter.escape_text(t)] for t in ids], "exactly the zones of the times are defined")


@lemma("C19", cases={"kinds": [(a, b) for a in ZONES[1:] for b in ZONES[1:] if (a, b) != ("fixed", "fixed")], "cls": [Event, Todo]}, v=SECONDS, w=SECONDS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), fixed=Fixed(), tzid2=Text(nonempty=True))
def both_times_of_an_entry(kinds, cls, v, w, utc, tzid, fixed, tzid2):
    """a begin and an end in different zones"""
    k1, k2 = kinds
    z1 = zone_of(k1, utc, tzid, RRULE_EPOCH_START, H, fixed)
    z2 = zone_of(k2, utc, tzid2, RRULE_EPOCH_START, 2 * H, fixed)
    try:
        t = (EventTimespan if cls is Event else TodoTimespan)(v.replace(tzinfo=z1), w.replace(tzinfo=z2))
    except (ValueError, OverflowError):
        assume(False)
    x = cls(timespan=t, uid="u", dtstamp=STAMP)
    out = (Calendar(events=[x]) if cls is Event else Calendar(todos=[x])).to_container()
    used = [z for k, z in ((k1, z1), (k2, z2)) if k in ("defined", "fixed")]
    ids = [Timezone.from_tzinfo(z).tzid for z in used]
    if len(ids) == 2:
        ids = ids if ids[0] != ids[1] else ids[:1]
    prove([x.name for x in out] == ["VERSION", "PRODID"] + ["VTIMEZONE" for _ in ids] + [cls.NAME], "VTIMEZONEs come before the first event")
    prove([[y.value for y in x if y.name == "TZID"] for x in out["VTIMEZONE"]] == [[TextConverter.escape_text(t)] for t in ids], "exactly the zones of the times are defined")


ITEMS = ListOf(Tup(Bool(), Text(nonempty=True), Text(), Text()))
LOOKUP = sorted(ComponentMeta.BY_TYPE[Calendar].converter_lookup)


def unknown_items(ts):
    """any lines and components with names that calendars do not know"""
    out = [ContentLine(n, {"X-P": [p]}, v) if is_line else Container(n, [ContentLine(v + "x", value=p)]) for is_line, n, v, p in ts]
    assume(all(x.name not in LOOKUP for x in out))
    return out


def definition(t, off):
    obs = Container("STANDARD", [ContentLine("DTSTART", value="19700101T000000"), ContentLine("TZOFFSETFROM", value="+0000"), ContentLine("TZOFFSETTO", value=off)])
    return Container("VTIMEZONE", [ContentLine("TZID", value=TextConverter.escape_text(t)), obs])


@lemma("C19", cases={"order": ["zoe", "oze", "ezo", "oez", "zeo", "eoz", "ze", "ez"], "todo": [False, True]}, a=ITEMS, b=ITEMS, tzid=Choice(Text(nonempty=True), "Europe/Berlin", "UTC"), other=Text(nonempty=True))
def definitions_are_used_anywhere(order, todo, a, b, tzid, other):
    """the definition of the zone (z), that of another zone (o), an event (e), in any order, with anything unknown around"""
    assume(tzid != other)
    a, b = unknown_items(a), unknown_items(b)
    entry = Container("VTODO" if todo else "VEVENT", [ContentLine("DTSTART", {"TZID": [tzid]}, "20200101T000000"), ContentLine("UID", value="u"), ContentLine("DTSTAMP", value="20200101T000000Z")])
    parts = {"z": definition(tzid, "+0300"), "o": definition(other, "-0545"), "e": entry}
    items = [parts[k] for k in order if k in parts]
    lead = [ContentLine("VERSION", value="2.0"), ContentLine("PRODID", value="x")]
    cal = Calendar.from_container(Container("VCALENDAR", a + items[:1] + lead + items[1:] + b))
    x = (cal.todos if todo else cal.events)[0].begin
    prove(isinstance(x.tzinfo, Timezone) and x.tzinfo.tzid == tzid, "interpreted with the definition in the calendar")
    prove(x.tzinfo.observances[0].tzoffsetto == 3 * H and len(x.tzinfo.observances) == 1, "interpreted with the definition in the calendar")
    prove(x.replace(tzinfo=None) == dt.datetime(2020, 1, 1), "the same local time")
