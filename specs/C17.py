"""C17: property values keep their parameters and grouping through a round trip"""
from specs.comps import *
from ics.contentline.container import escape_param
from ics.converter.component import ComponentMeta
from ics.types import copy_extra_params

NOTE = "begin, end, due and duration, texts, timestamps and other single values, organizers and values on two or three lines keep their parameters, and each kind of wrong line is rejected with anything unknown around it: proved for all values, parameters and lengths; more values per property, attendees and attachments are bounded"
ASSUMPTIONS = ["a Timezone object is found again by the identifier it was written with (C19)", "unescape_text inverts escape_text (C01), split_value_list inverts join_value_list for escaped texts (C02, bounded) and durations survive (C07)"]
USES = ["duration", "text", "text_list"]


def esc(s):
    return s.replace("\\", "\\\\").replace(";", "\\;").replace(",", "\\,").replace("\n", "\\n")


def times_of(r, todo):
    """lines for begin, end, due, duration"""
    out = []
    k = r.random()
    d = dt.datetime(2020, 3, r.randint(1, 28), r.randint(0, 23), r.randint(0, 59))
    day = r.random() < .3
    form = r.choice(["local", "utc", "zone"])

    def line(name, v):
        p = rand_params1(r)
        if day:
            p["VALUE"] = ["DATE"]
            return (name, p, v.strftime("%Y%m%d"))
        if form == "zone":
            p["TZID"] = [builtin_tz(r.choice(TZ_NAMES[:2])).tzid]
        return (name, p, v.strftime("%Y%m%dT%H%M%S") + ("Z" if form == "utc" else ""))
    end = "DUE" if todo else "DTEND"
    if k < .15:
        return [line(end, d)] if todo and r.random() < .5 else []
    out.append(line("DTSTART", d))
    if k < .5:
        out.append(line(end, d + dt.timedelta(r.choice([1, 2, 10]))))
    elif k < .8:
        out.append(("DURATION", rand_params1(r), r.choice(["P1D", "P2D"]) if day else r.choice(["PT1H", "P1DT2H3M4S", "PT5M", "T0S".replace("T0S", "PT0S")])))
    return out


def single(r, name, value):
    return (name, rand_params1(r), value)


def texts(r):
    t = rand_text1(r)
    return esc(t)


def entry_lines(r, todo):
    out = times_of(r, todo)
    opt = [("SUMMARY", texts), ("UID", lambda r: esc(rand_uid(r))), ("DESCRIPTION", texts), ("LOCATION", texts), ("STATUS", lambda r: r.choice(["TENTATIVE", "CONFIRMED", "CANCELLED"])),
           ("CREATED", lambda r: "20200101T000000Z"), ("LAST-MODIFIED", lambda r: "20210203T040506Z"), ("DTSTAMP", lambda r: "20200101T010101Z"), ("URL", lambda r: "http://example.org/x?a=b")]
    if todo:
        opt += [("PERCENT", lambda r: str(r.randint(0, 100))), ("PRIORITY", lambda r: str(r.randint(0, 9))), ("COMPLETED", lambda r: r.choice(["20200101T010101Z", "20200101T010101"]))]
    else:
        opt += [("CLASSIFICATION", lambda r: "PUBLIC"), ("TRANSPARENT", lambda r: r.choice(["TRUE", "FALSE"])), ("GEO", lambda r: "1.500000;-2.250000"), ("ORGANIZER", lambda r: "mailto:a@b.c")]
    for n, f in opt:
        if r.random() < .35 or n in ("UID", "DTSTAMP"):
            out.append(single(r, n, f(r)))
    for _ in range(r.choice([0, 0, 1, 3])):
        p = rand_params1(r)
        if r.random() < .5:
            p["VALUE"] = ["BINARY"]
            out.append(("ATTACH", p, "AGJpbmFyeQ=="))
        else:
            out.append(("ATTACH", p, "http://example.org/a"))
    if not todo:
        for _ in range(r.choice([0, 0, 1, 3])):
            out.append(("ATTENDEE", rand_params1(r), r.choice(["mailto:a@b.c", "mailto:d@e.f"])))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            out.append(("CATEGORIES", rand_params1(r), ",".join(esc(r.choice(["a", "b", "x,y", "p;q", "l\nm", "\\", "WORK"])) for _ in range(r.choice([1, 1, 2, 4])))))
    r.shuffle(out)
    return out


def by_name(items):
    d = {}
    for x in items:
        d.setdefault(x[0], []).append(({k: [str(v) for v in vs] for k, vs in x[1].items()}, x[2]))
    return d


def shapes(c):
    return by_name([(x.name, x.params, x.value) for x in c if isinstance(x, ContentLine)])


@lemma("C17", mode="bounded", weight=2, todo=Native(lambda r: r.random() < .4), seed=Native(lambda r: r.getrandbits(40)))
def lines_survive(todo, seed):
    """reading and writing canonical lines yields the same lines for each property: values, parameters and grouping"""
    import random
    lines = entry_lines(random.Random(seed), todo)
    cls = Todo if todo else Event
    src = Container(cls.NAME, [ContentLine(n, {k: list(v) for k, v in p.items()}, v) for n, p, v in lines])
    e = cls.from_container(src)
    out, context = written(e)
    want, got = by_name(lines), shapes(out)
    prove(set(want) == set(got), "the same properties are written")
    for n in want:
        prove(want[n] == got.get(n), "the same values with the same parameters on the same lines")
    f = cls.from_container(out, context)
    prove(same_component(e, f), "equal attributes")
    prove(same_extra_params(e.extra_params, f.extra_params), "the same extra parameters")


def same_extra_params(a, b):
    """absent and empty parameters are the same"""
    def norm(x):
        return {k: v for k, v in ((k, [dict(p) for p in v] if isinstance(v, list) else dict(v)) for k, v in x.items()) if v}
    return norm(a) == norm(b)


def rand_comp(r):
    k = r.random()
    c = rand_entry(r, Event) if k < .5 else rand_entry(r, Todo) if k < .8 else rand_alarm(r)
    import attr
    conv = {"begin": "BEGIN", "end": "END", "due": "DUE", "duration": "DURATION"}
    for f in ["summary", "description", "location", "uid", "status", "url", "trigger", "percent", "completed", "geo"]:
        if getattr(c, f, None) is not None and r.random() < .4:
            c.extra_params[f.upper()] = rand_params1(r)
    t = getattr(c, "timespan", None)
    if t is not None:
        if t.begin_time is not None and r.random() < .5:
            c.extra_params["BEGIN"] = rand_params1(r)
        if t.end_time is not None and r.random() < .5:
            c.extra_params["DUE" if isinstance(c, Todo) else "END"] = rand_params1(r)
        if t.duration is not None and r.random() < .5:
            c.extra_params["DURATION"] = rand_params1(r)
    for f in ["categories"]:
        vs = getattr(c, f, None)
        if vs and r.random() < .6:
            ps, i = [], 0
            while i < len(vs):
                n = r.randint(1, len(vs) - i)
                p = rand_params1(r)
                for j in range(n):
                    ps.append({**p, "__merge_next": ["TRUE" if j < n - 1 else "FALSE"]})
                i += n
            c.extra_params[f.upper()] = ps
    return c


@lemma("C17", mode="bounded", weight=2, c=Native(rand_comp))
def components_survive(c):
    """writing and reading any component yields equal attributes and parameters"""
    out, context = written(c)
    d = type(c).from_container(out, context) if not isinstance(c, BaseAlarm) else BaseAlarm.from_container(out, context)
    prove(type(d) is type(c), "the same kind")
    prove(differing(c, d) == [], "equal attributes")
    for k, v in c.extra_params.items():
        got = d.extra_params.get(k)
        if isinstance(v, list):
            prove([strip(x) for x in got] == [strip(x) for x in v], "the same extra parameters for each value")
            prove([x.get("__merge_next") for x in got] == [x.get("__merge_next") for x in v], "the same values share a line")
        else:
            prove((got or {}) == v, "the same extra parameters")
    out2, _ = written(d)
    prove([plain(x) for x in out2] == [plain(x) for x in out] or isinstance(c, Timezone), "writing it again yields the same")


def strip(p):
    return {k: v for k, v in p.items() if k != "__merge_next"}


def rejected(cls, lines):
    c = Container(cls.NAME, [ContentLine(n, dict(p), v) for n, p, v in lines])
    try:
        cls.from_container(c)
    except ValueError:
        return True
    return False


ONCE = {Event: ["SUMMARY", "UID", "DESCRIPTION", "LOCATION", "STATUS", "CREATED", "LAST-MODIFIED", "DTSTAMP", "URL", "CLASSIFICATION", "TRANSPARENT", "GEO", "ORGANIZER", "DTSTART", "DTEND", "DURATION"],
        Todo: ["SUMMARY", "UID", "STATUS", "CREATED", "PERCENT", "PRIORITY", "COMPLETED", "DTSTART", "DUE", "DURATION"]}
GOOD = {"SUMMARY": "x", "UID": "u", "DESCRIPTION": "d", "LOCATION": "l", "STATUS": "CONFIRMED", "CREATED": "20200101T000000Z", "LAST-MODIFIED": "20200101T000000Z", "DTSTAMP": "20200101T000000Z", "URL": "http://a/",
        "CLASSIFICATION": "PUBLIC", "TRANSPARENT": "TRUE", "GEO": "1.0;2.0", "ORGANIZER": "mailto:a@b", "PERCENT": "3", "PRIORITY": "1", "COMPLETED": "20200101T000000Z",
        "DTSTART": "20200101T000000", "DTEND": "20200102T000000", "DUE": "20200102T000000", "DURATION": "PT1H", "ATTACH": "http://a/", "CATEGORIES": "a,b", "ATTENDEE": "mailto:a@b"}


@lemma("C17", mode="bounded", cls=Choice(Event, Todo), k=Native(lambda r: r.random()), k2=Native(lambda r: r.random()), params=Native(rand_params1), seed=Native(lambda r: r.getrandbits(30)))
def wrong_lines_are_rejected(cls, k, k2, params, seed):
    import random
    r = random.Random(seed)
    name = ONCE[cls][int(k * len(ONCE[cls]))]
    base = [(n, rand_params1(r), GOOD[n]) for n in ONCE[cls] if n not in ("DTSTART", "DTEND", "DUE", "DURATION") and r.random() < .3 and n != name]
    if name in ("DTEND", "DURATION", "DUE"):
        base.append(("DTSTART", {}, GOOD["DTSTART"]))
    line = (name, params, GOOD[name])
    x = base + [line]
    r.shuffle(x)
    prove(not rejected(cls, x), "valid lines are accepted")
    y = x + [(name, {}, GOOD[name])]
    r.shuffle(y)
    prove(rejected(cls, y), "a second occurrence is rejected")
    bad = r.choice(["X-UNKNOWN", "PERIOD", "BOOLEAN"] + (["TEXT"] if name not in ("SUMMARY", "UID", "DESCRIPTION", "LOCATION", "STATUS", "CLASSIFICATION", "URL") else ["BINARY"]) + ([] if name in ("DURATION",) else ["DURATION"]))
    if name == "TRANSPARENT" and bad == "BOOLEAN":
        bad = "TEXT"
    y = base + [(name, {**params, "VALUE": [bad]}, GOOD[name])]
    r.shuffle(y)
    prove(rejected(cls, y), "an unsupported VALUE type is rejected")
    other = "DTEND" if cls is Todo else "DUE"
    y = [("DTSTART", {}, GOOD["DTSTART"]), (other, {}, GOOD[other])]
    r.shuffle(y)
    prove(rejected(cls, base_no_times(base) + y), "DUE in an event and DTEND in a todo are rejected")
    end = "DUE" if cls is Todo else "DTEND"
    y = [("DTSTART", {"VALUE": ["DATE"]} if k2 < .5 else {}, "20200101" if k2 < .5 else "20200101T000000"), (end, {} if k2 < .5 else {"VALUE": ["DATE"]}, "20200103T000000" if k2 < .5 else "20200103")]
    r.shuffle(y)
    prove(rejected(cls, base_no_times(base) + y), "mixed date and date-time is rejected")
    y = x + [(r.choice(["ATTACH"]), {"VALUE": [r.choice(["TEXT", "DATE", "X"])]}, GOOD["ATTACH"])]
    prove(rejected(cls, y), "an unsupported VALUE type is rejected")


def base_no_times(b):
    return [x for x in b if x[0] not in ("DTSTART", "DTEND", "DUE", "DURATION")]


REQUIRED = [("VCALENDAR", ["VERSION:2.0", "PRODID:x"], 2), ("VTIMEZONE", ["TZID:x", "BEGIN:STANDARD", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200", "DTSTART:19900101T000000", "END:STANDARD"], 0)]


@lemma("C17", mode="bounded", which=Native(lambda r: r.choice(["VERSION", "PRODID", "TZID", "TZOFFSETFROM", "TZOFFSETTO", "DTSTART"])), extra=Native(lambda r: rand_unknown(r)), dst=Native(lambda r: r.random() < .5))
def missing_properties_are_rejected(which, extra, dst):
    sub = "DAYLIGHT" if dst else "STANDARD"
    cal = [ContentLine("VERSION", {}, "2.0"), ContentLine("PRODID", {}, "x"), extra]
    obs = [ContentLine("TZOFFSETFROM", {}, "+0100"), ContentLine("TZOFFSETTO", {}, "+0200"), ContentLine("DTSTART", {}, "19900101T000000"), extra]
    tz = [ContentLine("TZID", {}, "x"), extra]

    def load(skip):
        o = Container(sub, [x for x in obs if x.name != skip])
        z = Container("VTIMEZONE", [x for x in tz if x.name != skip] + [o])
        return Calendar(Container("VCALENDAR", [x for x in cal if x.name != skip] + [z]))
    load(None)
    try:
        load(which)
        ok = False
    except ValueError:
        ok = True
    prove(ok, "a missing required property is rejected")


# ------------------------------------------------------------------ deductive part
SECONDS = DT(Tz(("naive",)), whole=True, years=None)
PARAMS = DictOf(Text(nonempty=True), ListOf(Text()))
ZONES = ["floating", "utc", "defined", "fixed"]
UTC_OBJECTS = Choice(UTC, dt.timezone.utc, dateutil.tz.UTC)


def zone_of(kind, utc, tzid, rule, off, fixed):
    if kind == "floating":
        return None
    if kind == "utc":
        return utc
    if kind == "defined":
        tz = Timezone(tzid, [TimezoneStandardObservance(off, off, rule, tzid)])
        assume(not is_utc(tz))
        return tz
    assume(both(fixed.utcoffset(None) != dt.timedelta(0), fixed.tzname(None) != ""))
    return fixed


def same_time(x, y, kind, tz):
    """read back in the same zone"""
    prove(wall(x) == wall(y), "the same times")
    if kind == "floating":
        prove(x.tzinfo is None, "the same times")
    elif kind == "utc":
        prove(is_utc(x), "the same times")
    elif kind == "defined":
        prove(x.tzinfo is tz, "the same times")
    else:
        prove(x.tzinfo.utcoffset(y.replace(tzinfo=None)) == tz.utcoffset(None), "the same times")


@lemma("C17", cases={"cls": [Event, Todo], "kind": ZONES, "ends": ["none", "end", "duration"]}, v=SECONDS, w=SECONDS, span=TD(whole=True, lo=dt.timedelta(0)), p=PARAMS, q=PARAMS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), rule=Rule(), off=TD(), fixed=Fixed())
def times_keep_their_parameters(cls, kind, ends, v, w, span, p, q, utc, tzid, rule, off, fixed):
    assume(both("TZID" not in p, "VALUE" not in p))
    assume(both("TZID" not in q, "VALUE" not in q))
    tz = zone_of(kind, utc, tzid, rule, off, fixed)
    v = v.replace(tzinfo=tz)
    w = w.replace(tzinfo=tz)
    T = EventTimespan if cls is Event else TodoTimespan
    try:
        t = T(v, w) if ends == "end" else T(v, None, span) if ends == "duration" else T(v)
    except (ValueError, OverflowError):
        assume(False)
    x = cls(timespan=t, uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    end = "END" if cls is Event else "DUE"
    x.extra_params["BEGIN"] = p
    if ends != "none":
        x.extra_params["DURATION" if ends == "duration" else end] = q
    c = ctx()
    out = x.to_container(c)
    y = cls.from_container(out, c)
    prove(type(y.timespan) is T, "the same times")
    same_time(y.timespan.begin_time, v, kind, tz)
    if ends == "end":
        same_time(y.timespan.end_time, w, kind, tz)
        prove(y.timespan.duration is None, "the same times")
    else:
        prove(y.timespan.end_time is None, "the same times")
        prove(y.timespan.duration == (span if ends == "duration" else None), "the same times")
    prove(y.timespan.precision == "second", "the same precision")
    prove(y.extra_params.get("BEGIN", {}) == p, "the same parameters of the begin")
    prove(ends == "none" or y.extra_params.get("DURATION" if ends == "duration" else end, {}) == q, "the same parameters of the end")
    prove(x.extra_params["BEGIN"] == p, "the parameters of the original are kept")


@lemma("C17", cases={"cls": [Event, Todo], "ends": ["none", "end", "duration"]}, v=Date(), w=Date(), days=Int(lo=1), p=PARAMS, q=PARAMS)
def days_keep_their_parameters(cls, ends, v, w, days, p, q):
    assume(both("TZID" not in p, "VALUE" not in p))
    assume(both("TZID" not in q, "VALUE" not in q))
    T = EventTimespan if cls is Event else TodoTimespan
    b = dt.datetime(v.year, v.month, v.day)
    e = dt.datetime(w.year, w.month, w.day)
    try:
        span = dt.timedelta(days)
        t = T(b, e, None, "day") if ends == "end" else T(b, None, span, "day") if ends == "duration" else T(b, None, None, "day")
    except (ValueError, OverflowError):
        assume(False)
    x = cls(timespan=t, uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    end = "END" if cls is Event else "DUE"
    x.extra_params["BEGIN"] = p
    if ends != "none":
        x.extra_params["DURATION" if ends == "duration" else end] = q
    c = ctx()
    out = x.to_container(c)
    y = cls.from_container(out, c)
    prove(type(y.timespan) is T and y.timespan.precision == "day", "the same precision")
    prove(y.timespan.begin_time == b, "the same times")
    prove(y.timespan.end_time == (e if ends == "end" else None), "the same times")
    prove(y.timespan.duration == (span if ends == "duration" else None), "the same times")
    prove(y.extra_params.get("BEGIN", {}) == p, "the same parameters of the begin")
    prove(ends == "none" or y.extra_params.get("DURATION" if ends == "duration" else end, {}) == q, "the same parameters of the end")
    prove(x.extra_params["BEGIN"] == p, "the parameters of the original are kept")
    prove(ends == "none" or x.extra_params["DURATION" if ends == "duration" else end] == q, "the parameters of the original are kept")


@lemma("C17", cases={"kind": ZONES + ["day"]}, w=SECONDS, q=PARAMS, utc=UTC_OBJECTS, tzid=Text(nonempty=True), rule=Rule(), off=TD(), fixed=Fixed())
def due_alone(kind, w, q, utc, tzid, rule, off, fixed):
    assume(both("TZID" not in q, "VALUE" not in q))
    precision = "day" if kind == "day" else "second"
    kind = "floating" if kind == "day" else kind
    tz = zone_of(kind, utc, tzid, rule, off, fixed)
    w = w.replace(tzinfo=tz)
    try:
        t = TodoTimespan(None, w, None, precision)
    except (ValueError, OverflowError):
        assume(False)
    x = Todo(timespan=t, uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    x.extra_params["DUE"] = q
    c = ctx()
    y = Todo.from_container(x.to_container(c), c)
    prove(y.timespan.begin_time is None and y.timespan.duration is None, "the same times")
    same_time(y.timespan.end_time, w, kind, tz)
    prove(y.timespan.precision == precision, "the same precision")
    prove(y.extra_params.get("DUE", {}) == q, "the same parameters of the end")


TEXTS = {Event: ["summary", "description", "location", "uid", "classification"], Todo: ["summary", "description", "location", "uid"]}


@lemma("C17", cases={"cls": [Event, Todo], "attr": ["summary", "description", "location", "uid", "classification"]}, v=Text(), p=PARAMS)
def texts_keep_their_parameters(cls, attr, v, p):
    if attr == "classification" and cls is Todo:
        attr = "summary"
    assume("VALUE" not in p)
    x = cls(uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    setattr(x, attr, v)
    x.extra_params[attr.upper()] = p
    y = cls.from_container(x.to_container())
    prove(getattr(y, attr) == v, "an equal value")
    prove(y.extra_params.get(attr.upper(), {}) == p, "the same extra parameters")
    prove(y == x or p == {}, "equal otherwise")


@lemma("C17", cases={"cls": [Event, Todo], "attr": ["created", "last_modified", "dtstamp", "completed"]}, v=SECONDS, p=PARAMS)
def timestamps_keep_their_parameters(cls, attr, v, p):
    if attr == "completed" and cls is Event:
        attr = "created"
    assume(both("TZID" not in p, "VALUE" not in p))
    x = cls(uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    setattr(x, attr, v.replace(tzinfo=UTC))
    x.extra_params[attr.upper()] = p
    c = ctx()
    y = cls.from_container(x.to_container(c), c)
    z = getattr(y, attr)
    prove(wall(z) == wall(v), "an equal value")
    prove(is_utc(z), "an equal value")
    prove(y.extra_params.get(attr.upper(), {}) == p, "the same extra parameters")


@lemma("C17", cases={"attr": ["percent", "priority", "transparent", "status"]}, n=Int(lo=0, hi=100), b=Bool(), s=Choice("TENTATIVE", "CONFIRMED", "CANCELLED"), p=PARAMS)
def simple_values_keep_their_parameters(attr, n, b, s, p):
    assume("VALUE" not in p)
    cls = Todo if attr in ("percent", "priority") else Event
    x = cls(uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    if attr == "priority":
        assume(n <= 9)
    v = b if attr == "transparent" else s if attr == "status" else n
    setattr(x, attr, v)
    x.extra_params[attr.upper()] = p
    y = cls.from_container(x.to_container())
    prove(getattr(y, attr) == v, "an equal value")
    prove(y.extra_params.get(attr.upper(), {}) == p, "the same extra parameters")


@lemma("C17", v=Uri(), p=PARAMS)
def organizers_keep_their_parameters(v, p):
    assume("VALUE" not in p)
    x = Event(uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    x.organizer = Organizer(v, p)
    y = Event.from_container(x.to_container())
    prove(type(y.organizer) is Organizer and y.organizer.extra == p, "the same extra parameters")
    prove(y.organizer.email == v, "an equal value")


ENTRY = dict(uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))


@lemma("C17", v=Text(), w=Text(), p=PARAMS, q=PARAMS)
def two_lines(v, w, p, q):
    assume("VALUE" not in p)
    assume("VALUE" not in q)
    assume("__merge_next" not in p)
    assume("__merge_next" not in q)
    x = Event(categories=[v, w], **ENTRY)
    x.extra_params["CATEGORIES"] = [p, q]
    y = Event.from_container(x.to_container())
    prove(y.categories == [v, w], "equal values")
    a, b = y.extra_params["CATEGORIES"]
    prove(a.pop("__merge_next") == ["FALSE"] and b.pop("__merge_next") == ["FALSE"], "the same values share a line")
    prove(a == p, "the same extra parameters for each value")
    prove(b == q, "the same extra parameters for each value")


def no_special(p):
    return both("VALUE" not in p, "__merge_next" not in p)


@lemma("C17", v=Text(), w=Text(), u=Text(), p=PARAMS, q=PARAMS)
def shared_line(v, w, u, p, q):
    assume(both(no_special(p), no_special(q)))
    x = Event(categories=[u, v, w], **ENTRY)
    x.extra_params["CATEGORIES"] = [{**p, "__merge_next": ["TRUE"]}, p, q]
    y = Event.from_container(x.to_container())
    prove(y.categories == [u, v, w], "equal values")
    prove(y.extra_params["CATEGORIES"] == [{**p, "__merge_next": ["TRUE"]}, {**p, "__merge_next": ["FALSE"]}, {**q, "__merge_next": ["FALSE"]}], "the same values share a line")


@lemma("C17", cases={"extra": [0, 1, 2]}, v=Text(), w=Text(), k=Text(nonempty=True), l=Text(nonempty=True), a=Text(), b=Text(), c=Text())
def values_sharing_a_line_share_their_parameters(extra, v, w, k, l, a, b, c):
    """or else nothing is written"""
    p, q = {k: [b]}, {l: [c]}
    assume(both(no_special(p), no_special(q)))
    if extra:
        q["X-MORE"] = [a]
    if extra == 2:
        p["X-MORE"] = [a]
    x = Event(categories=[v, w], **ENTRY)
    x.extra_params["CATEGORIES"] = [{**p, "__merge_next": ["TRUE"]}, q]
    try:
        out = x.to_container()
    except ValueError:
        prove(p != q, "only differing parameters are refused")
        return
    prove(p == q, "differing parameters of values on one line are refused")


@lemma("C17", cases={"one": [Event, Todo], "first": ["none", "end", "duration"], "cls": [Event, Todo], "ends": ["none", "end", "duration"], "day": [False, True]}, v=SECONDS, w=SECONDS, span=TD(whole=True, lo=dt.timedelta(0)), p=PARAMS)
def entries_do_not_influence_each_other(one, first, cls, ends, day, v, w, span, p):
    """entries written and read with the same context, as in a calendar"""
    assume(both("TZID" not in p, "VALUE" not in p))
    try:
        a = make_entry(one, first, dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 3), dt.timedelta(3), p, "day" if day else "second")
        x = make_entry(cls, ends, v, w, span, p, "second")
    except (ValueError, OverflowError):
        assume(False)
    c, d = ctx(), ctx()
    out = [a.to_container(c), x.to_container(c), a.to_container(c)]
    a2, y, a3 = one.from_container(out[0], d), cls.from_container(out[1], d), one.from_container(out[2], d)
    end = "END" if cls is Event else "DUE"
    prove(y.timespan.begin_time == v, "the same times")
    prove(y.timespan.end_time == (w if ends == "end" else None), "the same times")
    prove(y.timespan.duration == (span if ends == "duration" else None), "the same times")
    prove(y.timespan.precision == "second", "the same precision")
    prove(y.extra_params.get("BEGIN", {}) == p, "the same parameters of the begin")
    prove(y.extra_params.get("DURATION" if ends == "duration" else end, {}) == ({} if ends == "none" else p), "the same parameters of the end")
    for b in (a2, a3):
        prove(b.timespan == a.timespan and type(b.timespan) is type(a.timespan), "the same times of the others")
        prove(b.extra_params.get("BEGIN", {}) == p, "the same parameters of the others")


def make_entry(cls, ends, v, w, span, p, precision):
    T = EventTimespan if cls is Event else TodoTimespan
    t = T(v, w, None, precision) if ends == "end" else T(v, None, span, precision) if ends == "duration" else T(v, None, None, precision)
    x = cls(timespan=t, uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    x.extra_params["BEGIN"] = p
    if ends != "none":
        x.extra_params["DURATION" if ends == "duration" else "END" if cls is Event else "DUE"] = p
    return x


# wrong lines, with anything unknown around them
ITEMS = ListOf(Tup(Bool(), Text(nonempty=True), Text(), Text()))
LOOKUP = {c: sorted(ComponentMeta.BY_TYPE[c].converter_lookup) for c in (Event, Todo, Calendar, Timezone, TimezoneStandardObservance, TimezoneDaylightObservance)}


def unknown_items(cls, ts):
    """any lines and components with names that components of this class do not know"""
    out = [ContentLine(n, {"X-P": [p]}, v) if is_line else Container(n, [ContentLine(v + "x", value=p)]) for is_line, n, v, p in ts]
    assume(all(x.name not in LOOKUP[cls] for x in out))
    return out


def with_around(cls, lines, a, b, c):
    """any unknown lines and components before, between and after the lines"""
    a, b, c = unknown_items(cls, a), unknown_items(cls, b), unknown_items(cls, c)
    return Container(cls.NAME, a + lines[:1] + b + lines[1:] + c)


def refused(cls, box):
    try:
        cls.from_container(box)
        return False
    except ValueError:
        return True


TIMES = {"DTSTART", "DTEND", "DUE", "DURATION"}


@lemma("C17", cases={"case": [(c, n) for c in (Event, Todo) for n in ONCE[c]]}, a=ITEMS, b=ITEMS, c=ITEMS, p=PARAMS, q=PARAMS)
def second_occurrences_are_rejected(case, a, b, c, p, q):
    """with any parameters and anything unknown around"""
    cls, name = case
    assume(name not in TIMES or both("VALUE" not in p, "VALUE" not in q))
    assume(both("TZID" not in p, "TZID" not in q))
    first = [ContentLine("DTSTART", value=GOOD["DTSTART"])] if name in ("DTEND", "DUE", "DURATION") else []
    box = with_around(cls, first + [ContentLine(name, p, GOOD[name]), ContentLine(name, q, GOOD[name])], a, b, c)
    prove(refused(cls, box), "a second occurrence is rejected")


@lemma("C17", cases={"cls": [Event, Todo]}, a=ITEMS, b=ITEMS, c=ITEMS, p=PARAMS, q=PARAMS)
def end_and_duration_are_rejected(cls, a, b, c, p, q):
    assume(both("VALUE" not in p, "VALUE" not in q))
    assume(both("TZID" not in p, "TZID" not in q))
    end = "DTEND" if cls is Event else "DUE"
    box = with_around(cls, [ContentLine("DTSTART", value=GOOD["DTSTART"]), ContentLine(end, p, GOOD[end]), ContentLine("DURATION", q, "PT1H")], a, b, c)
    prove(refused(cls, box), "an end besides a duration is rejected")


@lemma("C17", cases={"case": [(c, n) for c in (Event, Todo) for n in ONCE[c] + ["ATTACH"] + (["CATEGORIES", "ATTENDEE"] if c is Event else [])]}, a=ITEMS, b=ITEMS, c=ITEMS, p=PARAMS, kind=Text())
def unsupported_types_are_rejected(case, a, b, c, p, kind):
    cls, name = case
    assume("TZID" not in p)
    if name in TIMES:
        supported = ["DURATION"] if name == "DURATION" else ["DATE", "DATE-TIME"]
    else:
        supported = [x.ics_type for x in ComponentMeta.BY_TYPE[cls].converter_lookup[name][0].value_converters]
    assume(both(*[kind != x for x in supported]))
    p["VALUE"] = [kind]
    first = [ContentLine("DTSTART", value=GOOD["DTSTART"])] if name in ("DTEND", "DUE", "DURATION") else []
    prove(refused(cls, with_around(cls, first + [ContentLine(name, p, GOOD[name])], a, b, c)), "an unsupported VALUE type is rejected")


@lemma("C17", cases={"cls": [Event, Todo]}, a=ITEMS, b=ITEMS, c=ITEMS, p=PARAMS, q=PARAMS)
def wrong_ends_are_rejected(cls, a, b, c, p, q):
    assume(both("VALUE" not in p, "VALUE" not in q))
    assume(both("TZID" not in p, "TZID" not in q))
    end = "DTEND" if cls is Todo else "DUE"
    prove(refused(cls, with_around(cls, [ContentLine("DTSTART", p, GOOD["DTSTART"]), ContentLine(end, q, GOOD[end])], a, b, c)), "DUE in an event and DTEND in a todo are rejected")
    prove(refused(cls, with_around(cls, [ContentLine(end, q, GOOD[end]), ContentLine("DTSTART", p, GOOD["DTSTART"])], a, b, c)), "in any order")


@lemma("C17", cases={"cls": [Event, Todo], "first": [True, False], "day": [True, False]}, a=ITEMS, b=ITEMS, c=ITEMS, p=PARAMS, q=PARAMS)
def mixed_precision_is_rejected(cls, first, day, a, b, c, p, q):
    assume(both("VALUE" not in p, "VALUE" not in q))
    assume(both("TZID" not in p, "TZID" not in q))
    end = "DUE" if cls is Todo else "DTEND"
    (p if day else q)["VALUE"] = ["DATE"]
    lines = [ContentLine("DTSTART", p, "20200101" if day else "20200101T000000"), ContentLine(end, q, "20200103T000000" if day else "20200103")]
    prove(refused(cls, with_around(cls, lines if first else lines[::-1], a, b, c)), "mixed date and date-time is rejected")


@lemma("C17", cases={"missing": ["VERSION", "PRODID", "TZID", "TZOFFSETFROM", "TZOFFSETTO", "DTSTART"], "cls": [TimezoneStandardObservance, TimezoneDaylightObservance]}, a=ITEMS, b=ITEMS, c=ITEMS, v=Text(), p=PARAMS)
def missing_properties_are_rejected_anywhere(missing, cls, a, b, c, v, p):
    """with anything unknown around"""
    assume(both("VALUE" not in p, "TZID" not in p))
    obs = Container(cls.NAME, unknown_items(cls, c) + [ContentLine(n, p if n != "DTSTART" else {}, x) for n, x in [("TZOFFSETFROM", "+0100"), ("TZOFFSETTO", "+0200"), ("DTSTART", "19900101T000000")] if n != missing])
    tz = Container("VTIMEZONE", ([ContentLine("TZID", p, "Some/Zone")] if missing != "TZID" else []) + unknown_items(Timezone, b) + [obs])
    box = Container("VCALENDAR", [ContentLine(n, p, x) for n, x in [("VERSION", "2.0"), ("PRODID", "x")] if n != missing] + unknown_items(Calendar, a) + [tz])
    prove(refused(Calendar, box), "a missing required property is rejected")
