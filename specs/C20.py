"""C20: attribute assignment validates like construction and is all-or-nothing"""
import attr
from specs.comps import *
from ics.component import Component

NOTE = "every attribute of every class, with any None, bool, int, text, datetime, date, timedelta or list of texts (and timespans and persons where they matter) before and after, is proved; other values, longer histories and derived subclasses are bounded"
ASSUMPTIONS = []
Z = dt.timezone.utc
BAD = object()


def any_dt(r):
    return rand_dt(r)


def dt_like(r):
    return r.choice([rand_dt(r), rand_dt(r, Z), dt.date(2020, r.randint(1, 12), 3), (2020, 1, 2, 3), {"year": 2020, "month": 5, "day": 6, "tzinfo": Z}, (2020, 1, 2), None, "2020", 5])


def rand_timespan(r):
    b = rand_dt(r)
    k = r.choice([Timespan, EventTimespan, TodoTimespan])
    x = r.random()
    return k(b) if x < .3 else k(b, None, abs(rand_td(r))) if x < .7 else k(b, b) if x < .9 else k()


POOL = {
    "timespan": lambda r: r.choice([rand_timespan(r), rand_timespan(r), None, 5, rand_dt(r)]),
    "status": lambda r: r.choice([None, "TENTATIVE", "tentative", "Confirmed", "CANCELLED", "cancelled", "BOGUS", "", 5, "NEEDS-ACTION"]),
    "created": dt_like, "last_modified": dt_like, "dtstamp": dt_like, "completed": dt_like,
    "percent": lambda r: r.choice([None, 0, 1, 50, 100, 101, -1, "5", 1.5, True, r.randint(-5, 110)]),
    "priority": lambda r: r.choice([None, 0, 9, 10, -1, "1", .5, r.randint(-2, 12)]),
    "classification": lambda r: r.choice([None, "PUBLIC", "", "x-y", 5, b"PUBLIC", ["PUBLIC"]]),
    "organizer": lambda r: r.choice([None, rand_person(r, Organizer), rand_person(r, Attendee), "mailto:a@b.c", 5]),
    "geo": lambda r: r.choice([None, Geo(1.0, 2.0), (1.5, -2.5), {"latitude": 1.0, "longitude": 3.0}, {"lat": 1}, (1,), (1, 2, 3)]),
    "alarms": lambda r: r.choice([[], [rand_alarm(r)], (), (rand_alarm(r),), None, 5]),
    "attach": lambda r: r.choice([[], [rand_attach(r)], (), (b"x",), None, 7]),
    "attendees": lambda r: r.choice([[], [rand_person(r, Attendee)], (), None, 7]),
    "categories": lambda r: r.choice([[], ["a"], ("a", "b"), None, "ab", 7]),
    "events": lambda r: r.choice([[], [Event()], (), (Event(), Event()), 7]),
    "todos": lambda r: r.choice([[], [Todo()], (), (Todo(),), 7]),
    "version": lambda r: r.choice(["2.0", "1.0", "", None, 2.0, 5]),
    "prodid": lambda r: r.choice(["a", "", None, 5]),
    "trigger": lambda r: r.choice([None, dt.timedelta(1), rand_dt(r), 5, "PT1H", dt.date(2020, 1, 1)]),
    "duration": lambda r: r.choice([None, dt.timedelta(1), (1,), {"hours": 5}, 5, "PT1H", {"foo": 1}, (0, 5)]),
    "name": lambda r: r.choice(["x", "X", "a-b", 5, None, "\u00df", ["x"]]),
}
TEXT = lambda r: r.choice([None, "", "x", rand_text1(r)])
CLASSES = [Event, Todo, Calendar, AudioAlarm, DisplayAlarm, EmailAlarm, NoneAlarm, CustomAlarm, ContentLine]


def fresh(cls, **kw):
    if cls is ContentLine:
        kw.setdefault("name", "X")
    return cls(**kw)


def names_of(cls):
    return [f.name for f in attr.fields(cls) if f.init and f.name != "line_nr"]


def value_for(r, name):
    return POOL.get(name, TEXT)(r)


def attempt(f):
    try:
        return "ok", f()
    except Exception as e:
        return "raised", type(e)


def state(x):
    return [(f.name, getattr(x, f.name), type(getattr(x, f.name))) for f in attr.fields(type(x))]


def same_state(a, b):
    return len(a) == len(b) and all(n == m and x == y and t is u for (n, x, t), (m, y, u) in zip(a, b))


def stored_ok(cls, name, v):
    """what may be stored, independent of the code"""
    if cls is AudioAlarm and name == "attach":
        return True
    if name == "status":
        return v in (None, "TENTATIVE", "CONFIRMED", "CANCELLED")
    if name == "percent":
        return v is None or 0 <= v <= 100 and v == int(v)
    if name == "priority":
        return v is None or 0 <= v <= 9 and v == int(v)
    if name == "classification":
        return v is None or isinstance(v, str)
    if name == "organizer":
        return v is None or isinstance(v, Organizer)
    if name == "geo":
        return v is None or isinstance(v, Geo)
    if name in ("created", "last_modified", "dtstamp"):
        return v is None and name != "dtstamp" or isinstance(v, dt.datetime) and v.utcoffset() == dt.timedelta(0) and is_utc(v)
    if name == "completed":
        return v is None or isinstance(v, dt.datetime)
    if name == "timespan":
        return isinstance(v, {Event: EventTimespan, Todo: TodoTimespan}[cls])
    if name in ("version", "prodid"):
        return isinstance(v, str)
    if name == "trigger":
        return v is None or isinstance(v, (dt.timedelta, dt.datetime))
    if name == "duration":
        return v is None or isinstance(v, dt.timedelta)
    if name in ("alarms", "attach", "attendees", "categories", "events", "todos"):
        return type(v) is list
    if name == "name":
        return isinstance(v, str) and v == v.upper()
    return True


def means(name, given, stored):
    """the stored value is the converted one"""
    if name == "status" and isinstance(given, str):
        return stored == given.upper()
    if name in ("created", "last_modified", "dtstamp") and isinstance(given, dt.datetime):
        return stored == (given if given.tzinfo is not None else given.astimezone(Z)) or given.tzinfo is None
    if name == "completed" and isinstance(given, dt.datetime):
        return stored is given
    if name in ("alarms", "attach", "attendees", "categories", "events", "todos"):
        return stored == list(given) and stored is not given
    if name == "geo" and given is not None:
        return stored == (Geo(**given) if isinstance(given, dict) else tuple(given))
    if name == "name":
        return stored == given.upper()
    if name == "duration" and given is not None:
        return stored == (dt.timedelta(**given) if isinstance(given, dict) else dt.timedelta(*given) if isinstance(given, tuple) else given)
    if name == "completed":
        return True
    return stored is given or given is not None and isinstance(given, (tuple, dict, dt.date))


@lemma("C20", mode="bounded", weight=2, cls=Native(lambda r: r.choice(CLASSES)), seed=Native(lambda r: r.getrandbits(40)))
def histories(cls, seed):
    """after any history: assigning does the same as constructing, or raises and changes nothing"""
    import random
    r = random.Random(seed)
    with deterministic_event_data():
        obj = fresh(cls)
        for _ in range(r.choice([1, 3, 6])):
            name = r.choice(names_of(cls))
            v = value_for(r, name)
            if type(v) is cls:
                continue
            before = state(obj)
            how, stored = attempt(lambda: getattr(fresh(cls, **{name.lstrip("_"): v}), name))
            got, exc = attempt(lambda: setattr(obj, name, v))
            prove(how == got, "assigning is rejected exactly if constructing is")
            if how == "raised":
                prove(stored is exc, "assigning raises what constructing raises")
                prove(same_state(state(obj), before), "a rejected assignment leaves the object unchanged")
                continue
            now = getattr(obj, name)
            prove(type(now) is type(stored) and (now == stored or name in ("created", "last_modified", "dtstamp")), "the stored value is the converted one")
            prove(stored_ok(cls, name, now), "only valid values are stored")
            prove(cls is AudioAlarm and name == "attach" or means(name, v, now), "the stored value means the given one")
            prove(same_state([s for s in state(obj) if s[0] != name], [s for s in before if s[0] != name]), "no other attribute is changed")


@lemma("C20", mode="bounded", cls=Native(lambda r: r.choice([Event, Todo, AudioAlarm, NoneAlarm, CustomAlarm])), warm=Native(lambda r: r.choice(["no", "base", "class"])))
def subclasses(cls, warm):
    """the attributes of a subclass are validated, whichever classes were used before"""
    if warm == "base":
        x = Component()
        x.extra = Container("X")
    if warm == "class":
        x = cls()
        x.extra = Container("X")

    @attr.s(init=False)
    class Sub(cls):
        own = attr.ib(default=None, converter=attr.converters.optional(int), validator=attr.validators.optional(attr.validators.in_(range(5))))
    sub = Sub()
    for v in (3, "4", None, 7, "x"):
        how, exc = attempt(lambda: setattr(sub, "own", v))
        prove((how == "ok") == (v in (3, "4", None)) and sub.own in (3, 4, None), "attributes of subclasses are converted and validated")


@lemma("C20", mode="bounded", seed=Native(lambda r: r.getrandbits(40)), cls=Native(lambda r: r.choice([Event, Todo])))
def derived_attributes(seed, cls):
    """begin, end, due and duration go through the validation of the timespan"""
    import random
    r = random.Random(seed)
    obj = cls()
    for _ in range(r.choice([1, 3, 6])):
        name = r.choice(["begin", "end", "duration"] + (["due"] if cls is Todo else []))
        v = r.choice([None, dt.timedelta(hours=1), -dt.timedelta(1), {"hours": 2}, "x", 7]) if name == "duration" else dt_like(r)
        t = obj.timespan
        before = state(obj)

        def spec():
            if name == "begin":
                return type(t)(ensure(v), t.end_time, t.duration, t.precision)
            if name == "duration":
                return type(t)(t.begin_time, None, ensure_td(v), t.precision)
            return type(t)(t.begin_time, ensure(v), None, t.precision)
        how, want = attempt(spec)
        got, exc = attempt(lambda: setattr(obj, name, v))
        prove(how == got, "rejected exactly if such a timespan cannot be created")
        if how == "ok":
            prove(obj.timespan == want, "the timespan is the new one")
        else:
            prove(same_state(state(obj), before), "a rejected assignment leaves the object unchanged")


def ensure(v):
    if v is None or isinstance(v, dt.datetime):
        return v
    if isinstance(v, dt.date):
        return dt.datetime(v.year, v.month, v.day)
    if isinstance(v, (tuple, dict)):
        return dt.datetime(**v) if isinstance(v, dict) else dt.datetime(*v)
    raise ValueError


def ensure_td(v):
    if v is None or isinstance(v, dt.timedelta):
        return v
    if isinstance(v, dict):
        return dt.timedelta(**v)
    raise ValueError


# ------------------------------------------------------------------ deductive part
ANY = Choice(None, Bool(), Int(), Text(), DT(), Date(), TD(), ListOf(Text()))
LISTS = ("alarms", "attach", "attendees", "categories", "events", "todos")
ATTRS = [(c, n) for c in CLASSES for n in names_of(c)]


def stored_means(cls, name, given, stored):
    """the stored value is the given one after the conversion of the attribute"""
    if given is None:
        return stored is None
    if name in ("status", "name"):
        return stored == given.upper()
    if name in ("created", "last_modified", "dtstamp"):
        return stored - given == dt.timedelta(0) if isinstance(given, dt.datetime) and given.tzinfo is not None else True    # (the same instant)
    if name == "completed":
        return isinstance(stored, dt.datetime) and (not isinstance(given, dt.datetime) or stored == given and stored.tzinfo is given.tzinfo)
    if name == "geo":
        return True
    return stored == given and type(stored) is type(given)


def must_accept(cls, name, v):
    """values that have to be accepted (None: no demand)"""
    if name in ("created", "last_modified", "completed") and (v is None or isinstance(v, dt.datetime)):
        return True
    if name == "status":
        return v is None or isinstance(v, str) and v.upper() in ("TENTATIVE", "CONFIRMED", "CANCELLED")
    if name == "percent" and (v is None or isinstance(v, int)):
        return v is None or 0 <= v <= 100
    if name == "priority" and (v is None or isinstance(v, int)):
        return v is None or 0 <= v <= 9
    if name == "classification":
        return v is None or isinstance(v, str)
    if name == "organizer":
        return v is None or isinstance(v, Organizer)
    if name in ("version", "prodid"):
        return isinstance(v, str)
    if name == "timespan":
        return isinstance(v, {Event: EventTimespan, Todo: TodoTimespan}[cls])
    if name in ("summary", "description", "location", "uid", "value") and isinstance(v, str):
        return True
    return None


def check_assignment(cls, name, w, v):
    obj = fresh(cls)
    attempt(lambda: setattr(obj, name, w))
    before = state(obj)
    how, made = attempt(lambda: getattr(fresh(cls, **{name.lstrip("_"): v}), name))
    got, exc = attempt(lambda: setattr(obj, name, v))
    prove(how == got, "assigning is rejected exactly if constructing is")
    need = must_accept(cls, name, v)
    prove(need is None or (got == "ok") == need, "accepted exactly if valid")
    if how == "raised":
        prove(made is exc, "assigning raises what constructing raises")
        prove(same_state(state(obj), before), "a rejected assignment leaves the object unchanged")
    else:
        now = getattr(obj, name)
        prove(type(now) is type(made) and now == made, "the stored value is the converted one")
        prove(stored_ok(cls, name, now), "only valid values are stored")
        prove(stored_means(cls, name, v, now), "the stored value means the given one")
        prove(same_state([s for s in state(obj) if s[0] != name], [s for s in before if s[0] != name]), "no other attribute is changed")


@lemma("C20", cases={"unit": ATTRS}, w=ANY, v=ANY)
def assigning_is_constructing(unit, w, v):
    """every attribute of every class, after any earlier assignment"""
    cls, name = unit
    if name in LISTS:
        assume(not isinstance(v, str) and not isinstance(w, str))
    if cls is Calendar and name in LISTS:
        assume(v is not None)
    with deterministic_event_data():
        check_assignment(cls, name, w, v)


def entry_value(kind, b, d):
    """values of the special types"""
    if kind is None:
        return None
    if kind in (Organizer, Attendee):
        return kind("a@b.c")
    return kind(b, None, d)


@lemma("C20", cases={"unit": [(Event, "organizer"), (Event, "timespan"), (Todo, "timespan")], "old": [None, Organizer, Attendee, EventTimespan, TodoTimespan, Timespan], "new": [None, Organizer, Attendee, EventTimespan, TodoTimespan, Timespan]},
       b=DT(), d=TD(), e=DT())
def assigning_special_types(unit, old, new, b, d, e):
    """organizers and timespans of the right and of other kinds"""
    cls, name = unit
    assume(d >= dt.timedelta(0) and b <= dt.datetime(8000, 1, 1, tzinfo=b.tzinfo) and d <= dt.timedelta(days=10000) and d % dt.timedelta(seconds=1) == dt.timedelta(0))
    with deterministic_event_data():
        check_assignment(cls, name, entry_value(old, e, None), entry_value(new, b, d))


@lemma("C20", cases={"unit": [(c, n) for c, n in ATTRS if n in LISTS and c not in (Calendar, AudioAlarm)]}, xs=ListOf(Text()), ys=ListOf(Text()))
def lists_are_copied(unit, xs, ys):
    """the stored list is another one than the given list"""
    cls, name = unit
    with deterministic_event_data():
        obj = fresh(cls)
        setattr(obj, name, xs)
        prove(getattr(obj, name) is not xs and getattr(obj, name) == xs, "a copy of the list is stored")
        setattr(obj, name, ys)
        prove(getattr(obj, name) is not ys and getattr(obj, name) == ys, "a copy of the list is stored")
