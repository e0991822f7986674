"""C23: attendee and organizer properties behave like stored values"""
from specs.comps import *
from ics.valuetype.special import AttendeeConverter, OrganizerConverter

NOTE = "proved for setting, reading, deleting and converting with any stored parameters (every setter keeps everything else, so histories follow); the trip of a person through the lines of an event is bounded"
ASSUMPTIONS = ["urlparse(u.geturl()) == u for every parsed URL u (contract on urllib.parse)", "parameter values are plain texts; QuotedParamValue is sampled"]


PARAMS = DictOf(Text(nonempty=True), ListOf(Text()))
TEXTS = ["common_name", "user_type", "role", "status"]
ONE_URI = ["sent_by", "directory"]
URI_LISTS = ["member", "delegated_to", "delegated_from"]
PARAM_OF = {"sent_by": "SENT-BY", "common_name": "CN", "directory": "DIR", "user_type": "CUTYPE", "member": "MEMBER", "role": "ROLE",
            "status": "PARTSTAT", "rsvp": "RSVP", "delegated_to": "DELEGATED-TO", "delegated_from": "DELEGATED-FROM"}
DEFAULT = {"sent_by": None, "common_name": None, "directory": None, "user_type": "INDIVIDUAL", "member": None, "role": "REQ-PARTICIPANT",
           "status": "NEEDS-ACTION", "rsvp": False, "delegated_to": None, "delegated_from": None}
KINDS = [(Attendee, n) for n in PARAM_OF] + [(Organizer, n) for n in ("sent_by", "common_name", "directory")]


def names_of(cls):
    return list(PARAM_OF) if cls is Attendee else ["sent_by", "common_name", "directory"]


def value_of(name, text, flag, url, urls):
    return flag if name == "rsvp" else text if name in TEXTS else url if name in ONE_URI else urls


def without(params, name):
    return {k: list(vs) for k, vs in params.items() if k != name}


def reading(p, name):
    """what reading a property gives: the value, or the refusal of several values"""
    try:
        v = getattr(p, name)
    except ValueError:
        return "refused"
    return [v]


@lemma("C23", cases={"kind": KINDS, "iterated": [False, True]}, email=Uri(), extra=PARAMS, text=Text(), flag=Bool(), url=Uri(), urls=ListOf(Uri()))
def a_property_is_set(kind, iterated, email, extra, text, flag, url, urls):
    """for a person with any parameters"""
    cls, name = kind
    p = cls(email, extra)
    other = cls(email, dict(extra))     # shares the value lists
    before = {k: list(vs) for k, vs in extra.items()}
    v = value_of(name, text, flag, url, urls)
    setattr(p, name, iter(urls) if iterated and name in URI_LISTS else v)
    got = getattr(p, name)
    prove(type(got) is type(v) and got == v, "reading gives the value set last")
    prove(without(p.extra, PARAM_OF[name]) == without(before, PARAM_OF[name]), "no other parameter is changed")
    prove(p.email == email, "the address stays")
    delattr(p, name)
    prove(getattr(p, name) == DEFAULT[name] and type(getattr(p, name)) is type(DEFAULT[name]), "deleting restores the default")
    prove(PARAM_OF[name] not in p.extra, "the parameter is removed")
    prove(p.extra == without(before, PARAM_OF[name]), "no other parameter is changed by deleting")
    delattr(p, name)
    prove(getattr(p, name) == DEFAULT[name], "deleting twice is no error")
    prove(other.extra == before, "other persons are not changed")


@lemma("C23", cases={"kind": [k for k in KINDS if k[1] in URI_LISTS]}, email=Uri(), values=ListOf(Text()), rest=Text())
def stored_lists(kind, email, values, rest):
    """reading a list gives every stored value"""
    cls, name = kind
    p = cls(email, {"X-REST": [rest], PARAM_OF[name]: values})
    prove(getattr(p, name) == [urlparse(v) for v in values], "every value of a list is read")
    prove(p.extra == {"X-REST": [rest], PARAM_OF[name]: values}, "reading changes nothing")


@lemma("C23", cases={"kind": [k for k in KINDS if k[1] not in URI_LISTS and k[1] != "rsvp"]}, email=Uri(), values=ListOf(Text()), v=Text(), rest=Text())
def stored_values(kind, email, values, v, rest):
    """reading stored values: none is the default, one is that value, several are refused"""
    cls, name = kind
    p = cls(email, {"X-REST": [rest], PARAM_OF[name]: values})
    got = reading(p, name)
    prove(iff(got == "refused", len(values) > 1), "exactly several values are refused")
    prove(implies(len(values) == 0, got == [DEFAULT[name]]), "no value means the default")
    prove(p.extra == {"X-REST": [rest], PARAM_OF[name]: values}, "reading changes nothing")
    p.extra[PARAM_OF[name]] = [v]
    prove(reading(p, name) == [v if name in TEXTS else urlparse(v)], "a single value is read")


@lemma("C23", cases={"cls": [Attendee, Organizer]}, email=Uri(), rest=Text(), text=Text(), flag=Bool(), url=Uri(), urls=ListOf(Uri()), url2=Uri())
def several_properties(cls, email, rest, text, flag, url, urls, url2):
    """properties do not affect each other"""
    p = cls(email, {"X-REST": [rest]})
    values = {n: value_of(n, text, flag, url if n == "sent_by" else url2, urls) for n in names_of(cls)}
    for n, v in values.items():
        setattr(p, n, v)
    for n, v in values.items():
        prove(getattr(p, n) == v, "every property has its value")
    for n in names_of(cls)[::2]:
        delattr(p, n)
    for i, (n, v) in enumerate(values.items()):
        prove(getattr(p, n) == (DEFAULT[n] if i % 2 == 0 else v), "the others stay when some are deleted")
    prove(p.extra["X-REST"] == [rest], "parameters of other names stay")
    q = cls(email, **values)
    for n, v in values.items():
        prove(getattr(q, n) == v, "properties can be given to the constructor")
    fresh = cls(email)
    prove(fresh.extra == {} and fresh.extra is not q.extra and cls(email).extra is not fresh.extra, "persons do not share their parameters")


@lemma("C23", cases={"cls": [Attendee, Organizer]}, email=Uri(), extra=PARAMS, k=Text(nonempty=True))
def a_person_survives(cls, email, extra, k):
    """writing and reading a person with any parameters"""
    conv = AttendeeConverter if cls is Attendee else OrganizerConverter
    p = cls(email, extra)
    before = {n: list(vs) for n, vs in extra.items()}
    params = {}
    text = conv.serialize(p, params)
    prove(params == before, "all parameters are written")
    prove(p.email == email and p.extra == before, "writing changes nothing")
    prove(text == email.geturl(), "the address is written")
    q = conv.parse(text, params)
    prove(type(q) is cls and q.email == email and q.extra == before and q == p, "an equal person is read")
    q.extra[k] = []
    prove(p.extra == before and extra == before, "the parameters are its own")


URIS = ["mailto:a@b.c", "http://x.y/z?a=b#c", "cid:part1", "ldap://h/o=x,c=y", "mailto:%22x%22@b.c"]


def text(r):
    return rand_pvalue(r)       # possibly empty


def uri(r):
    return urlparse(r.choice(URIS))


def uris(r):
    return [uri(r) for _ in range(r.choice([1, 2, 3]))]


# property: (parameter, default, values)
PROPS = {
    "sent_by": ("SENT-BY", None, uri), "common_name": ("CN", None, text), "directory": ("DIR", None, uri),
    "user_type": ("CUTYPE", "INDIVIDUAL", text), "member": ("MEMBER", None, uris), "role": ("ROLE", "REQ-PARTICIPANT", text),
    "status": ("PARTSTAT", "NEEDS-ACTION", text), "rsvp": ("RSVP", False, lambda r: r.random() < .5),
    "delegated_to": ("DELEGATED-TO", None, uris), "delegated_from": ("DELEGATED-FROM", None, uris),
}
SINGLE = [n for n in PROPS if PROPS[n][2] is not uris]


def props_of(cls):
    return list(PROPS) if cls is Attendee else ["sent_by", "common_name", "directory"]


def equal(a, b):
    return type(a) is type(b) and a == b


@lemma("C23", mode="bounded", weight=2, cls=Native(lambda r: r.choice([Attendee, Attendee, Organizer])), seed=Native(lambda r: r.getrandbits(40)))
def histories(cls, seed):
    import random
    r = random.Random(seed)
    names = props_of(cls)
    shared = {"MEMBER": ["mailto:m@m.m"], "CN": ["shared"], "X-FOO": ["a", "b"]} if r.random() < .3 else {}
    copied = {k: list(v) for k, v in shared.items()}
    other = cls(urlparse("mailto:o@o.o"), dict(shared))
    init = {n: PROPS[n][2](r) for n in names if r.random() < .3}
    extra = dict(shared) if shared else {"X-FOO": ["a", "b"]} if r.random() < .5 else None
    p = cls(urlparse("mailto:a@b.c"), extra, **init)
    model = dict(init)
    if shared:      # the value lists of the parameters are shared with another person
        model = {**({"member": [urlparse("mailto:m@m.m")]} if cls is Attendee else {}), "common_name": "shared", **init}
    for _ in range(r.choice([0, 1, 3, 8])):
        n = r.choice(names)
        if r.random() < .7:
            v = PROPS[n][2](r)
            setattr(p, n, iter(v) if isinstance(v, list) and r.random() < .3 else v)
            model[n] = v
        else:
            delattr(p, n)
            model.pop(n, None)
        for m in names:
            prove(equal(getattr(p, m), model.get(m, PROPS[m][1])), "reading gives the value set last, or the default")
        prove(p.email == urlparse("mailto:a@b.c") and (extra is None or p.extra["X-FOO"] == ["a", "b"]), "no other parameter is changed")
        prove(set(p.extra) == {PROPS[m][0] for m in model} | ({"X-FOO"} if extra else set()) | ({"MEMBER"} if shared and cls is Organizer else set()), "exactly the set properties are stored")
    prove(other.extra == copied, "other persons are not changed")
    # round trip through an event
    e = Event(begin=dt.datetime(2020, 1, 1))
    if cls is Attendee:
        e.attendees = [p, other]
    else:
        e.organizer = p
    c = e.to_container()
    lines = [x for x in c if x.name == cls.NAME]
    prove(len(lines) == (2 if cls is Attendee else 1) and lines[0].value == "mailto:a@b.c", "one line with the address")
    prove(norm_params(lines[0].params) == norm_params(p.extra), "all parameters are written")
    for f in (Event.from_container(c), Event.from_container(string_to_container(c.serialize()))):
        q = f.attendees[0] if cls is Attendee else f.organizer
        prove(type(q) is cls and q.email == p.email, "the same kind of person with the same address")
        prove(norm_params(q.extra) == norm_params(p.extra), "the same parameters")
        for m in names:
            prove(equal(getattr(q, m), model.get(m, PROPS[m][1])), "the same properties")


@lemma("C23", mode="bounded", cls=Native(lambda r: r.choice([Attendee, Attendee, Organizer])), name=Native(lambda r: r.choice(SINGLE)), values=Native(lambda r: [text(r) for _ in range(r.choice([0, 2, 3]))]))
def several_values(cls, name, values):
    if name not in props_of(cls):
        name = "common_name"
    p = cls(urlparse("mailto:a@b.c"), {PROPS[name][0]: values})
    try:
        v = getattr(p, name)
    except ValueError:
        prove(len(values) > 1, "only several values are refused")
    else:
        prove(values == [] and v == PROPS[name][1], "several values are refused, no value means the default")
    delattr(p, name)
    prove(equal(getattr(p, name), PROPS[name][1]), "deleting restores the default")


@lemma("C23", mode="bounded", cls=Native(lambda r: r.choice([Attendee, Organizer])), extra=Native(rand_person_extra))
def lines(cls, extra):
    """arbitrary parameters survive"""
    p = cls(urlparse("mailto:a@b.c"), extra)
    e = Event(begin=dt.datetime(2020, 1, 1), **({"attendees": [p]} if cls is Attendee else {"organizer": p}))
    c = e.to_container()
    for f in (Event.from_container(c), Event.from_container(string_to_container(c.serialize()))):
        q = f.attendees[0] if cls is Attendee else f.organizer
        prove(type(q) is cls and q.email == p.email and norm_params(q.extra) == norm_params(extra), "an equal person")
    prove(raises(TypeError, lambda: cls("mailto:a@b.c", ["x"])), "the parameters need to be a dict")
