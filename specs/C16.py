"""C16: nothing in a parsed component is lost and unknown parts round-trip"""
from specs.comps import *
from ics.converter.component import ComponentMeta

from ics.valuetype.text import TextConverter
USES = ["text", "duration"]
NOTE = "events, todos and calendars with any unknown lines and components around known ones are proved for all names, values and lengths; nested random components are bounded"
ASSUMPTIONS = []


def comp(r):
    k = r.random()
    if k < .35:
        return rand_entry(r, Event)
    if k < .6:
        return rand_entry(r, Todo)
    if k < .75:
        return rand_alarm(r)
    if k < .85:
        return rand_zone_comp(r)
    return rand_calendar(r)


def rand_zone_comp(r):
    z = two_phase(rand_word(r).replace(" ", ""), H, 2 * H)
    decorate(r, z)
    for o in z.observances:
        decorate(r, o)
    return Timezone.from_container(z.to_container())


def meaning(x):
    if x.name == "VTIMEZONE":
        return zone_key(Timezone.from_container(x))
    return plain(x)


def unknown_at(r):
    xs = [(r.random(), rand_unknown(r)) for _ in range(r.choice([0, 1, 2, 5]))]
    if xs and r.random() < .3:      # the very same item again, next to it or elsewhere
        p, x = r.choice(xs)
        xs.append((r.choice([p, r.random()]), x))
    return xs


def known_names(cls):
    return set(ComponentMeta.BY_TYPE[cls].converter_lookup)


def ids(xs):
    return [id(x) for x in xs]


def is_known(cls, x):
    return x.name in known_names(cls)


@lemma("C16", mode="bounded", weight=2, c=Native(comp), more=Native(unknown_at))
def unknown_parts_are_kept(c, more):
    cls = type(c)
    c = c.clone()
    c.extra.clear()
    first, context = written(c)
    items = list(first)
    known = list(items)
    for pos, x in more:
        items.insert(int(pos * (len(items) + 1)), x)
    unknown = [x for x in items if not any(x is y for y in known)]
    before = [plain(x) for x in items]
    inst = cls.from_container(Container(cls.NAME, items), context)
    prove(ids(inst.extra) == ids(unknown), "the extras are exactly the unknown parts, in order")
    prove([plain(x) for x in items] == before, "unchanged")
    prove(same_component_but_extra(inst, c), "known parts are consumed by their properties")
    out = inst.to_container()
    n = len(unknown)
    prove(out.name == cls.NAME, "the name comes first")
    prove(ids(out[len(out) - n:]) == ids(unknown), "the extras are written last, unchanged and in order")
    rest = list(out)[:len(out) - n]
    prove(all(is_known(cls, x) for x in rest), "known parts are written before the extras")
    prove(sorted(map(repr, map(meaning, rest))) == sorted(map(repr, map(meaning, known))), "every known part is written once")


def same_component_but_extra(a, b):
    return type(a) is type(b) and [x for x in differing(a, b) if x != "extra"] == []


@lemma("C16", mode="bounded", c=Native(comp), name=Native(lambda r: r.choice([None, None, "X-OTHER", "x-low"])))
def written_in_order(c, name):
    """whatever the extras are called, they come last; the component is named after the extras"""
    if name is not None:
        object.__setattr__(c, "extra", Container(name, list(c.extra)))
    out = c.to_container()
    prove(out.name == (name or type(c).NAME).upper(), "the name comes first")
    n = len(c.extra)
    prove(ids(list(out)[len(out) - n:]) == ids(c.extra), "the extras are written last, unchanged and in order")
    prove(out.serialize().startswith("BEGIN:%s\r\n" % out.name) and out.serialize().endswith("END:" + out.name), "enclosed in the name")


def repeated(r):
    xs = [rand_unknown(r) for _ in range(r.choice([0, 1, 3, 8]))]
    if xs and r.random() < .4:
        xs.insert(r.randint(0, len(xs)), r.choice(xs))
    return xs


@lemma("C16", mode="bounded", lines=Native(repeated))
def only_unknown(lines):
    inst = Event.from_container(Container("VEVENT", lines))
    prove(ids(inst.extra) == ids(lines), "the extras are exactly the unknown parts, in order")
    alarm = [ContentLine("ACTION", {}, "DISPLAY")] + lines
    inst = BaseAlarm.from_container(Container("VALARM", alarm))
    prove(ids(inst.extra) == ids(lines), "the extras are exactly the unknown parts, in order")
    inst = Calendar(Container("VCALENDAR", lines[:1] + [ContentLine("VERSION", {}, "2.0"), ContentLine("PRODID", {}, "x")] + lines[1:]))
    prove(ids(inst.extra) == ids(lines), "the extras are exactly the unknown parts, in order")


# ------------------------------------------------------------------ deductive part
ITEMS = ListOf(Tup(Bool(), Text(nonempty=True), Text(), Text()))
LOOKUP = {c: sorted(ComponentMeta.BY_TYPE[c].converter_lookup) for c in (Event, Todo, Calendar)}


def unknown_items(cls, ts):
    """any lines and components with names that components of this class do not know"""
    out = [ContentLine(n, {"X-P": [p]}, v) if is_line else Container(n, [ContentLine(v + "x", value=p)]) for is_line, n, v, p in ts]
    assume(all(x.name not in LOOKUP[cls] for x in out))
    return out


KNOWN_LINES = ["SUMMARY", "DESCRIPTION", "LOCATION", "UID"]


@lemma("C16", cases={"cls": [Event, Todo], "names": [("SUMMARY", "UID"), ("UID", "LOCATION"), ("DESCRIPTION", "UID")]}, a=ITEMS, b=ITEMS, c=ITEMS, v=Text(), w=Text(), p=Text())
def entries_keep_unknown_items(cls, names, a, b, c, v, w, p):
    """unknown items before, between and after known lines of an event or todo"""
    a, b, c = unknown_items(cls, a), unknown_items(cls, b), unknown_items(cls, c)
    v, w = TextConverter.escape_text(v), TextConverter.escape_text(w)
    l1, l2, l3 = ContentLine(names[0], {"X-Q": [p]}, v), ContentLine(names[1], value=w), ContentLine("DTSTAMP", value="20200101T000000Z")
    box = Container(cls.NAME, a + [l1] + b + [l2] + c + [l3])
    x = cls.from_container(box)
    prove(box.data == a + [l1] + b + [l2] + c + [l3], "the container is not modified")
    prove(x.extra.data == a + b + c, "the extras are exactly the unknown parts, in order")
    prove(both(*(y is z for y, z in zip(x.extra.data, a + b + c))), "the same objects")
    out = x.to_container()
    plain_x = cls.from_container(Container(cls.NAME, [l1, l2, l3]))
    prove(out.data == plain_x.to_container().data + a + b + c, "unknown parts are written after the known ones, in order")
    prove(len(plain_x.to_container().data) == 3 and l1 in out.data and l2 in out.data and l3 in out.data, "known lines are written with their values and parameters")
    prove(cls.from_container(out) == x, "reading again gives an equal component")
    x.strip_extras(all_extras=True)
    prove(x.extra.data == [] and x.to_container().data == cls.from_container(Container(cls.NAME, [ContentLine(names[0], value=v), l2, l3])).to_container().data, "stripping removes exactly the extras")


@lemma("C16", a=ITEMS, b=ITEMS, c=ITEMS, v=Text(), w=Text())
def calendars_keep_unknown_items(a, b, c, v, w):
    a, b, c = unknown_items(Calendar, a), unknown_items(Calendar, b), unknown_items(Calendar, c)
    l1, l2 = ContentLine("VERSION", value=TextConverter.escape_text(v)), ContentLine("PRODID", value=TextConverter.escape_text(w))
    box = Container("VCALENDAR", a + [l2] + b + [l1] + c)
    x = Calendar.from_container(box)
    prove(box.data == a + [l2] + b + [l1] + c, "the container is not modified")
    prove(x.extra.data == a + b + c, "the extras are exactly the unknown parts, in order")
    out = x.to_container()
    prove(out.data == [l1, l2] + a + b + c, "known lines and unknown parts are written")
    prove(Calendar.from_container(out).to_container().data == out.data, "writing again gives the same")
