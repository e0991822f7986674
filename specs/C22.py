"""C22: importing a calendar requires exactly one calendar"""
import re
import attr
from specs.comps import *

NOTE = "for every sequence of top-level items and nested contents; which items a text has is the subject of C04-C06; bare lines for parse_multiple are bounded"
ASSUMPTIONS = ["the parser gives the same items for a text and for its lines"]


TOP = Tup(Bool(), Text("\r\n", nonempty=True), SubContainer(lambda r: rand_calendar(r, (0, 0, 1)).to_container() if r.random() < .7 else mktree(rand_container(r, 2))))
USES = ["parser", "loading"]


def top_item(t):
    is_line, value, sub = t
    return ContentLine("X-TOP", {}, value) if is_line else sub


def load(c):
    try:
        return Calendar.from_container(c)
    except ValueError:
        return None


FIELDS = [f.name for f in attr.fields(Calendar) if f.name not in ("extra", "extra_params")]


def cal_shape(c):
    return (type(c), [getattr(c, n) for n in FIELDS], c.extra.name, list(c.extra.data), c.extra_params)


@lemma("C22", cases={"form": ["text", "list", "iterator"]}, ts=ListOf(TOP), error=Bool())
def data_of_a_calendar(form, ts, error):
    """for arbitrary sequences of top-level items"""
    ContentLine("X").value = ""
    items = [top_item(t) for t in ts]
    data = parsed_data(items, error)
    if form == "list":
        data = as_lines(data)
    elif form == "iterator":
        data = iter(as_lines(data))
    single = not error and len(items) == 1 and isinstance(items[0], Container) and items[0].name == "VCALENDAR"
    try:
        c = Calendar(data)
    except ValueError:
        prove(not single or load(items[0]) is None, "a single calendar is imported")
    except ParseError:
        prove(error, "well-formed data is no parse error")
    else:
        prove(single, "anything but a single calendar is rejected")
        x = load(items[0])
        prove(x is not None and cal_shape(c) == cal_shape(x), "the calendar of the data is imported")


@lemma("C22", ts=ListOf(SubContainer(lambda r: rand_calendar(r, (0, 0, 1)).to_container() if r.random() < .7 else mktree(rand_container(r, 2)))), error=Bool())
def several_calendars(ts, error):
    load(Container("VCALENDAR", []))
    data = parsed_data(ts, error)
    try:
        cals = Calendar.parse_multiple(data)
    except ValueError:
        prove(any(t.name != "VCALENDAR" or load(t) is None for t in ts), "parse_multiple accepts calendars")
    except ParseError:
        prove(error, "well-formed data is no parse error")
    else:
        prove(not error and all(t.name == "VCALENDAR" for t in ts), "parse_multiple rejects everything that is no calendar")
        prove(len(cals) == len(ts), "one calendar per component, in order")
        prove(all(cal_shape(c) == cal_shape(load(t)) for c, t in zip(cals, ts)), "each equal to importing it alone")


@lemma("C22", c=SubContainer(lambda r: rand_calendar(r, (0, 0, 1)).to_container() if r.random() < .7 else mktree(rand_container(r, 2))))
def a_single_container(c):
    """the same for a container that is given directly"""
    try:
        x = Calendar(c)
    except ValueError:
        prove(c.name != "VCALENDAR" or load(c) is None, "calendars are accepted")
    else:
        prove(c.name == "VCALENDAR", "components of another name are rejected")
        prove(cal_shape(x) == cal_shape(load(c)), "the calendar of the container")


def rand_top(r):
    """('cal', container), ('other', container) or ('line', line)"""
    k = r.random()
    if k < .6:
        return ("cal", rand_calendar(r, (0, 0, 1)).to_container())
    if k < .64:
        return ("other", Container(r.choice(["VCALENDAR", "VEVENT", "X"]), []))
    if k < .8:
        c = rand_entry(r, Event).to_container() if r.random() < .4 else Container(r.choice(["VEVENT", "VTODO", "X-CALENDAR", "VCALENDARX", "CALENDAR"]), [mkline(rand_line(r))])
        return ("other", c)
    if k < .92:
        return ("line", mkline(rand_line(r)))
    return ("junk", Junk(r.choice(["no line at all", "BEGIN:VEVENT\nX-A:1", "BEGIN:VCALENDAR", "END:VCALENDAR", "END:VEVENT", ":", "X-A;B:1", "BEGIN:X\nEND:Y", "BEGIN", "X=;Y"])))


class Junk:
    """text that is no sequence of lines and components"""
    def __init__(self, text):
        self.text = text

    def serialize(self):
        return self.text

    def __repr__(self):
        return repr(self.text)


def rand_tops(r):
    return [rand_top(r) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]


def text_of(tops, r):
    """serialized items with empty lines in between"""
    out = []
    for k, x in tops:
        out += [""] * r.choice([0, 0, 1])
        out.append(x.serialize())
    return r.choice(["\r\n", "\n"]).join(out) + r.choice(["", "\n", "\r\n", "\n\n"])


def attempt(f):
    try:
        return f()
    except ValueError:
        return None


@lemma("C22", mode="bounded", weight=2, tops=Native(rand_tops), seed=Native(lambda r: r.getrandbits(40)))
def importing(tops, seed):
    import random
    r = random.Random(seed)
    text = text_of(tops, r)
    good = [k for k, x in tops] == ["cal"]
    for data in (text, re.findall(r"[^\n]*\n|[^\n]+", text), iter(text.replace("\r", "").split("\n")), (l for l in text.split("\n"))):
        try:
            c = Calendar(data)
        except (ValueError, ParseError):
            prove(not good, "a single calendar is imported")
        else:
            prove(good, "anything but a single calendar is rejected")
            prove(same_component(c, Calendar.from_container(tops[0][1])), "the calendar of the data is imported")


@lemma("C22", mode="bounded", tops=Native(rand_tops), seed=Native(lambda r: r.getrandbits(40)))
def multiple(tops, seed):
    import random
    r = random.Random(seed)
    text = text_of(tops, r)
    single = [attempt(lambda: Calendar(x.serialize())) if k != "junk" else None for k, x in tops]
    try:
        cals = Calendar.parse_multiple(text)
    except (ValueError, ParseError):
        prove(None in single, "parse_multiple accepts calendars")
    except (TypeError, KeyError):
        # bare lines at the top level
        prove(any(k in ("line", "junk") for k, x in tops), "only lines are no calendars")
    else:
        prove(None not in single, "parse_multiple rejects everything that is no calendar")
        prove(len(cals) == len(tops), "one calendar per component, in order")
        prove(all(same_component(a, b) for a, b in zip(cals, single)), "each equal to importing it alone")


@lemma("C22", mode="bounded", t=Native(lambda r: rand_calendar(r, (0, 0, 1))), name=Native(lambda r: r.choice(["VCALENDAR", "vcalendar", "VEVENT", "X", "VCALENDARS", "VTODO"])))
def containers(t, name):
    """the same for a container that is given directly"""
    c = Container(name, list(t.to_container()))
    try:
        x = Calendar(c)
    except ValueError:
        prove(name.upper() != "VCALENDAR", "calendars are accepted")
    else:
        prove(name.upper() == "VCALENDAR", "components of another name are rejected")
        prove(same_component(x, Calendar.from_container(c)), "the calendar of the container")
