"""C21: cloning copies everything; parsing and serializing do not modify their input"""
import attr
from specs.comps import *
from ics.converter.component import ComponentMeta

NOTE = "cloning lines, containers of any depth and entries with any unknown parts and extra parameters, and serializing and loading them, is proved for all names, values and lengths; the other classes of components and all of their attributes are bounded"
ASSUMPTIONS = []


PARAMS = DictOf(Text(nonempty=True), ListOf(Text()))
LINE = Tup(Text(nonempty=True), PARAMS, Text(), Int())
TREE = Tup(Bool(), LINE, SubContainer(lambda r: mktree(rand_container(r, 2))))
USES = ["nested", "text"]


def line_of(t):
    n, ps, v, nr = t
    c = ContentLine(n, ps, v)
    c.line_nr = nr
    return c


def item_of(t):
    is_line, line, sub = t
    if is_line:
        return line_of(line)
    return sub


def shape(x):
    """everything a line or container holds, down to the texts"""
    if isinstance(x, ContentLine):
        return ("L", x.name, {k: list(vs) for k, vs in x.params.items()}, x.value, x.line_nr)
    if isinstance(x, Container):
        return ("C", x.name, [shape(y) for y in x.data])
    return x


@lemma("C21", t=LINE, k=Text(), x=Text())
def line_clones(t, k, x):
    c = line_of(t)
    before = shape(c)
    d = c.clone()
    prove(shape(c) == before, "cloning does not modify the original")
    prove(type(d) is ContentLine and shape(d) == before and d == c, "an equal line")
    prove(d is not c and d.params is not c.params, "a separate line")
    prove(all(d.params[n] is not vs for n, vs in c.params.items()), "separate lists of parameter values")
    for vs in d.params.values():
        vs.append(x)
    prove(shape(c) == before, "modifying the clone leaves the original unchanged")


@lemma("C21", t=LINE, k=Text(), x=Text())
def changing_a_cloned_line(t, k, x):
    c = line_of(t)
    before = shape(c)
    d = c.clone()
    if k in d.params:
        d.params[k].append(x)
        d.params[k].insert(0, x)
        prove(shape(c) == before, "modifying the clone leaves the original unchanged")
        del d.params[k]
    else:
        d[k] = [x]
    d.value = x
    d.name = x
    prove(shape(c) == before, "modifying the clone leaves the original unchanged")
    d = c.clone()
    d.params.clear()
    prove(shape(c) == before, "modifying the clone leaves the original unchanged")


@lemma("C21", name=Text(nonempty=True), ts=ListOf(TREE))
def deep_container_clones(name, ts):
    """for a container whose nested containers are cloned deeply as claimed (induction over the depth of nesting)"""
    ContentLine("X").value = ""
    c = Container(name, [item_of(t) for t in ts])
    before = shape(c)
    d = c.clone(deep=True)
    prove(shape(c) == before, "cloning does not modify the original")
    prove(type(d) is Container and shape(d) == before, "an equal container")
    prove(d is not c and d.data is not c.data, "a separate container")
    prove(all(x is not y for x, y in zip(c.data, d.data)), "deep clones share no items")
    prove(all(x.params is not y.params for x, y in zip(c.data, d.data) if isinstance(x, ContentLine)), "deep clones share no parameters")
    prove(all(x.data is not y.data for x, y in zip(c.data, d.data) if isinstance(x, Container)), "deep clones share no lists")


LOOKUP = {c: sorted(ComponentMeta.BY_TYPE[c].converter_lookup) for c in (Event, Todo)}
FIELDS = {c: [f.name for f in attr.fields(c) if f.name not in ("extra", "extra_params")] for c in (Event, Todo)}
EXTRA = DictOf(Text(nonempty=True), Choice(PARAMS, ListOf(PARAMS)))


def params_shape(p):
    return {k: list(vs) for k, vs in p.items()}


def component_shape(x):
    """the contents of a component, down to texts"""
    return (type(x), [(n, list(getattr(x, n)) if isinstance(getattr(x, n), list) else getattr(x, n)) for n in FIELDS[type(x)]],
            shape(x.extra), {k: [params_shape(p) for p in ps] if isinstance(ps, list) else params_shape(ps) for k, ps in x.extra_params.items()})


@lemma("C21", cases={"cls": [Event, Todo]}, summary=Opt(Text()), description=Opt(Text()), uid=Text(nonempty=True), attach=ListOf(Text()), extra=ListOf(TREE), params=EXTRA, k=Text(nonempty=True), item=TREE)
def component_clones_are_separate(cls, summary, description, uid, attach, extra, params, k, item):
    c = cls(summary=summary, description=description, uid=uid, attach=attach)
    ContentLine("X").value = ""
    c.extra.extend([item_of(t) for t in extra])
    c.extra_params = params
    before = component_shape(c)
    d = c.clone()
    prove(component_shape(c) == before, "cloning does not modify the original")
    prove(type(d) is cls and d == c and component_shape(d) == before, "an equal component")
    d.extra.append(item_of(item))
    d.extra_params[k] = {}
    d.attach.append(uid)
    d.summary = uid
    prove(component_shape(c) == before, "modifying the clone leaves the original unchanged")
    d = c.clone()
    d.extra.clear()
    d.extra_params.clear()
    d.attach.clear()
    prove(component_shape(c) == before, "modifying the clone leaves the original unchanged")


@lemma("C21", cases={"cls": [Event, Todo]}, summary=Text(), description=Opt(Text()), uid=Text(), url=Choice(None, Text(), Uri()), extra=ListOf(TREE), p=PARAMS, q=PARAMS)
def serializing_does_not_modify(cls, summary, description, uid, url, extra, p, q):
    c = cls(summary=summary, description=description, uid=uid)
    c.url = url
    ContentLine("X").value = ""
    c.extra.extend([item_of(t) for t in extra])
    c.extra_params = {"SUMMARY": p, "DESCRIPTION": q, "URL": q}
    before = component_shape(c)
    out = c.to_container()
    first = shape(out)
    prove(component_shape(c) == before, "serializing does not modify the component")
    again = c.to_container()
    prove(shape(again) == first, "serializing twice gives the same")
    prove(component_shape(c) == before and shape(out) == first, "serializing again modifies nothing")

@lemma("C21", cases={"cls": [Event, Todo]}, summary=Text(), uid=Text(), extra=ListOf(TREE), p=PARAMS)
def loading_does_not_modify(cls, summary, uid, extra, p):
    ContentLine("X").value = ""
    items = [item_of(t) for t in extra]
    assume(all(x.name not in LOOKUP[cls] for x in items))
    assume("VALUE" not in p)
    c = cls(summary=summary, uid=uid)
    c.extra.extend(items)
    c.extra_params = {"SUMMARY": p}
    before = component_shape(c)
    out = c.to_container()
    first = shape(out)
    d = cls.from_container(out)
    prove(shape(out) == first, "loading does not modify the container")
    d.extra.clear()
    d.extra_params.clear()
    prove(shape(out) == first and component_shape(c) == before, "modifying the loaded component modifies nothing else")


def freeze(v, depth=0):
    """structure of a value, down to everything that may be modified"""
    if isinstance(v, Component):
        return ("comp", type(v), [(f.name, freeze(getattr(v, f.name))) for f in attr.fields(type(v))])
    if isinstance(v, (ContentLine, Container)):
        return plain(v)
    if isinstance(v, (Attendee, Organizer)):
        return (type(v), str(v.email), freeze(v.extra))
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return (type(v).__name__, [freeze(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, freeze(x)) for k, x in v.items()])
    if isinstance(v, dateutil.rrule.rruleset):
        return ("rrule", id(v))
    if isinstance(v, Timespan):
        return (type(v), v.begin_time, v.end_time, v.duration, v.precision)
    return (type(v), v)


def freeze_tz(v):
    return freeze(v)


def rand_component(r):
    k = r.random()
    if k < .35:
        c = rand_entry(r, Event)
    elif k < .6:
        c = rand_entry(r, Todo)
    elif k < .8:
        c = rand_alarm(r)
    elif k < .9:
        c = rand_calendar(r, (0, 1))
    else:
        return r.choice([two_phase("A/B", H, 2 * H), builtin_tz(TZ_NAMES[0])])
    if hasattr(c, "url") and r.random() < .4:
        c.url = rand_url(r)
    for n in ("SUMMARY", "begin", "BEGIN", "DESCRIPTION", "URL", "UID", "TRIGGER", "ATTACH" if isinstance(c, AudioAlarm) else "SUMMARY"):
        if r.random() < .4:
            c.extra_params[n] = {"X-" + k: [rand_pvalue(r)] for k in r.sample("abc", r.choice([1, 2]))}
    for n in ("END", "DUE", "DURATION"):
        if hasattr(c, "timespan") and r.random() < .3:
            c.extra_params[n] = {"X-P": [rand_pvalue(r)]}
    if hasattr(c, "timespan") and c.timespan.begin_time is not None and r.random() < .2:
        try:
            c.timespan = c.timespan.make_all_day()
        except ValueError:
            pass
    for n in ("categories", "attach", "attendees"):
        v = getattr(c, n, None)
        if isinstance(v, list) and v and r.random() < .5:
            c.extra_params[{"attendees": "ATTENDEES"}.get(n, n.upper())] = [{"X-P": [rand_pvalue(r)]} if r.random() < .5 else {} for _ in v]
    return c


def touch(r, c):
    """add or remove items or parameters of a component"""
    k = r.random()
    if k < .3:
        if len(c.extra) and r.random() < .5:
            c.extra.pop() if r.random() < .5 else c.extra.clear()
        else:
            c.extra.append(ContentLine("X-NEW", {}, "v"))
    elif k < .6:
        ps = list(c.extra_params.values())
        if ps and r.random() < .8:
            p = r.choice(ps)
            if isinstance(p, list):
                if r.random() < .4 or not p:
                    p.append({})
                else:
                    p[r.randrange(len(p))]["X-NEW"] = ["v"]
            elif r.random() < .5:
                p["X-NEW"] = ["v"]
            else:
                p[r.choice(list(p))].append("w")
        else:
            c.extra_params["NEW"] = {"X": ["1"]}
    else:
        lists = [f.name for f in attr.fields(type(c)) if isinstance(getattr(c, f.name), list)]
        if lists and r.random() < .8:
            l = getattr(c, r.choice(lists))
            if l and r.random() < .5:
                l.pop()
            else:
                l.append(l[0] if l else "x")
        elif not isinstance(c, (Timezone, TimezoneObservance)):
            f = r.choice([f.name for f in attr.fields(type(c)) if f.init and f.name != "timespan"])
            try:
                setattr(c, f, "new")
            except Exception:
                pass


@lemma("C21", mode="bounded", weight=2, c=Native(rand_component), seed=Native(lambda r: r.getrandbits(40)))
def component_clones(c, seed):
    import random
    r = random.Random(seed)
    before = freeze(c)
    d = c.clone()
    prove(freeze(c) == before, "cloning does not modify the original")
    prove(type(d) is type(c) and freeze(d) == before, "a clone has equal attributes, extras and extra parameters")
    prove(isinstance(c, Timezone) or d == c, "a clone is equal")
    prove(d is not c and d.extra is not c.extra and d.extra_params is not c.extra_params, "a clone is a separate object")
    for _ in range(4):
        touch(r, d)
    prove(freeze(c) == before, "adding to or removing from the clone leaves the original unchanged")


@lemma("C21", mode="bounded", t=Native(rand_container), deep=Native(lambda r: r.random() < .5), seed=Native(lambda r: r.getrandbits(40)))
def container_clones(t, deep, seed):
    import random
    r = random.Random(seed)
    c = mktree(t)
    before = plain(c)
    d = c.clone(deep=deep)
    prove(type(d) is Container and plain(d) == before and d == c and d is not c and d.data is not c.data, "an equal container")
    if deep:
        ids = set(all_ids(c))
        prove(not any(i in ids for i in all_ids(d)), "deep clones share no items and no parameters")
        for x in all_items(d):
            if isinstance(x, Container):
                if r.random() < .4:
                    x.append(ContentLine("NEW"))
                elif len(x) and r.random() < .4:
                    del x[r.randrange(len(x))]
            else:
                x.params["NEW"] = ["x"]
                x.value = x.value + "!"
                for p in x.params.values():
                    p.append("y")
    else:
        prove(all(x is y for x, y in zip(c, d)), "the items are the same ones")
        d.append(ContentLine("NEW"))
        d.pop(0)
    prove(plain(c) == before, "modifying the clone leaves the original unchanged")
    items = [mkline(("A", {}, "b"))]
    e = c.clone(items)
    prove(e.name == c.name and list(e) == items and e.data is not items and plain(c) == before, "clone with other items")


def all_items(c):
    out = []
    for x in list(c):
        out.append(x)
        if isinstance(x, Container):
            out += all_items(x)
    return out


def all_ids(c):
    out = [id(c)]
    for x in all_items(c):
        out.append(id(x))
        if isinstance(x, ContentLine):
            out.append(id(x.params))
            out += [id(v) for v in x.params.values()]
    return out


@lemma("C21", mode="bounded", t=Native(rand_line))
def line_clones_sampled(t):
    c = mkline(t)
    c.line_nr = 7
    before = plain(c)
    d = c.clone()
    prove(plain(d) == before and d == c and d.line_nr == 7, "an equal line")
    d["NEW"] = ["x"]
    for v in d.params.values():
        v.append("y")
    d.value += "!"
    d.name = "other"
    prove(plain(c) == before, "modifying the clone leaves the original unchanged")
    d = c.clone()
    d.params.clear()
    prove(plain(c) == before, "modifying the clone leaves the original unchanged")


@lemma("C21", mode="bounded", weight=2, c=Native(rand_component))
def serializing_and_loading(c):
    before = freeze(c)
    x = ctx()
    out = c.to_container(x)
    prove(freeze(c) == before, "serializing does not modify the component")
    prove(plain(c.to_container(ctx())) == plain(out) and c.serialize() == c.serialize(), "serializing twice gives the same text")
    shape = plain(out)
    text = out.serialize()
    prove(out.serialize() == text and plain(out) == shape, "writing a container does not modify it")
    cls = BaseAlarm if isinstance(c, BaseAlarm) else type(c)
    p = out.clone(deep=True)
    ids = all_ids(p)
    d = load(cls, p, ctx_with(x))
    prove(plain(p) == shape and all_ids(p) == ids, "loading does not modify the container")
    # changing the loaded component does not change the container either, apart from the extra lines themselves
    import random
    r = random.Random(len(text))
    for _ in range(3):
        touch(r, d)
    prove(plain(p) == shape, "loaded components share no lists and parameters with the container")
    prove(d is not load(cls, p, ctx_with(x)), "loading again gives a new object")


def load(cls, container, context):
    if cls is BaseAlarm:
        e = Event.from_container(Container("VEVENT", [container, ContentLine("UID", value="u"), ContentLine("DTSTAMP", value="20200101T000000Z")]), context)
        return e.alarms[0]
    return cls.from_container(container, context)


def kept(cls, t, name, v, p):
    """serializing an entry with parameters of its times changes nothing"""
    x = cls(timespan=t, uid="u", dtstamp=dt.datetime(2020, 1, 1, tzinfo=UTC))
    x.extra_params["BEGIN"] = {"X-P": [v]}
    x.extra_params[name] = p
    before = {k: [z for z in l] for k, l in p.items()}
    x.to_container()
    prove(x.timespan is t, "serializing does not modify the component")
    prove(x.extra_params["BEGIN"] == {"X-P": [v]}, "nor its extra parameters")
    prove(x.extra_params[name] == before, "nor its extra parameters")


@lemma("C21", cases={"cls": [Event, Todo], "day": [True, False], "ends": ["end", "duration"]}, v=Text(), p=DictOf(Text(nonempty=True), ListOf(Text())))
def serializing_keeps_parameters_of_times(cls, day, ends, v, p):
    T = EventTimespan if cls is Event else TodoTimespan
    b = dt.datetime(2020, 1, 1)
    t = T(b, b + dt.timedelta(2) if ends == "end" else None, dt.timedelta(2) if ends == "duration" else None, "day" if day else "second")
    assume(both("VALUE" not in p, "TZID" not in p))
    kept(cls, t, "DURATION" if ends == "duration" else "END" if cls is Event else "DUE", v, p)
