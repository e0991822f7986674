"""C25: alarms keep their kind and content through a round trip"""
from specs.comps import *

from ics.converter.component import ComponentMeta
from pyvc.sorts import *
from ics.valuetype.text import TextConverter
NOTE = "kind selection, custom actions and round trips of alarms with unknown lines are proved for all texts and durations; attachments, attendees and dates are bounded"
ASSUMPTIONS = ["the action of a custom alarm is neither missing nor that of another kind"]
USES = ["duration", "text"]
KINDS = {"AUDIO": AudioAlarm, "DISPLAY": DisplayAlarm, "EMAIL": EmailAlarm, "NONE": NoneAlarm}


def entry_with(items, cls=Event):
    return Container(cls.NAME, [ContentLine("UID", value="u"), ContentLine("DTSTAMP", value="20200101T000000Z")] + items)


@lemma("C25", mode="bounded", weight=2, alarms=Native(lambda r: [rand_alarm(r) for _ in range(r.choice([1, 1, 2, 3]))]), cls=Native(lambda r: r.choice([Event, Todo])))
def round_trip(alarms, cls):
    e = cls(begin=dt.datetime(2020, 1, 1))
    e.alarms = alarms
    c, context = written(e)
    subs = [x for x in c if x.name == "VALARM"]
    prove(len(subs) == len(alarms) and all(isinstance(x, Container) for x in subs), "every alarm is written once, in order")
    for a, s in zip(alarms, subs):
        acts = [x for x in s if x.name == "ACTION"]
        prove(len(acts) == 1 and isinstance(acts[0], ContentLine), "exactly one ACTION line")
        want = a.action if type(a) is CustomAlarm else [k for k in KINDS if KINDS[k] is type(a)][0]
        prove(unescaped(acts[0].value) == want, "the ACTION names the kind")
        alone = [x for x in a.to_container(ctx_with(context)) if x.name == "ACTION"]
        prove(len(alone) == 1 and alone[0].value == acts[0].value, "the same on its own")
    for f in (cls.from_container(c, ctx_with(context)), cls.from_container(string_to_container(c.serialize()), ctx_with(context))):
        prove(len(f.alarms) == len(alarms), "every alarm is read")
        for a, b in zip(alarms, f.alarms):
            prove(type(a) is type(b) and a.action == b.action, "an alarm of the same kind")
            prove(same_value(a.trigger, b.trigger) and same_value(a.repeat, b.repeat) and same_value(a.duration, b.duration), "equal trigger, repeat and duration")
            prove(same_component(a, b), "equal content")


def unescaped(v):
    return v.replace("\\,", ",").replace("\\;", ";").replace("\\\\", "\\")


ACTIONS = ["AUDIO", "DISPLAY", "EMAIL", "NONE", "X-FOO", "PROCEDURE", "audio", "Email", "AUDIOX", "DISPLA", "none"]


def rand_lines(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 1, 1, 2, 3])):
        out.append(("ACTION", rand_params1(r) if r.random() < .3 else {}, r.choice(ACTIONS)))
    opt = [("TRIGGER", {}, "-PT15M"), ("REPEAT", {}, "4"), ("DURATION", {}, "PT5M"), ("X-FOO", {}, "bar"), ("DESCRIPTION", {}, "text"), ("SUMMARY", {}, "sum"),
           ("TRIGGER", {"VALUE": ["DATE-TIME"]}, "20200101T000000Z")]
    seen = set()
    for o in opt:
        if r.random() < .5 and o[0] not in seen:
            seen.add(o[0])
            out.append(o)
    r.shuffle(out)
    return out


@lemma("C25", mode="bounded", weight=2, lines=Native(rand_lines), cls=Native(lambda r: r.choice([Event, Todo])))
def kinds(lines, cls):
    c = Container("VALARM", [mkline(l) for l in lines])
    shape = plain(c)
    actions = [l[2] for l in lines if l[0] == "ACTION"]
    try:
        e = cls.from_container(entry_with([c], cls))
    except ValueError:
        prove(len(actions) != 1, "alarms with one ACTION are accepted")
    else:
        prove(len(actions) == 1, "alarms without or with several ACTION lines are rejected")
        a = e.alarms[0]
        prove(len(e.alarms) == 1 and type(a) is KINDS.get(actions[0], CustomAlarm), "the kind is selected by the ACTION")
        prove(a.action == actions[0], "the action is kept")
        d = {(l[0], "VALUE" in l[1]): l[2] for l in lines}
        want = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc) if ("TRIGGER", True) in d else dt.timedelta(minutes=-15) if ("TRIGGER", False) in d else None
        prove(a.trigger == want and a.repeat == (4 if ("REPEAT", False) in d else None) and a.duration == (dt.timedelta(minutes=5) if ("DURATION", False) in d else None), "the values of the lines")
        out = [x for x in e.to_container() if x.name == "VALARM"][0]
        prove(sorted(map(repr, plain(out)[2])) == sorted(map(repr, shape[2])), "all lines are written again")
    prove(plain(c) == shape, "the container is not modified")


# ------------------------------------------------------------------ deductive part
def extra_lines(ts):
    """lines with names that no alarm knows"""
    assume(all(("X-" + n).upper() not in ALARM_NAMES for n, v in ts))
    return [ContentLine("X-" + n, value=v) for n, v in ts]


ALARM_NAMES = [c for k in (AudioAlarm, DisplayAlarm, EmailAlarm, NoneAlarm, CustomAlarm) for c in ComponentMeta.BY_TYPE[k].converter_lookup]
EXTRA = ListOf(Tup(Text(), Text()))


@lemma("C25", before=EXTRA, after=EXTRA, action=Choice("AUDIO", "DISPLAY", "EMAIL", "NONE"), cls=Const(BaseAlarm))
def action_selects_the_kind(before, after, action, cls):
    """a known ACTION between any other lines"""
    a, b = extra_lines(before), extra_lines(after)
    x = cls.from_container(Container("VALARM", a + [ContentLine("ACTION", value=action)] + b))
    prove(type(x) is KINDS[action], "the kind is selected by the ACTION")
    prove(x.action == action, "the action is kept")
    prove(x.extra.data == a + b, "the other lines are kept in order")
    prove(x.to_container().data == [ContentLine("ACTION", value=action)] + a + b, "all lines are written again")


@lemma("C25", before=EXTRA, after=EXTRA, action=Text(), cls=Const(BaseAlarm))
def other_actions_are_custom(before, after, action, cls):
    """any other ACTION between any other lines"""
    a, b = extra_lines(before), extra_lines(after)
    value = TextConverter.escape_text(action)
    assume(value not in KINDS)
    x = cls.from_container(Container("VALARM", a + [ContentLine("ACTION", value=value)] + b))
    prove(type(x) is CustomAlarm, "other actions give custom alarms")
    prove(x.action == action, "the action is kept")
    prove(x.extra.data == a + b, "the other lines are kept in order")
    prove(x.to_container().data == [ContentLine("ACTION", value=value)] + a + b, "all lines are written again")


@lemma("C25", a=EXTRA, b=EXTRA, c=EXTRA, action=Text(), second=Text(), cls=Const(BaseAlarm))
def one_action_is_required(a, b, c, action, second, cls):
    a, b, c = extra_lines(a), extra_lines(b), extra_lines(c)
    prove(raises(ValueError, lambda: cls.from_container(Container("VALARM", a))), "alarms without an ACTION are rejected")
    prove(raises(ValueError, lambda: cls.from_container(Container("VALARM", a + [ContentLine("ACTION", value=action)] + b + [ContentLine("ACTION", value=second)] + c))), "alarms with several ACTION lines are rejected")


WHOLE = Opt(Int(-10**10, 10**10))


@lemma("C25", cases={"cls": [AudioAlarm, DisplayAlarm, NoneAlarm, EmailAlarm, CustomAlarm]}, trigger=WHOLE, repeat=Opt(Int(0)), duration=WHOLE, text=Opt(Text()), extra=EXTRA)
def content_is_kept(cls, trigger, repeat, duration, text, extra):
    """trigger, repeat, duration, texts and unknown lines"""
    x = cls(trigger=None if trigger is None else dt.timedelta(seconds=trigger), repeat=repeat, duration=None if duration is None else dt.timedelta(seconds=duration))
    if cls is CustomAlarm:
        assume(text is not None and TextConverter.escape_text(text) not in KINDS)
        x = CustomAlarm(x.trigger, repeat, x.duration, text)
    elif cls is not AudioAlarm and cls is not NoneAlarm:
        x.description = text
    if cls is EmailAlarm:
        x.summary = text
    x.extra.extend(extra_lines(extra))
    c = x.to_container()
    prove(len(c["ACTION"]) == 1 and c["ACTION"][0].value == (TextConverter.escape_text(text) if cls is CustomAlarm else [k for k in KINDS if KINDS[k] is cls][0]), "exactly one ACTION line, which names the kind")
    y = BaseAlarm.from_container(c)
    prove(type(y) is cls and y.action == x.action, "an alarm of the same kind")
    prove(y.trigger == x.trigger and y.repeat == repeat and y.duration == x.duration, "equal trigger, repeat and duration")
    prove(y.extra.data == x.extra.data, "the unknown lines are kept in order")
    prove(y == x, "equal content")


@lemma("C25", before=EXTRA, after=EXTRA, action=Choice("AUDIO", "DISPLAY", "EMAIL", "NONE"), cls=Choice(Event, Todo), trigger=WHOLE)
def alarms_of_an_entry(before, after, action, cls, trigger):
    """an alarm inside of an event or todo"""
    a, b = extra_lines(before), extra_lines(after)
    x = KINDS[action](trigger=None if trigger is None else dt.timedelta(seconds=trigger))
    x.extra.extend(a)
    y = KINDS["DISPLAY"]()
    y.extra.extend(b)
    with deterministic_event_data():
        e = cls(alarms=[x, y])
    c = e.to_container()
    prove([i.data for i in c["VALARM"]] == [x.to_container().data, y.to_container().data], "every alarm is written once, in order")
    f = cls.from_container(c)
    prove(len(f.alarms) == 2 and f.alarms[0] == x and f.alarms[1] == y, "every alarm is read, with equal content")
    prove(type(f.alarms[0]) is type(x) and type(f.alarms[1]) is DisplayAlarm, "an alarm of the same kind")
