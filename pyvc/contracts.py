"""Contracts of functions of /repo that callers are verified against (instead of the body of the callee).

Each contract has been established for all arguments by the lemmas named with it, which are checked from the current
source by the property they belong to.  A codec contract says: decode(encode(v)) == v, encode is a function of v, and
the encoded form is never empty (where stated).  Callers see an uninterpreted text for encode(v).  Arguments outside
the contract's precondition are executed by the body.
"""
import datetime as _dt
import functools
import z3
from .values import *
from .seqs import *
from .engine import SRaise
from .strings import SStr, Atom, lit_id

INT = z3.IntSort()


def _atom(I, v):
    """the identity of an opaque text"""
    v = I.resolve(v)
    if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Atom):
        return v.parts[0].e
    return None


def _arg(args, kw, i, name):
    return args[i] if len(args) > i else kw[name]


def _decoded(e, fn):
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().eq(fn):
        return e.arg(0)
    return None


def use(I, contract):
    try:
        CONTRACTS[contract](I)
    except (ImportError, AttributeError, KeyError):
        pass        # the function is not there (any more): callers are verified against whatever they call now


def duration(I):
    from ics.valuetype.datetime import DurationConverterClass as C
    ser, par = C.serialize, C.parse
    enc = z3.Function("Duration.text", INT, INT)

    def serialize(I, args, kw):
        v = I.resolve(_arg(args, kw, 1, "value"))
        if isinstance(v, STD) and I.e.entails(v.us % 10**6 == 0):
            I.e.contracts_used.add("DurationConverter.serialize/parse: C07")
            t = enc(v.us)
            I.e.add(t != lit_id(""))
            # C07.serialized_form: "P" or "-P" first
            I.e.add(z3.Function("text.startswith[P]", INT, z3.BoolSort())(t) == (v.us >= 0))
            return SStr([Atom(t)])
        return I.call_body(ser, args, kw)

    def parse(I, args, kw):
        e = _atom(I, _arg(args, kw, 1, "value"))
        d = _decoded(e, enc) if e is not None else None
        if d is not None:
            return STD(d)
        return I.call_body(par, args, kw)
    I.contracts[ser], I.contracts[par] = serialize, parse


def text(I):
    from ics.valuetype.text import TextConverterClass as C
    esc, une = C.__dict__["escape_text"].__func__, C.__dict__["unescape_text"].__func__
    enc = z3.Function("Text.escaped", INT, INT)
    dec = z3.Function("Text.unescaped", INT, INT)
    ok = z3.Function("Text.well-formed", INT, z3.BoolSort())

    def escape(I, args, kw):
        e = _atom(I, _arg(args, kw, 1, "string"))
        if e is None:
            return I.call_body(esc, args, kw)
        I.e.contracts_used.add("TextConverter.escape_text/unescape_text: C01")
        d = _decoded(e, dec)
        t = enc(e)
        I.e.add(ok(t))
        I.e.add((t == lit_id("")) == (e == lit_id("")))
        return SStr([Atom(t)])

    def unescape(I, args, kw):
        e = _atom(I, _arg(args, kw, 1, "string"))
        if e is None:
            return I.call_body(une, args, kw)
        I.e.contracts_used.add("TextConverter.escape_text/unescape_text: C01")
        d = _decoded(e, enc)
        if d is not None:
            return SStr([Atom(d)])
        if not I.e.decide(ok(e)):
            raise SRaise(ValueError("ill-formed TEXT value"))
        return SStr([Atom(dec(e))])
    I.contracts[esc], I.contracts[une] = escape, unescape


def text_list(I):
    """splitting the comma-joined list of escaped texts gives these escaped texts (C02)"""
    from ics.valuetype.text import TextConverterClass as C
    from .strings import mkstr, parts_of
    from .models import str_join
    spl, joi = C.__dict__["split_value_list"], C.__dict__["join_value_list"]
    enc = z3.Function("Text.escaped", INT, INT)

    def escaped(I, v):
        e = _atom(I, v)
        return e is not None and _decoded(e, enc) is not None

    def join(I, args, kw):
        vs = I.resolve(_arg(args, kw, 1, "values"))
        parts = vs.parts if isinstance(vs, SList) else vs if isinstance(vs, (list, tuple)) else None
        if parts is not None:
            parts = I.resolve_parts(parts)
            if parts and all(all(len(cv) == 1 and escaped(I, cv[0]) for _, cv in p.cases) if isinstance(p, Many) else escaped(I, p) for p in parts):
                I.e.contracts_used.add("TextConverter.join_value_list/split_value_list: C02")
                return str_join(I, ",", I.new_list(parts))
        return I.call_body(joi, args, kw)

    def pairs(items):
        """the texts of (',' text)*, or None"""
        if len(items) % 2 or any(x != "," for x in items[::2]):
            return None
        out = [SStr([x]) for x in items[1::2] if isinstance(x, Atom) and _decoded(x.e, enc) is not None]
        return out if 2 * len(out) == len(items) else None

    def split(I, args, kw):
        v = I.resolve(_arg(args, kw, 1, "values"))
        items = list(parts_of(v)) if isinstance(v, SStr) else []
        out = []
        items = ["," ] + items
        while items:
            if isinstance(items[0], Many):
                m = items.pop(0)
                cases = [(g, pairs([q for x in cv for q in parts_of(x)])) for g, cv in m.cases]
                if not out or any(c is None for _, c in cases):
                    return I.call_body(spl, args, kw)
                out.append(Many(m.seq, cases))
            else:
                got = pairs(items[:2])
                if not got:
                    return I.call_body(spl, args, kw)
                out += got
                items = items[2:]
        if not out:
            return I.call_body(spl, args, kw)
        I.e.contracts_used.add("TextConverter.join_value_list/split_value_list: C02")
        return I.new_iter(out, "generator")
    I.contracts[spl], I.contracts[joi] = split, join


def nested(I):
    """induction hypothesis for nested containers: cloning them deeply gives a new container with the same contents in
    new lists (Container.clone, C21.container_clones: the lemma proves this for a container from the hypothesis for the
    containers inside of it)"""
    from ics.contentline import Container as C
    from .sorts import Nested
    clone = C.__dict__["clone"]

    def contract(I, args, kw):
        c = I.resolve(args[0])
        data = c.attrs.get("data") if isinstance(c, SObj) else None
        if not (isinstance(data, SList) and len(data.parts) == 1 and isinstance(data.parts[0], SOpaque) and data.parts[0].pytype is Nested):
            return I.call_body(clone, args, kw)
        items = args[1] if len(args) > 1 else kw.get("items")
        deep = args[2] if len(args) > 2 else kw.get("deep", False)
        if items is not None or not I.truth(deep):
            return I.call_body(clone, args, kw)
        I.e.contracts_used.add("Container.clone of nested containers: induction hypothesis, C21.container_clones")
        o = data.parts[0]
        return I.new_obj(C, {"name": c.attrs["name"], "data": I.new_list([SOpaque(o.e, o.pytype, o.truthy)])})
    I.contracts[clone] = contract


def parser(I):
    """reading text gives some sequence of top-level lines and containers, possibly ended by a ParseError (the parser is
    a generator; what the items are for a given text is the subject of C04-C06), and reading the text's lines gives the
    same.  pyvc.spec.parsed_data(items, error) is a text for which it gives these items."""
    from ics.contentline.parser import ParserClass as P
    sc, lc = P.__dict__["string_to_containers"], P.__dict__["lines_to_containers"]

    def known(I, v):
        e = _atom(I, v)
        return None if e is None else I.e.store.get(("parsed", str(e)))

    def give(I, got):
        from .seqs import Raise
        items, error = got
        I.e.contracts_used.add("Parser.string_to_containers/lines_to_containers: some items, then possibly a ParseError")
        parts = list(I.resolve_parts(items.parts))
        if I.truth(error):
            from ics.contentline import ParseError
            parts.append(Raise(ParseError("ill-formed")))
        return I.new_iter(parts, "generator")

    def string(I, args, kw):
        got = known(I, _arg(args, kw, 1, "txt"))
        return I.call_body(sc, args, kw) if got is None else give(I, got)

    def lines(I, args, kw):
        v = I.resolve(_arg(args, kw, 1, "lines"))
        got = None
        if isinstance(v, (SList, SIter)):
            if isinstance(v, SIter):
                I.sync_iter(v)
            parts = I.resolve_parts(v.parts)
            if len(parts) == 1 and not isinstance(parts[0], Many):
                got = known(I, parts[0])
        return I.call_body(lc, args, kw) if got is None else give(I, got)
    I.contracts[sc], I.contracts[lc] = string, lines


def loading(I):
    """loading the unknown contents of a container into a component either raises ValueError or changes the component in
    a way that is determined by the contents"""
    from ics.converter.component import ComponentMeta as M
    from .sorts import Nested
    import ics
    ics.initialize_converters()
    ok = z3.Function("Contents.loadable", INT, z3.BoolSort())

    def contract(pop, I, args, kw):
        c = I.resolve(_arg(args, kw, 2, "container"))
        data = c.attrs.get("data") if isinstance(c, SObj) else None
        if not (isinstance(data, SList) and len(data.parts) == 1 and isinstance(data.parts[0], SOpaque) and data.parts[0].pytype is Nested):
            return I.call_body(pop, args, kw)
        I.e.contracts_used.add("ComponentMeta._populate_attrs of unknown contents: ValueError or a change determined by the contents")
        o = data.parts[0]
        if not I.e.decide(ok(o.e)):
            raise SRaise(ValueError("ill-formed contents"))
        inst = I.resolve(_arg(args, kw, 1, "instance"))
        I.list_append(I.resolve(I.resolve(inst.attrs["extra"]).attrs["data"]), SOpaque(o.e, Nested))
    for cls in {k for m in M.BY_TYPE.values() for k in type(m).__mro__ if "_populate_attrs" in k.__dict__}:
        pop = cls.__dict__["_populate_attrs"]
        I.contracts[pop] = functools.partial(contract, pop)


class Rest:
    """the lines between the BEGIN line of a nested component and the end of the component"""
    def __init__(self, item, name):
        self.item, self.name = item, name


def nesting(I):
    """induction hypothesis for nested components: reading from after a BEGIN line consumes exactly the lines of that
    component and gives it, or raises ParseError if it is not ended by an END of the same name
    (ParserClass.contentlines_to_container, C06: the lemmas prove this for a component from the hypothesis for the
    components inside of it)"""
    from ics.contentline.parser import ParserClass as P
    from ics.contentline import ParseError
    fn = P.__dict__["contentlines_to_container"]

    def contract(I, args, kw):
        it = I.resolve(_arg(args, kw, 2, "tokenized_lines"))
        name = I.resolve(_arg(args, kw, 1, "name"))
        if isinstance(it, SIter):
            I.sync_iter(it)
            parts = I.resolve_parts(it.parts)
            if parts and isinstance(parts[0], Rest):
                r = parts[0]
                if I.truth(I.eq(name, r.name)):
                    I.e.contracts_used.add("Parser.contentlines_to_container of nested components: induction hypothesis, C06")
                    I.advance(it, parts[1:])
                    if r.item is None:
                        raise SRaise(ParseError("ill-formed"))
                    return r.item
                raise Unsupported("a nested component is read under another name")
        return I.call_body(fn, args, kw)
    I.contracts[fn] = contract


def writing(I):
    """a line without parameters is written as some text that is determined by its name, its value and the wrapper, and
    ended by a line break on demand (ContentLine.serialize_iter, C04 and C05); induction hypothesis for nested components
    (Container.serialize_iter, C06: proved for a component from the hypothesis for the components inside of it)"""
    from ics.contentline import Container, ContentLine
    from ics.contentline.container import DEFAULT_LINE_WRAP
    from .sorts import Nested
    enc = {k: z3.Function(f"{k}.written", INT, INT, INT, INT) for k in ("Line", "Component")}

    def contract(cls, fn, default, I, args, kw):
        o = I.resolve(args[0])
        newline = args[1] if len(args) > 1 else kw.get("newline", False)
        wrap = args[2] if len(args) > 2 else kw.get("wrap", default)
        if isinstance(o, SObj) and (wrap is None or wrap is DEFAULT_LINE_WRAP):
            a = b = None
            if cls is Container:
                data = o.attrs.get("data")
                if isinstance(data, SList) and len(data.parts) == 1 and isinstance(data.parts[0], SOpaque) and data.parts[0].pytype is Nested:
                    a, b = _atom(I, o.attrs["name"]), data.parts[0].e
            else:
                ps = I.resolve(o.attrs["params"])
                if isinstance(ps, SDict) and not ps.entries:
                    a, b = _atom(I, o.attrs["name"]), _atom(I, o.attrs["value"])
            if a is not None and b is not None:
                I.e.contracts_used.add(f"{cls.__name__}.serialize_iter: " + ("induction hypothesis, C06" if cls is Container else "some text and a line break, C04 and C05"))
                t = SStr([Atom(enc["Component" if cls is Container else "Line"](a, b, 0 if wrap is None else 1))])
                return I.new_iter([t] + (["\r\n"] if I.truth(newline) else []), "generator")
        return I.call_body(fn, args, kw)
    for cls in (Container, ContentLine):
        fn = cls.__dict__["serialize_iter"]
        I.contracts[fn] = functools.partial(contract, cls, fn, fn.__defaults__[-1])


def value_terms(I, v, kind):
    """the terms that determine a value (a time, a duration, ...), or None"""
    from . import dtmodel as dt
    n = {"time": 4, "duration": 2, "precision": 1}[kind]
    if isinstance(v, SChoice):
        out = None
        for g, x in reversed(v.alts):
            t = value_terms(I, x, kind)
            if t is None:
                return None
            out = t if out is None else [z3.If(g, a, b) for a, b in zip(t, out)]
        return out
    if kind == "precision":
        return [z3.IntVal(["second", "day"].index(v))] if v in ("second", "day") else None
    if v is None:
        return [z3.IntVal(0)] * n
    try:
        v = dt.lift(I, v)
    except Unsupported:
        return None
    if kind == "duration":
        return [z3.IntVal(1), v.us] if isinstance(v, STD) else None
    if not isinstance(v, SDT):
        return None
    z = tz_terms(I, v.tz)
    return [z3.IntVal(1), v.wall, z, dt.zi(v.fold)]


def tz_terms(I, tz):
    from . import dtmodel as dt
    if isinstance(tz, SChoice):
        out = None
        for g, x in reversed(tz.alts):
            t = tz_terms(I, x)
            out = t if out is None else z3.If(g, t, out)
        return out
    return z3.IntVal(0) if tz is None else dt.zone_term(I, tz)[0]


SPAN_FIELDS = (("begin_time", "time"), ("end_time", "time"), ("duration", "duration"), ("precision", "precision"))
SPAN_RELATIONS = ("intersects", "includes", "is_included_in")


def span_terms(I, t):
    """the terms that determine a timespan"""
    cache = I.__dict__.setdefault("span_terms", {})
    vals = [t.attrs[f] for f, k in SPAN_FIELDS]
    key = tuple(map(id, vals))
    if key not in cache:
        cache[key] = (vals, _span_terms(I, t))
    return cache[key][1]


def _span_terms(I, t):
    out = []
    for f, kind in SPAN_FIELDS:
        x = value_terms(I, t.attrs[f], kind)
        if x is None:
            return None
        out += x
    return out


def span_relation(I, name, a, b):
    """the relation of a complete timespan with another one or with an instant: an uninterpreted relation of their parts;
    None: not within the precondition of the contract"""
    from ics.timespan import Timespan, EventTimespan
    from . import dtmodel as dt
    parts = []
    kinds = []
    limit = wall_of(_dt.datetime(9990, 1, 1))
    for x in (a, b):
        x = I.resolve(x)
        if isinstance(x, SObj) and issubclass(x.cls, Timespan):
            t = span_terms(I, x)
            if t is None:
                return None
            begin, end, dur = t[0] == 1, t[4] == 1, t[8] == 1
            complete = z3.And(begin, z3.BoolVal(True) if issubclass(x.cls, EventTimespan) else z3.Or(end, dur),
                              t[1] < limit, z3.Implies(dur, t[9] < 9 * 365 * 86400 * 10**6), z3.Implies(end, t[5] < limit))
            if not I.e.entails(complete):
                return None
            kinds.append("EventTimespan" if issubclass(x.cls, EventTimespan) else "Timespan")
        elif isinstance(x, (SDT, _dt.datetime)) and name == "includes" and x is not a:
            t = value_terms(I, x, "time")
            if t is None:
                return None
            kinds.append("datetime")
        else:
            return None
        parts.append(t)
    I.e.contracts_used.add("Timespan.intersects/includes/is_included_in: C14")

    def rel(name, i, j):
        ts = parts[i] + parts[j]
        return z3.Function(f"{kinds[i]}.{name}.{kinds[j]}", *[INT] * len(ts), z3.BoolSort())(*ts)
    if name == "intersects":        # symmetric
        return SBool(z3.Or(rel(name, 0, 1), rel(name, 1, 0)))
    # including is the converse of being included
    return SBool(rel("includes", 0, 1) if name == "includes" else rel("includes", 1, 0))


def spans(I):
    """the interval predicates of timespans with a begin and an end are relations of the times of the two timespans (or of
    the timespan and the instant): C14 says which.  pyvc.spec.span_relation is the specification of that relation."""
    from ics.timespan import Timespan, EventTimespan

    def contract(fn, name, I, args, kw):
        r = span_relation(I, name, args[0], _arg(args, kw, 1, "other"))
        return I.call_body(fn, args, kw) if r is None else r
    for name in SPAN_RELATIONS:
        fn = Timespan.__dict__[name]
        I.contracts[fn] = functools.partial(contract, fn, name)

    def validate(fn, I, args, kw):
        o = I.resolve(args[0])
        if isinstance(o, SObj):
            t = span_terms(I, o)
            if t is not None and I.e.entails(valid_span(o.cls, t)):
                I.e.contracts_used.add("Timespan.validate accepts existing timespans (they are immutable): C10")
                return None
        return I.call_body(fn, args, kw)
    for cls in (Timespan, EventTimespan):
        fn = cls.__dict__["validate"]
        I.contracts[fn] = functools.partial(validate, fn)


    def moved(fn, how, I, args, kw):
        """(C12) readings or instants are kept in the new zone; refused if the result is no valid timespan"""
        o = I.resolve(args[0])
        tz = _arg(args, kw, 1, "tzinfo")
        t = span_terms(I, o) if isinstance(o, SObj) else None
        if t is None or not I.e.entails(valid_span(o.cls, t)):
            return I.call_body(fn, args, kw)
        I.e.contracts_used.add("Timespan.replace_timezone/convert_timezone: C12")
        new = I.new_obj(o.cls, dict(o.attrs))
        for f, n in (("begin_time", 0), ("end_time", 4)):
            x = o.attrs[f]
            if x is None:
                continue
            if how == "replace":
                d = SDT(t[n + 1], tz, t[n + 3])
            else:
                z = tz_terms(I, I.resolve(tz))
                fs = [z3.Function(f"converted.{k}", INT, INT, INT, INT, INT) for k in ("wall", "fold", "tz")]
                w, fold, lz = (g(t[n + 1], t[n + 2], t[n + 3], z) for g in fs)
                I.e.add(z3.Implies(z3.And(t[n + 2] == z, z != 0), z3.And(w == t[n + 1], fold == t[n + 3])))
                I.e.add(z3.And(w > t[n + 1] - 2 * DAY, w < t[n + 1] + 2 * DAY, fold >= 0, fold <= 1, lz > 0))
                # without a zone: the fixed offset of the local zone then
                d = SDT(w, tz if I.resolve(tz) is not None else STz(lz), fold)
            new.attrs[f] = SChoice([(t[n] == 1, d), (True, None)])
        nt = span_terms(I, new)
        if not I.e.decide(z3.And(t[10] == 0, valid_span(o.cls, nt))):
            raise SRaise(ValueError("not a valid timespan"))
        return new
    for how in ("replace", "convert"):
        fn = Timespan.__dict__[how + "_timezone"]
        I.contracts[fn] = functools.partial(moved, fn, how)


def valid_span(cls, terms):
    """an existing timespan has these parts"""
    return z3.Function(cls.__name__ + ".valid", *[INT] * len(terms), z3.BoolSort())(*terms)


CONTRACTS = {"spans": spans, "writing": writing, "nesting": nesting, "parser": parser, "loading": loading, "nested": nested, "duration": duration, "text": text, "text_list": text_list}
