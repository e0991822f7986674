"""C24: scoped settings are restored however the scope is left"""
from specs.comps import *
from ics.contentline.container import contentline_set_wrap, DEFAULT_LINE_WRAP
from ics.event import default_uid_factory, default_dtstamp_factory

NOTE = "proved for each scope with arbitrary settings, exits and nestings of two scopes (induction over the nesting); the effect on serialized lines and generators is bounded"
ASSUMPTIONS = ["contextlib.contextmanager, ContextVar and try/finally behave as in the CPython documentation", "code inside a scope changes the settings only through scopes of its own"]
STAMP = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)


class Stop(BaseException):
    pass


EXC = [None, None, None, ValueError, KeyError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, Stop, AssertionError]
LINE = ContentLine("DESCRIPTION", value="abcde-" * 60)


def rand_nest(r, depth=3):
    """nested scopes: (kind, argument, inner scopes, exception raised at the end, exception handled here)"""
    out = []
    for _ in range(r.choice([1, 1, 2]) if depth == 3 else r.choice([0, 0, 1, 2])):
        kind = r.choice(["wrap", "wrap", "data", "data_default"])
        arg = r.choice([None, 0, -1, -75, 2, 3, 10, 75, 76, 200]) if kind == "wrap" else ("%x@u" % r.getrandbits(16), rand_dt(r, dt.timezone.utc))
        out.append((kind, arg, rand_nest(r, depth - 1) if depth else [], r.choice(EXC), r.random() < .5))
    return out


def widths():
    return [len(x) for x in LINE.serialize().split("\r\n")]


def expected(width):
    n = len("DESCRIPTION:" + "abcde-" * 60)
    return width


def check(width, data):
    w = widths()
    if width is None:
        prove(len(w) == 1, "no folding")
    else:
        prove(max(w) <= width and (len(w) > 1 or w[0] <= width), "folded at the width of the innermost scope")
        prove(all(x > width - 7 for x in w[:-1]), "lines are filled up to the width")
    a, b, t = Event(), Event(), Todo()
    if data is None:
        prove(a.uid != b.uid and a.uid != t.uid and abs((a.dtstamp - dt.datetime.now(dt.timezone.utc)).total_seconds()) < 3600, "generated identifiers and timestamps")
    else:
        prove((a.uid, a.dtstamp) == data == (b.uid, b.dtstamp) == (t.uid, t.dtstamp), "exactly the given identifier and timestamp")


def run(nest, width, data):
    for kind, arg, inner, exc, handled in nest:
        w, d = width, data
        if kind == "wrap":
            scope = contentline_set_wrap(arg)
            w = arg if arg and arg > 0 else None
        elif kind == "data":
            scope = deterministic_event_data(*arg)
            d = arg
        else:
            scope = deterministic_event_data(dtstamp=arg[1])
            d = ("deterministic_uid@example.org", arg[1])
        error = exc() if exc else None
        seen = None
        try:
            with scope:
                check(w, d)
                run(inner, w, d)
                check(w, d)
                if error is not None:
                    raise error
        except (Exception, Stop, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
            seen = e
            # restored as soon as the scope is left
            check(width, data)
        if seen is not None and seen is not error:
            # raised by an inner scope or by a failing claim
            raise seen
        prove(seen is error, "the exception is not swallowed")
        check(width, data)
        if seen is not None and not handled:
            raise seen


@lemma("C24", mode="bounded", nest=Native(rand_nest))
def nested_scopes(nest):
    old = DEFAULT_LINE_WRAP.width, default_uid_factory.get(), default_dtstamp_factory.get()
    try:
        run(nest, 75, None)
    except (ValueError, KeyError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, Stop, AssertionError):
        pass
    prove((DEFAULT_LINE_WRAP.width, default_uid_factory.get(), default_dtstamp_factory.get()) == old, "everything is restored")


@lemma("C24", mode="bounded", seed=Native(lambda r: r.getrandbits(40)))
def generators(seed):
    """a scope inside a generator that is closed or abandoned, and functions used as decorators"""
    import random
    r = random.Random(seed)
    w = r.choice([5, 20, None, 0])
    u = "%x@u" % seed

    def gen():
        with contentline_set_wrap(w), deterministic_event_data(u, STAMP):
            yield widths(), Event().uid
            yield None
    g = gen()
    ws, uid = next(g)
    prove((max(ws) <= w if w else len(ws) == 1) and uid == u, "the settings are in force")
    g.close()
    check(75, None)

    @contentline_set_wrap(w)
    def f():
        return widths()
    for _ in range(2):
        ws = f()
        prove(max(ws) <= w if w else len(ws) == 1, "the settings are in force")
    check(75, None)


# ------------------------------------------------------------------ deductive part
HOW = ["normal", "return", "break", ValueError, KeyError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, Stop, AssertionError, RuntimeError]


def set_to(width):
    """what a width of a scope means"""
    import sys
    return sys.maxsize if width is None or width <= 0 else width


def wrap_body(how, error, width, inner, inner_how, inner_error):
    """the body of a scope with a scope inside; leaves it in the given way"""
    for _ in range(1):
        with contentline_set_wrap(width):
            prove(DEFAULT_LINE_WRAP.width == set_to(width), "the width of the scope is in force")
            seen = None
            try:
                for _ in range(1):
                    with contentline_set_wrap(inner):
                        prove(DEFAULT_LINE_WRAP.width == set_to(inner), "the width of the inner scope is in force")
                        if inner_how == "break":
                            break
                        if inner_error is not None:
                            raise inner_error
            except (Exception, Stop, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
                seen = e
            prove(seen is inner_error, "the exception leaves the inner scope")
            prove(DEFAULT_LINE_WRAP.width == set_to(width), "the width of the outer scope is restored")
            if how == "return":
                return 1
            if how == "break":
                break
            if error is not None:
                raise error
    return 2


@lemma("C24", cases={"how": HOW, "inner_how": ["normal", "break", StopIteration]}, old=Int(1, 10**6), width=Opt(Int(-10**6, 10**6)), inner=Opt(Int(-10**6, 10**6)))
def wrap_scopes(how, inner_how, old, width, inner):
    """setting the line width, whatever was in force before"""
    before = DEFAULT_LINE_WRAP.width
    DEFAULT_LINE_WRAP.width = old
    error = how() if isinstance(how, type) else None
    inner_error = inner_how() if isinstance(inner_how, type) else None
    seen = result = None
    try:
        try:
            result = wrap_body(how, error, width, inner, inner_how, inner_error)
        except (Exception, Stop, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
            seen = e
        after = DEFAULT_LINE_WRAP.width
    finally:
        DEFAULT_LINE_WRAP.width = before
    prove(after == old, "the previous width is restored")
    prove(seen is error, "the exception is not swallowed")
    prove(error is not None or result == (1 if how == "return" else 2), "the result is unchanged")


def new_entries():
    a, b = Event(), Todo()
    return a.uid, a.dtstamp, b.uid, b.dtstamp


def data_body(how, error, uid, stamp, uid2, stamp2, inner_how, inner_error):
    for _ in range(1):
        with deterministic_event_data(uid, stamp):
            u, t, u2, t2 = new_entries()
            prove(u == uid and u2 == uid and inst(t) == inst(stamp) and inst(t2) == inst(stamp), "exactly the given identifier and timestamp")
            seen = None
            try:
                for _ in range(1):
                    with deterministic_event_data(uid2, stamp2):
                        u, t, u2, t2 = new_entries()
                        prove(u == uid2 and u2 == uid2 and inst(t) == inst(stamp2) and inst(t2) == inst(stamp2), "exactly those of the inner scope")
                        if inner_how == "break":
                            break
                        if inner_error is not None:
                            raise inner_error
            except (Exception, Stop, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
                seen = e
            prove(seen is inner_error, "the exception leaves the inner scope")
            u, t, u2, t2 = new_entries()
            prove(u == uid and u2 == uid and inst(t) == inst(stamp) and inst(t2) == inst(stamp), "those of the outer scope are restored")
            if how == "return":
                return 1
            if how == "break":
                break
            if error is not None:
                raise error
    return 2


@lemma("C24", cases={"how": HOW, "inner_how": ["normal", "break", StopIteration]}, uid=Text(), stamp=DT(), uid2=Text(), stamp2=DT())
def data_scopes(how, inner_how, uid, stamp, uid2, stamp2):
    """fixing the generated identifier and timestamp"""
    assume(not naive(stamp) and not naive(stamp2))
    f, g = default_uid_factory.get(), default_dtstamp_factory.get()
    error = how() if isinstance(how, type) else None
    inner_error = inner_how() if isinstance(inner_how, type) else None
    seen = result = None
    try:
        result = data_body(how, error, uid, stamp, uid2, stamp2, inner_how, inner_error)
    except (Exception, Stop, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
        seen = e
    prove(default_uid_factory.get() is f, "identifiers are generated as before")
    prove(default_dtstamp_factory.get() is g, "timestamps are generated as before")
    prove(seen is error, "the exception is not swallowed")
    prove(error is not None or result == (1 if how == "return" else 2), "the result is unchanged")
