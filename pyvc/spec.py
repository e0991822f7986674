"""The specification language used in /verif/specs: lemmas, contracts and their statements.

A lemma is an ordinary Python function over the real code of /repo that states assumptions with assume() and claims with
prove(). The verifier executes it symbolically for all arguments of the given sorts; natively it runs as a test.
"""
import datetime as _dt


class Violation(BaseException):
    def __init__(self, name, detail=None):
        self.name, self.detail = name, detail


class Discard(BaseException):
    pass


LEMMAS = {}
CONTRACTS = {}
_reached = None


class Lemma:
    def __init__(self, fn, prop, sorts, mode, cases, doc, weight, tier, tzs):
        self.fn, self.prop, self.sorts, self.mode, self.cases = fn, prop, sorts, mode, cases
        self.name = fn.__name__
        self.key = f"{prop}.{fn.__name__}"
        self.doc = doc
        self.weight = weight
        self.tier = tier
        self.tzs = tzs


def lemma(prop, mode="proof", cases=None, weight=1, tier="quick", tzs=None, **sorts):
    """mode: proof (symbolic + sampled) or bounded (sampled only, stated as such)"""
    def deco(fn):
        l = Lemma(fn, prop, sorts, mode, cases or {}, (fn.__doc__ or "").strip(), weight, tier, tzs)
        LEMMAS[l.key] = l
        return fn
    return deco


class Contract:
    def __init__(self, target, fn, sorts, name, props):
        self.target, self.fn, self.sorts, self.name, self.props = target, fn, sorts, name, props


def contract(target, props=(), **sorts):
    """functional contract: for all arguments of the sorts, target(*args) behaves exactly like the decorated function.
    Verified against the body of the target; callers then use the decorated function instead of the body."""
    def deco(fn):
        if target is not None:
            c = Contract(target, fn, sorts, fn.__name__, props)
            CONTRACTS[c.name] = c
        return fn
    return deco


def prove(cond, name, detail=None):
    if _reached is not None:
        _reached[name] = _reached.get(name, 0) + 1
    if not cond:
        raise Violation(name, detail)


def assume(cond):
    if not cond:
        raise Discard()


# ------------------------------------------------------------------ logical vocabulary (no short-circuit forks)
def implies(a, b):
    return (not a) or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def both(*xs):
    return all(bool(x) for x in xs)


def either(*xs):
    return any(bool(x) for x in xs)


# ------------------------------------------------------------------ vocabulary for times
def wall(d):
    """wall clock reading in microseconds since 0001-01-01"""
    from .values import wall_of
    return wall_of(d)


def inst(d):
    """instant in UTC microseconds; naive readings are local times of the system"""
    from .values import wall_of, td_us
    if d.tzinfo is None:
        return wall_of(d.astimezone(_dt.timezone.utc))
    return wall_of(d) - td_us(d.utcoffset())


def us(td):
    from .values import td_us
    return td_us(td)


def naive(d):
    return d.tzinfo is None


def same_reading(a, b):
    """same wall clock reading and the same timezone object"""
    return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.tzinfo is b.tzinfo and a.fold == b.fold


def parsed_data(items, error):
    """a text the parser reads as these top-level items, followed by a ParseError if error is set"""
    return "\r\n".join([x.serialize() for x in items] + (["no line at all"] if error else []))


def lines_of_items(items, tail=()):
    """iterator over the property lines of (line or component, written name) pairs, components enclosed in BEGIN and
    END, followed by the lines of the tail.  A component that is None is one that is not ended properly."""
    from ics.contentline import ContentLine

    def lines():
        for x, n in items:
            if isinstance(x, ContentLine):
                yield x
            elif x is None:
                yield ContentLine("BEGIN", value=n)
                yield ContentLine("BEGIN", value="X")
                yield ContentLine("END", value="X-Y")
            else:
                yield ContentLine("BEGIN", value=n)
                yield from lines_of_items([(y, getattr(y, "name", None)) for y in x.data])
                yield ContentLine("END", value=x.name)
        yield from tail
    return lines()


def sorted_permutation(result, items):
    """the items, all of them and no others, in an order in which no item is smaller than an earlier one"""
    a, b = sorted(map(id_key, result)), sorted(map(id_key, items))
    return a == b and all(not y < x for x, y in zip(result, result[1:]))


def id_key(x):
    return tuple(map(id_key, x)) if isinstance(x, tuple) else hash(repr(x)) if not hasattr(x, "uid") else id(x)


def span_relation(name, a, b):
    """C14: how a timespan relates to another one or to an instant (half-open intervals of local times)"""
    def local(d):
        from dateutil.tz import tzlocal
        return d.astimezone(tzlocal()) if d.tzinfo is None else d

    def bounds(t):
        from ics.timespan import EventTimespan
        if isinstance(t, _dt.datetime):
            return (local(t),) * 2
        e = t.end_time
        if e is None:
            e = t.begin_time + (t.duration if t.duration is not None else _dt.timedelta(1 if t.precision == "day" else 0))
        return local(t.begin_time), local(e)
    (b1, e1), (b2, e2) = bounds(a), bounds(b)
    if name == "intersects":
        return b2 <= b1 < e2 or b1 <= b2 < e1
    if name == "is_included_in":
        return b2 <= b1 and e1 < e2
    return b1 <= b2 and e2 < e1


def wrapped_pieces(text):
    """(first, rest): the pieces the text is wrapped into with the current settings, without indentation"""
    from ics.contentline.container import DEFAULT_LINE_WRAP
    ls = DEFAULT_LINE_WRAP.wrap(text)
    return ls[0], [l[1:] for l in ls[1:]]


def as_lines(text):
    """the physical lines of such a text, with line ends"""
    return [l + "\n" for l in text.split("\n")]


def native(f):
    """marks helper functions of specs that are only called in bounded lemmas"""
    return f
