"""Regular expression functions on symbolic texts (only the shapes that occur)."""
import re
import z3
from .values import *
from .engine import SRaise
from .strings import SStr, Ch, Dec, Atom, mkstr, parts_of, chars_of, code
from .seqs import *
from . import strings as st, refimpl

try:
    from re import _parser as sre_parse, _constants as sre_constants
except ImportError:
    import sre_parse, sre_constants


def char_class(pattern, flags=0):
    """predicate on a code point if the pattern matches exactly one character, else None"""
    p = sre_parse.parse(pattern, flags)
    if len(p) != 1:
        return None
    return node_pred(p[0])


def node_pred(node):
    op, av = node
    C = sre_constants
    if op is C.LITERAL:
        return lambda e, av=av: e == av
    if op is C.NOT_LITERAL:
        return lambda e, av=av: e != av
    if op is C.ANY:
        return lambda e: e != 10
    if op is C.IN:
        neg = False
        tests = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                tests.append(lambda e, a=a: e == a)
            elif o is C.RANGE:
                tests.append(lambda e, a=a: z3.And(e >= a[0], e <= a[1]))
            else:
                return None
        f = lambda e: z3.Or([t(e) for t in tests])
        return (lambda e: z3.Not(f(e))) if neg else f
    if op is C.BRANCH:
        preds = []
        for alt in av[1]:
            if len(alt) != 1:
                return None
            q = node_pred(alt[0])
            if q is None:
                return None
            preds.append(q)
        return lambda e: z3.Or([q(e) for q in preds])
    if op is C.SUBPATTERN and len(av[3]) == 1:
        return node_pred(av[3][0])
    return None


def pat_args(I, args):
    p = args[0]
    flags = 0
    if isinstance(p, re.Pattern):
        flags = p.flags & ~re.UNICODE
        p = p.pattern
    if not isinstance(p, str):
        raise Unsupported("computed pattern")
    return p, flags


def native(I, f, args, kw):
    ca = [I.concretize_arg(a) for a in args]
    if I.all_conc(ca, kw):
        try:
            return f(*ca, **kw)
        except SRaise:
            raise
        except Exception as e:
            raise SRaise(e)
    return NotImplemented


def re_search(I, args, kw):
    r = native(I, re.search, args, kw)
    if r is not NotImplemented:
        return r
    from . import models
    pat, flags = pat_args(I, args)
    s = I.resolve(args[1])
    if isinstance(s, SStr) and s.cls is not None:
        raise SRaise(TypeError("expected string or bytes-like object"))
    if not isinstance(s, (SStr, str)):
        raise SRaise(TypeError("expected string or bytes-like object"))
    pred = char_class(pat, flags)
    if pred is not None:
        f = models.any_char(I, s, pred)
        if I.e.decide(models.as_formula(f)):
            return models.RGroup([models.dt.opaque_str(I, "match")], span=(SInt(I.e.fresh_int("start")), SInt(I.e.fresh_int("end"))))
        return None
    h = I.regex_hooks.get(("search", pat))
    if h is not None:
        return h(I, s)
    raise Unsupported(f"re.search({pat!r})")


def re_match_full(I, args, kw, full=True):
    r = native(I, re.fullmatch if full else re.match, args, kw)
    if r is not NotImplemented:
        return r
    pat, flags = pat_args(I, args)
    s = I.resolve(args[1])
    if not isinstance(s, SStr):
        raise SRaise(TypeError("expected string or bytes-like object"))
    if any(isinstance(p, (Many, Atom)) for p in s.parts):
        h = I.regex_hooks.get(("fullmatch" if full else "match", pat))
        if h is not None:
            return h(I, s)
        width = sre_parse.parse(pat, flags).getwidth()[1]
        if not full or width > 200:
            raise Unsupported("match of an unbounded text")
        from . import models
        items, cs = list(st.resolved(I, s).parts), []
        while len(cs) <= width:
            got = models.take_front(I, items, 1)
            if got is None:
                break
            cs += got
        if len(cs) > width:
            return None
    else:
        cs = chars_of(I, s)
    p = sre_parse.parse(pat, flags)
    names = {v: k for k, v in p.state.groupdict.items()}
    for end, groups in match_seq(I, list(p), cs, 0, {}):
        if not full or end == len(cs):
            from . import models
            n = p.state.groups
            gs = [mkstr(cs[:end])] + [(mkstr(cs[groups[i][0]:groups[i][1]]) if i in groups else None) for i in range(1, n)]
            return models.RGroup(gs, {names[i]: gs[i] for i in names}, (0, end))
    return None


def match_seq(I, nodes, cs, i, groups):
    """backtracking matcher on a list of single characters, forking on symbolic ones"""
    if not nodes:
        yield i, groups
        return
    (op, av), rest = nodes[0], nodes[1:]
    C = sre_constants
    if op is C.SUBPATTERN:
        gid, sub = av[0], list(av[3])
        for j, g in match_seq(I, sub, cs, i, groups):
            g2 = dict(g)
            if gid is not None:
                g2[gid] = (i, j)
            yield from match_seq(I, rest, cs, j, g2)
        return
    if op is C.BRANCH:
        for alt in av[1]:
            for j, g in match_seq(I, list(alt), cs, i, groups):
                yield from match_seq(I, rest, cs, j, g)
        return
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        def rep(n, i, g):
            opts = []
            more = n < (hi if hi is not C.MAXREPEAT else 10**9)
            def take():
                for j, g2 in match_seq(I, sub, cs, i, g):
                    if j > i or n < lo:
                        yield from rep(n + 1, j, g2)
            if op is C.MAX_REPEAT and more:
                yield from take()
            if n >= lo:
                yield from match_seq(I, rest, cs, i, g)
            if op is C.MIN_REPEAT and more:
                yield from take()
        yield from rep(0, i, groups)
        return
    if op is C.AT:
        if av in (C.AT_END, C.AT_END_STRING):
            if i == len(cs) or av is C.AT_END and i == len(cs) - 1 and I.e.decide(code(cs[i]) == 10):
                yield from match_seq(I, rest, cs, i, groups)
            return
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                yield from match_seq(I, rest, cs, i, groups)
            return
        raise Unsupported("regular expression anchor")
    pred = node_pred((op, av))
    if pred is None:
        raise Unsupported(f"regular expression element {op}")
    if i < len(cs) and I.e.decide(pred(code(cs[i]))):
        yield from match_seq(I, rest, cs, i + 1, groups)


def re_sub(I, args, kw):
    ca = [I.concretize_arg(a) for a in args]
    pat, flags = pat_args(I, args)
    repl, s = I.resolve(args[1]), I.resolve(args[2])
    if isinstance(s, str) and isinstance(repl, str):
        return I.call_native(re.sub, args, kw)
    if isinstance(s, str):
        out = []
        pos = 0
        for m in re.finditer(pat, s):
            out.append(s[pos:m.start()])
            out.append(I.resolve(I.call(repl, [m], {})))
            pos = m.end()
        out.append(s[pos:])
        return mkstr([SStr(list(parts_of(x))) for x in out])
    h = I.regex_hooks.get(("sub", pat))
    if h is not None:
        return h(I, repl, s)
    lit = literal_then_any(pat, flags)
    if lit is not None and not isinstance(repl, (str, SStr)):
        return I.call(refimpl.sub_literal_any, [lit, repl, s], {})
    raise Unsupported(f"re.sub({pat!r})")


def literal_then_any(pat, flags):
    """c if the pattern is the literal c followed by the group (.?)"""
    C = sre_constants
    p = sre_parse.parse(pat, flags)
    if flags or len(p) != 2 or p[0][0] is not C.LITERAL or p[1][0] is not C.SUBPATTERN or p[0][1] == 10:
        return None
    sub = p[1][1][3]
    if len(sub) != 1 or sub[0][0] is not C.MAX_REPEAT:
        return None
    lo, hi, x = sub[0][1]
    if lo == 0 and hi == 1 and len(x) == 1 and x[0][0] is C.ANY:
        return chr(p[0][1])
    return None


def make_match(I, args, kw):
    from . import models
    return models.RGroup([args[0], args[1]])


def re_split(I, args, kw):
    r = native(I, re.split, args, kw)
    if r is not NotImplemented:
        return I.from_native(r)
    pat, flags = pat_args(I, args)
    h = I.regex_hooks.get(("split", pat))
    if h is not None:
        return h(I, I.resolve(args[1]))
    raise Unsupported(f"re.split({pat!r})")


def re_finditer(I, args, kw):
    r = native(I, re.finditer, args, kw)
    if r is not NotImplemented:
        return I.new_iter(list(r))
    pat, flags = pat_args(I, args)
    h = I.regex_hooks.get(("finditer", pat))
    if h is not None:
        return h(I, I.resolve(args[1]))
    raise Unsupported(f"re.finditer({pat!r})")


def install(I):
    I.regex_hooks = {}
    I.models.update({
        re.search: re_search, re.fullmatch: lambda I, a, k: re_match_full(I, a, k, True), re.match: lambda I, a, k: re_match_full(I, a, k, False),
        re.sub: re_sub, re.split: re_split, re.finditer: re_finditer, refimpl.make_match: make_match,
    })
