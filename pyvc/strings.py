"""Symbolic strings: ropes of literals, single characters, decimal numbers, opaque texts and unbounded segments."""
import z3
from .values import *
from .seqs import Many, SeqVar


class Ch:
    """one character, e: its code point"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __repr__(self): return f"Ch({self.e})"


class Dec:
    """the decimal digits of a non-negative integer; width: number of digits (zero padded) or None for the shortest form"""
    __slots__ = ("e", "width")
    def __init__(self, e, width=None): self.e, self.width = e, width
    def __repr__(self): return f"Dec({self.e},{self.width})"


class Atom:
    """an arbitrary text known only by its identity e (an Int term; literals have fixed identities, see lit_id)"""
    __slots__ = ("e", "cls")
    def __init__(self, e, cls=None): self.e, self.cls = e, cls
    def __repr__(self): return f"Atom({self.e})"


_LITS = {}


def lit_id(s):
    """identity of a literal text (distinct texts have distinct identities)"""
    if s not in _LITS:
        _LITS[s] = len(_LITS)
    return z3.IntVal(_LITS[s])


_upper = z3.Function("str.upper", z3.IntSort(), z3.IntSort())
_lower = z3.Function("str.lower", z3.IntSort(), z3.IntSort())


class SStr(Sym):
    pytype = str
    __slots__ = ("parts", "cls")
    def __init__(self, parts, cls=None):
        self.parts = parts
        self.cls = cls
    def __repr__(self): return f"SStr({self.parts})"

    def concrete(self):
        if all(isinstance(p, str) for p in self.parts):
            return "".join(self.parts)
        return None

    def subst(self, sub):
        return mkstr(subst_parts(self.parts, sub))


def subst_parts(parts, sub):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Ch):
            out.append(Ch(sub.formula(p.e)))
        elif isinstance(p, Dec):
            out.append(Dec(sub.formula(p.e), p.width))
        elif isinstance(p, Atom):
            out.append(Atom(sub.formula(p.e), p.cls))
        elif isinstance(p, Many):
            out.append(sub.part(p))
        else:
            raise Unsupported(f"rope item {p!r}")
    return out


def norm_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            sub = p.parts
        else:
            sub = [p]
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            elif isinstance(q, Ch):
                e = z3.simplify(q.e) if isinstance(q.e, z3.ExprRef) else z3.IntVal(q.e)
                if z3.is_int_value(e):
                    c = chr(e.as_long())
                    if out and isinstance(out[-1], str):
                        out[-1] += c
                    else:
                        out.append(c)
                    continue
                q = Ch(e)
            elif isinstance(q, Many):
                if all(all(_empty_text(v) for v in vs) for _, vs in q.cases):
                    continue
            out.append(q)
    return out


def _empty_text(v):
    return v == "" if isinstance(v, str) else (isinstance(v, SStr) and not v.parts)


def mkstr(parts):
    """python str if the result is concrete, else SStr"""
    ps = norm_parts(parts)
    if not ps:
        return ""
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0]
    return SStr(ps)


def parts_of(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, SStr):
        return v.parts
    raise Unsupported(f"not a string: {v!r}")


def str_concat(interp, vals):
    return mkstr([x for v in vals for x in (parts_of(v))])


def resolved(I, s):
    """apply the splits of unbounded segments decided on this path"""
    if isinstance(s, SStr) and any(isinstance(p, Many) for p in s.parts):
        ps = I.resolve_parts(s.parts)
        s = mkstr(ps)
    return s


def item_nonempty(I, p):
    """z3 formula / bool: the rope item is non-empty"""
    if isinstance(p, str):
        return len(p) > 0
    if isinstance(p, (Ch, Dec)):
        return True
    if isinstance(p, Atom):
        return p.e != lit_id("")
    if isinstance(p, Many):
        from . import loops
        gs = []
        for g, vs in p.cases:
            ne = False
            for v in vs:
                for q in parts_of(v):
                    r = item_nonempty(I, q)
                    if r is True:
                        ne = True
                    elif r is not False:
                        raise Unsupported("emptiness of nested text")
            if ne:
                gs.append(g)
        return loops.exists_elem(I, p.seq, gs)
    raise Unsupported(f"rope item {p!r}")


def nonempty(I, s):
    s = resolved(I, s)
    if isinstance(s, str):
        return s != ""
    rs = []
    for p in s.parts:
        r = item_nonempty(I, p)
        if r is True:
            return True
        if r is False:
            continue
        rs.append(r)
    if not rs:
        return False
    return I.e.decide(z3.Or(rs))


def length(I, s):
    """length of a string: int or SInt"""
    s = resolved(I, s)
    if isinstance(s, str):
        return len(s)
    n = 0
    for p in s.parts:
        if isinstance(p, str):
            n = n + len(p)
        elif isinstance(p, Ch):
            n = n + 1
        elif isinstance(p, Dec):
            n = n + (len(expand_dec(I, p)) if p.width is None else p.width)
        elif isinstance(p, Atom):
            f = z3.Function("str.len", z3.IntSort(), z3.IntSort())(p.e)
            I.e.add(z3.And(f >= 0, (f == 0) == (p.e == lit_id(""))))
            n = n + f
        else:
            raise Unsupported(f"length of an unbounded text {s!r}")
    return n if isinstance(n, int) else SInt(z3.simplify(n))


def digit(e, k):
    """k-th decimal digit (0 = last) as number term"""
    return (e / (10 ** k)) % 10 if k else e % 10


def chars_of(I, s):
    """list of single-character items (str of length 1 or Ch); only for texts of known length"""
    s = resolved(I, s)
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, Ch):
            out.append(p)
        elif isinstance(p, Dec):
            out.extend(expand_dec(I, p))
        else:
            raise Unsupported("characters of an unbounded text")
    return out


def expand_dec(I, p):
    """digits of a number as characters; forks on the number of digits if necessary"""
    if p.width is None:
        n = 1
        while I.e.decide(p.e >= 10 ** n):
            n += 1
            if n > 30:
                raise Unsupported("number with unbounded number of digits")
    else:
        n = p.width
    key = ("digits", p.e.get_id(), n)
    ds = I.e.store.get(key)
    if ds is None:
        if n == 1:
            ds = [p.e]
            keep = p.e
        else:
            ds = [I.e.fresh_int("digit", 0, 9) for _ in range(n)]
            I.e.add(z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)]) == p.e)
        I.e.set_store(key, ds)
        I.e.set_store(("keep", p.e.get_id()), p.e)
    return [Ch(48 + d) for d in ds]


def code(c):
    if isinstance(c, str):
        return z3.IntVal(ord(c))
    return c.e


def is_single(s):
    """the single character item of a one-character string, or None"""
    if isinstance(s, str):
        return s if len(s) == 1 else None
    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Ch):
        return s.parts[0]
    return None


# ---------------------------------------------------------------- equality
def _pair_eq(I, a, b):
    """equality of two rope items that occupy the same place; None if unknown"""
    if isinstance(a, Ch) and isinstance(b, Ch):
        return a.e == b.e
    if isinstance(a, Atom) and isinstance(b, Atom):
        return a.e == b.e
    if isinstance(a, Dec) and isinstance(b, Dec) and a.width == b.width:
        return a.e == b.e
    return None


def same_item(I, a, b):
    """are two rope items equal for sure (used to cancel common prefixes)?"""
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, Many) and isinstance(b, Many):
        from . import loops
        return loops.many_equal(I, a, b)
    r = _pair_eq(I, a, b)
    if r is None:
        return False
    return I.e.entails(r)


def rotated(I, parts):
    """x (y x)* == (x y)* x for literals x"""
    from . import loops
    parts = norm_parts(loops.drop_empty(I, parts))
    i = 1
    while i < len(parts):
        m, prev = parts[i], parts[i - 1]
        if isinstance(m, Many) and isinstance(prev, str):
            blocks = [norm_parts([q for v in vs for q in parts_of(v)]) for g, vs in m.cases]
            if all(b and isinstance(b[-1], str) for b in blocks):
                n = 0
                while n < len(prev) and all(n < len(b[-1]) and b[-1][-1 - n] == prev[-1 - n] for b in blocks):
                    n += 1
                if n:
                    x = prev[len(prev) - n:]
                    new = Many(m.seq, [(g, [mkstr([x] + b[:-1] + [b[-1][:len(b[-1]) - n]])]) for (g, _), b in zip(m.cases, blocks)])
                    parts = norm_parts(parts[:i - 1] + [prev[:len(prev) - n], new, x] + parts[i + 1:])
                    i = max(1, i - 1)
                    continue
        i += 1
    return parts


def streq(I, a, b):
    """exact equality of two strings as bool / SBool; raises Unsupported if it can't be expressed"""
    a, b = resolved(I, a), resolved(I, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = list(parts_of(a)), list(parts_of(b))
    if "wrapped" in I.e.store:
        from . import folding
        pa, pb = folding.unwrapped(I, pa), folding.unwrapped(I, pb)
    if any(isinstance(p, Many) for p in pa) and any(isinstance(p, Many) for p in pb):
        pa, pb = rotated(I, pa), rotated(I, pb)
    conds = []
    # cancel from both ends
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if end == 0:
                    if x[:n] != y[:n]:
                        return False
                    x, y = x[n:], y[n:]
                else:
                    if x[len(x) - n:] != y[len(y) - n:]:
                        return False
                    x, y = x[:len(x) - n], y[:len(y) - n]
                _put(pa, end, x); _put(pb, end, y)
                continue
            if isinstance(x, Ch) and isinstance(y, (Ch, str)) or isinstance(y, Ch) and isinstance(x, (Ch, str)):
                cx = x if isinstance(x, Ch) else (x[0] if end == 0 else x[-1])
                cy = y if isinstance(y, Ch) else (y[0] if end == 0 else y[-1])
                conds.append(code(cx) == code(cy))
                _put(pa, end, "" if isinstance(x, Ch) else (x[1:] if end == 0 else x[:-1]))
                _put(pb, end, "" if isinstance(y, Ch) else (y[1:] if end == 0 else y[:-1]))
                continue
            if isinstance(x, Dec) and isinstance(y, Dec) and x.width is not None and x.width == y.width:
                conds.append(x.e == y.e)
                pa.pop(end); pb.pop(end)
                continue
            if isinstance(x, Dec) and x.width is not None and isinstance(y, (str, Ch)):
                pa[end:end + 1 or None] = expand_dec(I, x) if True else None
                continue
            if isinstance(y, Dec) and y.width is not None and isinstance(x, (str, Ch)):
                pb[end:end + 1 or None] = expand_dec(I, y)
                continue
            if same_item(I, x, y):
                pa.pop(end); pb.pop(end)
                continue
            break
    if not pa and not pb:
        return _conj(conds)
    # one side exhausted: equal iff the rest of the other is empty
    if not pa or not pb:
        rest = pa or pb
        ne = []
        for p in rest:
            r = item_nonempty(I, p)
            if r is True:
                return False
            if r is not False:
                ne.append(z3.Not(r))
        return _conj(conds + ne)
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        r = _pair_eq(I, x, y)
        if r is not None:
            return _conj(conds + [r])
        if isinstance(x, Atom) and isinstance(y, str):
            return _conj(conds + [x.e == lit_id(y)])
        if isinstance(y, Atom) and isinstance(x, str):
            return _conj(conds + [y.e == lit_id(x)])
        if isinstance(x, Dec) and isinstance(y, Dec):
            if x.width is None and y.width is None:
                return _conj(conds + [x.e == y.e])
    # a short literal against a structure with at least that many characters
    if I.e.entails(z3.Not(z3.And(conds))) if conds else False:
        return False
    ml = sum(_minlen(p) for p in pa)
    mb = sum(_minlen(p) for p in pb)
    if all(isinstance(p, (str, Ch)) for p in pb) and ml > mb or all(isinstance(p, (str, Ch)) for p in pa) and mb > ml:
        return False
    r = _differ_by_alphabet(I, pa, pb)
    if r:
        return False
    if any(isinstance(p, Dec) for p in pa + pb) and not any(isinstance(p, (Many, Atom)) for p in pa + pb):
        ca = chars_of(I, SStr(pa))
        cb = chars_of(I, SStr(pb))
        if len(ca) != len(cb):
            return False
        return _conj(conds + [code(p) == code(q) for p, q in zip(ca, cb)])
    # an unknown sequence of characters against a literal: compare character by character
    for side, other in ((pa, pb), (pb, pa)):
        if all(isinstance(p, (str, Ch)) for p in other) and isinstance(side[0], Many):
            from . import loops
            if conds and not I.e.decide(z3.And(conds)):
                return False
            return streq(I, mkstr(loops.split_first_text(I, side[0]) + side[1:]), mkstr(other))
        if all(isinstance(p, (str, Ch)) for p in other) and isinstance(side[-1], Many):
            from . import loops
            if conds and not I.e.decide(z3.And(conds)):
                return False
            return streq(I, mkstr(side[:-1] + loops.split_last_text(I, side[-1])), mkstr(other))
    raise Unsupported(f"equality of {a!r} and {b!r}")


def _differ_by_alphabet(I, pa, pb):
    return False


def _minlen(p):
    if isinstance(p, str):
        return len(p)
    if isinstance(p, Ch):
        return 1
    if isinstance(p, Dec):
        return p.width or 1
    return 0


def _put(l, end, x):
    if x == "":
        l.pop(end)
    else:
        l[end] = x


def _conj(conds):
    if not conds:
        return True
    f = z3.simplify(z3.And(conds)) if len(conds) > 1 else z3.simplify(conds[0])
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SBool(f)
