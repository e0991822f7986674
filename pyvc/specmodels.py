"""Symbolic meaning of the specification vocabulary."""
import z3
from . import spec, dtmodel as dt
from .values import *
from .engine import Prune


def _b(I, v):
    return I.as_bool(v)


def install(I):
    def prove(I, args, kw):
        cond = args[0]
        name = args[1] if len(args) > 1 else kw["name"]
        detail = args[2] if len(args) > 2 else kw.get("detail")
        c = _b(I, I.resolve(cond))
        I.e.prove(c, name, str(detail) if detail is not None else None)
        return None

    def assume(I, args, kw):
        I.e.assume(_b(I, I.resolve(args[0])))
        return None

    def conj(I, args, kw):
        fs = [_b(I, I.resolve(a)) for a in args]
        if any(f is False for f in fs):
            return False
        fs = [f for f in fs if f is not True]
        return True if not fs else SBool(z3.And(fs))

    def disj(I, args, kw):
        fs = [_b(I, I.resolve(a)) for a in args]
        if any(f is True for f in fs):
            return True
        fs = [f for f in fs if f is not False]
        return False if not fs else SBool(z3.Or(fs))

    def implies(I, args, kw):
        a, b = (_b(I, I.resolve(x)) for x in args)
        if a is False or b is True:
            return True
        if a is True:
            return b if isinstance(b, bool) else SBool(b)
        return SBool(z3.Implies(a, z3.BoolVal(b) if isinstance(b, bool) else b))

    def iff(I, args, kw):
        a, b = (_b(I, I.resolve(x)) for x in args)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        zz = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
        return SBool(zz(a) == zz(b))

    def wall(I, args, kw):
        return dt.sint(dt.lift(I, I.resolve(args[0])).wall)

    def inst(I, args, kw):
        d = dt.lift(I, I.resolve(args[0]))
        if dt.tz_of(I, d) is None:
            return dt.sint(d.wall - dt.sys_offset(I, d.wall, d.fold))
        return dt.sint(dt.instant(I, d))

    def us(I, args, kw):
        return dt.sint(dt.lift(I, I.resolve(args[0])).us)

    def naive(I, args, kw):
        return dt.tz_of(I, dt.lift(I, I.resolve(args[0]))) is None

    def same_reading(I, args, kw):
        a, b = (dt.lift(I, I.resolve(x)) for x in args)
        ta, tb = dt.tz_of(I, a), dt.tz_of(I, b)
        same = I.is_(ta, tb)
        f = z3.And(a.wall == b.wall, dt.zi(a.fold) == dt.zi(b.fold))
        if same is False:
            return False
        return dt.mkbool(f if same is True else z3.And(f, same.e))

    def parsed_data(I, args, kw):
        from .strings import SStr, Atom, lit_id
        e = I.e.fresh_int("text")
        I.e.add(e != lit_id(""))
        I.e.set_store(("parsed", str(e)), (I.resolve(args[0]), args[1]))
        return SStr([Atom(e)])

    def lines_of_items(I, args, kw):
        from ics.contentline import ContentLine, Container
        from .contracts import Rest

        def lines(p):
            x, n = I.resolve(p)
            x = I.resolve(x)
            if isinstance(x, SObj) and x.cls is ContentLine:
                return [x]
            begin = I.call(ContentLine, ["BEGIN"], {"value": n})
            return [begin, Rest(x, n)]
        from . import loops
        out = loops.stream_map(I, I.get_iter(args[0]), lines)
        tail = args[1] if len(args) > 1 else ()
        I.set_parts(out, out.parts + list(I.resolve_parts(I.get_iter(tail).parts)), "refine")
        return out

    def sorted_permutation(I, args, kw):
        from . import loops
        from .seqs import Many
        a, b = (I.resolve_parts(I.resolve(x).parts) for x in args)
        if len(a) != 1 or len(b) != 1 or not isinstance(a[0], Many) or not isinstance(b[0], Many):
            return loops.finite_sorted_permutation(I, a, b)
        o = a[0].seq.origin
        if not (o and o[0] == "perm" and o[2] is None and o[3] is False):
            return False
        return loops.many_equal(I, Many(o[1], a[0].cases), b[0])

    def span_relation(I, args, kw):
        from . import contracts
        if not any(c in I.contracts for c in (getattr(__import__("ics.timespan").timespan.Timespan, args[0]),)):
            raise Unsupported("span_relation without the contract")
        r = contracts.span_relation(I, args[0], args[1], args[2])
        if r is None:
            raise Unsupported("span_relation of incomplete timespans")
        return r

    def wrapped_pieces(I, args, kw):
        from . import folding
        from .strings import mkstr
        from .seqs import Many
        from ics.contentline.container import DEFAULT_LINE_WRAP
        first, seq = folding.pieces(I, DEFAULT_LINE_WRAP, I.resolve(args[0]))
        return (mkstr(first), I.new_list([Many(seq, [(True, [seq.elem])])]))

    def as_lines(I, args, kw):
        return I.new_list([I.resolve(args[0])])

    for fn, h in ((spec.wrapped_pieces, wrapped_pieces), (spec.span_relation, span_relation), (spec.lines_of_items, lines_of_items), (spec.parsed_data, parsed_data), (spec.as_lines, as_lines), (spec.sorted_permutation, sorted_permutation), (spec.prove, prove), (spec.assume, assume), (spec.both, conj), (spec.either, disj), (spec.implies, implies),
                  (spec.iff, iff), (spec.wall, wall), (spec.inst, inst), (spec.us, us), (spec.naive, naive), (spec.same_reading, same_reading)):
        I.models[fn] = h
