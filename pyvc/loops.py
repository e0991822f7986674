"""Loops, comprehensions and quantified statements over sequences of unknown length.

The rule for a loop over an unbounded segment (`Many`) is induction over the segment with the invariant "what the loop
did so far is the concatenation of what it did for each element": the body is executed once for the canonical
(arbitrary) element in a nested exploration. That is sound only if the body for one element does not read anything an
earlier iteration wrote; therefore all locals the body assigns are poisoned before the nested exploration (reading
them before writing them is rejected) and the only effects on objects that existed before are appends to lists /
yields / insertions into dicts, which are collected, guarded by the path condition of the element.
"""
import ast
import z3

from .values import *
from .seqs import *
from .engine import Prune, SRaise
from . import strings as st
from .strings import SStr, parts_of, mkstr, Ch, Dec, Atom

END = object()
MAX_UNROLL = 400


def gand(g, f):
    if g is True:
        return f
    if f is True:
        return g
    if g is False or f is False:
        return False
    return z3.And(g, f)


def gor(gs):
    gs = [g for g in gs if g is not False]
    if not gs:
        return False
    if any(g is True for g in gs):
        return True
    return gs[0] if len(gs) == 1 else z3.Or(gs)


def gnot(g):
    return (not g) if isinstance(g, bool) else z3.Not(g)


def zb(g):
    return z3.BoolVal(g) if isinstance(g, bool) else g


# ---------------------------------------------------------------- existence
def seq_nonempty(I, seq):
    I.e.add(seq.len >= 0)
    return seq.len > 0


def all_facts(I, seq):
    """facts known about every element on the current path"""
    facts = list(I.seq_facts(seq))
    for f, b in I.e.store.get(("exists", seq.name), ()):
        if I.e.entails(z3.Not(b)):
            facts.append(z3.Not(zb(f)))
    return facts


def add_fact(I, seq, f):
    if f is True:
        return
    if f is False or not isinstance(f, bool) and z3.is_false(z3.simplify(f)):
        I.e.add(seq.len == 0)
    cur = I.e.store.get(("facts", seq.name), [])
    I.e.set_store(("facts", seq.name), cur + [zb(f)])


def exists_elem(I, seq, guards):
    """formula: some element of the sequence satisfies one of the guards (over its canonical element)"""
    f = gor(guards)
    if f is False:
        return z3.BoolVal(False)
    if f is not True:
        f = z3.simplify(f)
        if z3.is_false(f):
            return z3.BoolVal(False)
        if z3.is_true(f):
            f = True
    sp = I.e.store.get(("split", seq.name))
    if sp is not None:
        out = []
        for q in sp:
            if isinstance(q, SeqVar):
                out.append(exists_elem(I, q, [f]))
            else:
                out.append(zb(subst(I, seq, q).formula(f)))
        return z3.Or(out)
    if f is True:
        return seq_nonempty(I, seq)
    facts = I.seq_facts(seq)
    reg = I.e.store.get(("exists", seq.name), [])
    s = I.e.solver
    ctx = [zb(x) for x in facts]
    if I.e.check(*ctx, f) == z3.unsat:
        return z3.BoolVal(False)
    rel = []
    for g, b in reg:
        fg = I.e.check(*ctx, f, z3.Not(g)) == z3.unsat
        gf = I.e.check(*ctx, g, z3.Not(f)) == z3.unsat
        if fg and gf:
            return b
        if fg:
            rel.append((None, b))
        if gf:
            rel.append((b, None))
    b = I.e.fresh_bool(f"exists({seq.name})")
    I.e.set_store(("exists", seq.name), reg + [(f, b)])
    I.e.add(z3.Implies(b, seq_nonempty(I, seq)))
    for lo, hi in rel:
        I.e.add(z3.Implies(b, hi) if lo is None else z3.Implies(lo, b))
    if I.e.check(*ctx, z3.Not(f)) == z3.unsat:
        I.e.add(b == (seq.len > 0))
    return b


def subst(I, seq, elem):
    from .interp import Subst
    return Subst(I, seq, elem)


def split_witness(I, seq, pre_fact, wit_fact):
    """seq = pre ++ [w] ++ post, w satisfies wit_fact, all of pre satisfy pre_fact"""
    reg = I.e.store.get(("exists", seq.name), [])
    pre, w, post = I.split_witness(seq, [] if pre_fact is True else [zb(pre_fact)])
    sub = subst(I, seq, w)
    if pre_fact is False or not isinstance(pre_fact, bool) and z3.is_false(z3.simplify(pre_fact)):
        I.e.add(pre.len == 0)
    for f in I.seq_facts(seq):
        I.e.add(sub.formula(f))
    for f, b in reg:
        ep, eq_ = exists_elem(I, pre, [f]), exists_elem(I, post, [f])
        I.e.add(b == z3.Or(ep, zb(sub.formula(f)), eq_))
    if wit_fact is not True:
        if I.e.trail is not None and known_to_exist(I, seq, reg, wit_fact):
            I.e.add(sub.formula(wit_fact))      # w is the first such element
        else:
            I.e.assume(sub.formula(wit_fact))
    return pre, w, post


def known_to_exist(I, seq, reg, fact):
    """some element is known to satisfy the formula"""
    fact = zb(fact)
    ctx = [zb(x) for x in I.seq_facts(seq)]
    return any(I.e.entails(b) and I.e.check(*ctx, f, z3.Not(fact)) == z3.unsat and I.e.check(*ctx, fact, z3.Not(f)) == z3.unsat for f, b in reg)


def block_guard(many):
    """guard under which an element contributes at least one value"""
    return gor([g for g, vs in many.cases if vs])


def split_first(I, many):
    """expose the first contributed value of a segment, or [] if it contributes nothing"""
    seq = many.seq
    sp = I.e.store.get(("split", seq.name))
    if sp is not None:
        return split_first_parts(I, I.resolve_parts([many]))
    g = block_guard(many)
    if not I.e.decide(exists_elem(I, seq, [g])):
        add_fact(I, seq, gnot(g))
        return []
    pre, w, post = split_witness(I, seq, gnot(g), g)
    vals = I.instantiate(many, w)
    if not vals:
        raise Prune()
    return vals + [Many(post, many.cases)]


def parts_nonempty(I, parts):
    """decide whether parts contribute any value"""
    for p in parts:
        if not isinstance(p, Many):
            return True
        g = block_guard(p)
        if I.e.decide(exists_elem(I, p.seq, [g])):
            return True
        add_fact(I, p.seq, gnot(g))
    return False


def split_first_parts(I, parts):
    parts = list(parts)
    while parts and isinstance(parts[0], Many):
        parts[0:1] = split_first(I, parts[0])
    return parts


def split_last(I, many):
    seq = many.seq
    if I.e.store.get(("split", seq.name)) is not None:
        return split_last_parts(I, I.resolve_parts([many]))
    g = block_guard(many)
    if not I.e.decide(exists_elem(I, seq, [g])):
        add_fact(I, seq, gnot(g))
        return []
    pre, w, post = split_witness(I, seq, True, g)
    add_fact(I, post, gnot(g))
    vals = I.instantiate(many, w)
    if not vals:
        raise Prune()
    return [Many(pre, many.cases)] + vals


def split_last_parts(I, parts):
    parts = list(parts)
    while parts and isinstance(parts[-1], Many):
        parts[-1:] = split_last(I, parts[-1])
    return parts


def _text_block(many):
    """cases of a text segment by characters"""
    gs = []
    for g, vs in many.cases:
        if any(not st._empty_text(v) for v in vs):
            gs.append(g)
    return gor(gs)


def split_first_text(I, many):
    seq = many.seq
    g = _text_block(many)
    if not I.e.decide(exists_elem(I, seq, [g])):
        add_fact(I, seq, gnot(g))
        return []
    pre, w, post = split_witness(I, seq, gnot(g), g)
    vals = I.instantiate(many, w)
    return [q for v in vals for q in parts_of(v)] + [Many(post, many.cases)]


def split_last_text(I, many):
    seq = many.seq
    g = _text_block(many)
    if not I.e.decide(exists_elem(I, seq, [g])):
        add_fact(I, seq, gnot(g))
        return []
    pre, w, post = split_witness(I, seq, True, g)
    add_fact(I, post, gnot(g))
    vals = I.instantiate(many, w)
    return [Many(pre, many.cases)] + [q for v in vals for q in parts_of(v)]


def elem_index(I, seq):
    """position of the canonical element in its sequence (element-indexed Skolem function)"""
    i = z3.Int(f"{seq.prefix}.index({seq.name})")
    key = ("indexed", seq.name)
    if not I.e.store.get(key):
        I.e.set_store(key, True)
        add_fact(I, seq, z3.And(i >= 0, i < seq.len))
    return i


# ---------------------------------------------------------------- equality of segments
def drop_empty(I, parts):
    out = []
    for p in parts:
        if isinstance(p, Many):
            g = block_guard(p)
            if g is False:
                continue
            if not I.e.entails(exists_elem(I, p.seq, [g])) and I.e.entails(z3.Not(exists_elem(I, p.seq, [g]))):
                continue
        out.append(p)
    return out


def many_equal(I, a, b):
    """are two segments certainly equal (same sequence, equal contributions for every element)?"""
    if a is b:
        return True
    if a.seq is not b.seq and a.seq.name != b.seq.name:
        return False
    facts = [zb(f) for f in all_facts(I, a.seq)]
    for ga, va in a.cases:
        for gb, vb in b.cases:
            g = gand(ga, gb)
            if g is False:
                continue
            if I.e.check(*facts, zb(g)) == z3.unsat:
                continue
            I.e.solver.push()
            mark = len(I.e.journal)
            for f in facts:
                I.e.solver.add(f)
            I.e.solver.add(zb(g))
            try:
                ok = _certainly_equal(I, va, vb)
            finally:
                I.e.rollback(mark)
                I.e.solver.pop()
            if not ok:
                return False
    return True


def _certainly_equal(I, va, vb):
    if va and all(isinstance(x, (str, SStr)) for x in list(va) + list(vb)):
        va, vb = [mkstr([q for x in va for q in parts_of(x)])], [mkstr([q for x in vb for q in parts_of(x)])]
    if not va and vb and all(isinstance(x, (str, SStr)) for x in vb):
        va, vb = [""], [mkstr([q for x in vb for q in parts_of(x)])]
    if len(va) != len(vb):
        return False
    res = []
    for x, y in zip(va, vb):
        if x is y:
            continue
        ok = [True]

        def run():
            return I.truth(I.eq(x, y))

        def out(r):
            if not r:
                ok[0] = False
        trail = I.e.trail
        try:
            if trail is not None:
                I.e.trail = list(trail)
            I.e.explore(run, out)
        except SRaise:
            return False
        finally:
            I.e.trail = trail
        if not ok[0]:
            return False
    return True


# ---------------------------------------------------------------- iteration
def iter_next(I, it):
    I.sync_iter(it)
    parts = I.resolve_parts(it.parts)
    while parts and isinstance(parts[0], Many):
        parts = split_first(I, parts[0]) + parts[1:]
    if not parts:
        I.end_iter(it)
        I.set_parts(it, [], "next")
        return END
    p = parts[0]
    if isinstance(p, Barrier):
        raise Unsupported("an iteration consumes more than its own element")
    if isinstance(p, Raise):
        I.set_parts(it, [], "next")
        raise SRaise(p.exc)
    I.advance(it, parts[1:])
    return p


class Outcome:
    __slots__ = ("guard", "kind", "data", "effects")
    def __init__(self, guard, kind, data, effects):
        self.guard, self.kind, self.data, self.effects = guard, kind, data, effects


def own(v, memo):
    p = memo["per"]
    return v.per if p in v.per else v.per + (p,)


def snapshot(I, v, stamp, memo):
    """copy of the parts of a value created during a nested exploration (their mutations are rolled back)"""
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, SObj):
        if v.stamp <= stamp:
            return v
        o = SObj(v.cls, {}, v.stamp)
        o.per = own(v, memo)
        memo[id(v)] = (o, v)
        for k, x in v.attrs.items():
            o.attrs[k] = snapshot(I, x, stamp, memo)
        return o
    if isinstance(v, SList):
        if v.stamp <= stamp:
            return v
        l = type(v)([], v.stamp)
        l.per = own(v, memo)
        memo[id(v)] = (l, v)
        l.parts = [snapshot_part(I, p, stamp, memo) for p in I.resolve_parts(v.parts)]
        return l
    if isinstance(v, SIter):
        l = SIter([], v.stamp, v.kind)
        memo[id(v)] = (l, v)
        l.parts = [snapshot_part(I, p, stamp, memo) for p in v.parts]
        return l
    if isinstance(v, SDict):
        if v.stamp <= stamp:
            return v
        d = SDict([], v.default, v.stamp, v.cls)
        d.per = own(v, memo)
        memo[id(v)] = (d, v)
        d.entries = [snapshot_part(I, p, stamp, memo) if isinstance(p, Many) else [snapshot(I, p[0], stamp, memo), snapshot(I, p[1], stamp, memo)] for p in v.entries]
        return d
    if isinstance(v, SChoice):
        return SChoice([(g, snapshot(I, x, stamp, memo)) for g, x in v.alts])
    if type(v) is tuple:
        return tuple(snapshot(I, x, stamp, memo) for x in v)
    if isinstance(v, tuple):
        return tuple.__new__(type(v), [snapshot(I, x, stamp, memo) for x in v])
    if isinstance(v, SStr):
        return st.resolved(I, v)
    return v


def snapshot_part(I, p, stamp, memo):
    if isinstance(p, Many):
        return Many(p.seq, [(g, [snapshot(I, x, stamp, memo) for x in vs]) for g, vs in p.cases])
    if isinstance(p, (Raise, Barrier)):
        return p
    return snapshot(I, p, stamp, memo)


class Abnormal(Exception):
    def __init__(self, kind, data):
        self.kind, self.data = kind, data


def earlier_part(I, seq, n, pairs=False):
    """what earlier iterations appended to a list: unknown in number and content"""
    def make(*a):
        raise Unsupported("loop body reads what earlier iterations appended to a list")
    from .interp import Poison
    x = Poison("appended earlier")
    q = SeqVar(I.e.fresh_name(f"{seq.prefix}.earlier{n}"), (x, x) if pairs else x, f"{seq.prefix}.earlier{n}", make)
    q.earlier_of = seq
    return Many(q, [(True, [q.elem])])


def element_outcomes(I, many, run_block, own=None):
    """nested exploration of run_block(values) on the canonical element. -> list of Outcomes (guards cover all elements)

    Lists that the body extends are explored a second time with an unknown earlier contribution, so that a body which
    looks at them is either right for every earlier history or rejected."""
    outs, facts = explore_element(I, many, run_block, own, ())
    grown = {}
    for o in outs:
        for eff in o.effects:
            if grows(eff):
                grown[id(eff[1])] = eff[1]
    if grown:
        outs, facts = explore_element(I, many, run_block, own, list(grown.values()))
        for o in outs:
            for eff in o.effects:
                if grows(eff) and id(eff[1]) not in grown:
                    raise Unsupported("effects depend on what earlier iterations did")
    for f in facts:
        add_fact(I, many.seq, f)
    return outs


def grows(eff):
    return eff[0] == "append" and isinstance(eff[1], SList) and not eff[1].private or eff[0] == "dictset" and isinstance(eff[1], SDict)


def explore_element(I, many, run_block, own, grown):
    from .interp import _Return, _Break, _Continue, Frame
    e = I.e
    seq = many.seq
    stamp = e.stamp
    outs = []
    saved_tracked = I.tracked_effects
    facts = [zb(f) for f in all_facts(I, seq)]
    trail_saved = e.trail
    prefix_saved = e.name_prefix
    skolem_facts = []
    known = set(e.store)
    kept = {}

    def run():
        e.trail = []
        I.tracked_effects = []
        for f in facts:
            e.solver.add(f)
        if e.check() == z3.unsat:
            raise Prune()
        for n, l in enumerate(grown):
            if isinstance(l, SDict):
                old = l.entries
                e.log(lambda l=l, old=old: setattr(l, "entries", old))
                l.entries = old + [earlier_part(I, seq, n, True)]
                continue
            old = l.parts
            e.log(lambda l=l, old=old: setattr(l, "parts", old))
            l.parts = old + [earlier_part(I, seq, n)]
        vals = None
        for g, vs in many.cases[:-1]:
            if e.decide(g):
                vals = vs
                break
        if vals is None:
            g, vals = many.cases[-1]
            if g is not True:
                e.solver.add(g)
                if e.check() == z3.unsat:
                    raise Prune()
        try:
            r = run_block(list(vals))
            kind, data = "normal", r
        except SRaise as x:
            kind, data = "raise", x.exc
        except _Break:
            kind, data = "break", None
        except _Return as x:
            kind, data = "return", x.value
        except Abnormal as x:
            kind, data = x.kind, x.data
        return kind, data

    def on_outcome(res):
        kind, data = res
        lits = []
        for t in e.trail:
            if t[0] == "lit":
                lits.append(t[1])
            else:
                skolem_facts.append(z3.Implies(z3.And(lits), t[1]) if lits else t[1])
        guard = True if not lits else (lits[0] if len(lits) == 1 else z3.And(lits))
        memo = {"per": seq.prefix}
        effs = []
        for eff in I.tracked_effects:
            k, obj = eff[0], eff[1]
            if isinstance(obj, (SList, SDict, SSet, SObj, SIter, Frame)) and obj.stamp > stamp:
                continue
            if k == "refine" or k == "next" and obj is own:
                continue
            effs.append((k, obj) + tuple(snapshot(I, d, stamp, memo) if k not in ("appendmany",) else d for d in eff[2:]))
        outs.append(Outcome(guard, kind, snapshot(I, data, stamp, memo), effs))
        # what is known about the pieces of nested sequences that this outcome introduced (their names are fresh)
        kept.update((k, v) for k, v in e.store.items() if isinstance(k, tuple) and (k[0] == "facts" and "~" in k[1] or k[0] == "keyed") and k not in known)

    try:
        e.name_prefix = seq.prefix + "."
        e.explore(run, on_outcome)
    finally:
        e.trail = trail_saved
        e.name_prefix = prefix_saved
        I.tracked_effects = saved_tracked
    # completeness of the case distinction
    cover = gor([o.guard for o in outs])
    if cover is not True:
        sk = [zb(f) for f in skolem_facts]
        if e.check(*facts, *sk, z3.Not(zb(cover))) != z3.unsat:
            raise Unsupported("the cases of a loop body do not cover all elements")
    for k, v in kept.items():
        e.set_store(k, v)
    return outs, skolem_facts


def apply_effects(I, seq, outs, allowed=()):
    """the effects of running the loop body on all elements of seq"""
    order = []
    objs = {}
    for o in outs:
        for eff in o.effects:
            k, obj = eff[0], eff[1]
            if id(obj) not in objs:
                objs[id(obj)] = obj
                order.append(obj)
    for obj in order:
        cases = []
        kind = None
        for o in outs:
            vals = []
            for eff in o.effects:
                if eff[1] is not obj:
                    continue
                k = eff[0]
                if k == "append":
                    vals.append(eff[2])
                elif k == "dictset":
                    vals.append((eff[2], eff[3]))
                elif k == "appendmany":
                    raise Unsupported("nested unbounded loops appending to one list")
                else:
                    raise Unsupported(f"loop body has the effect {k} on {obj!r}")
                if kind is not None and kind != k:
                    raise Unsupported("mixed effects")
                kind = k
            cases.append((o.guard, vals))
        if not isinstance(obj, list) and seq.prefix in getattr(obj, "per", ()):
            own_effects(I, seq, obj, kind, merge_cases(cases))
            continue
        m = Many(seq, merge_cases(cases))
        if kind == "append":
            if not isinstance(obj, SList):
                raise Unsupported("append to a native list in a loop")
            I.set_parts(obj, obj.parts + [m], "appendmany", m)
        elif kind == "dictset":
            from . import models
            models.dict_add_many(I, obj, m)


def own_effects(I, seq, obj, kind, cases):
    """the loop changes an object each element has one of its own of"""
    if kind != "append" or len(cases) != 1 or seq.name != seq.prefix or any(k[0] == "inst" and k[2] == id(obj) for k in I.e.store if isinstance(k, tuple)):
        raise Unsupported(f"a loop changes objects of the elements of {seq.name}")
    I.set_parts(obj, obj.parts + list(cases[0][1]), "appendmany", None)


def merge_cases(cases):
    out = []
    for g, vs in cases:
        for i, (g2, vs2) in enumerate(out):
            if len(vs) == len(vs2) and all(x is y or (not isinstance(x, Sym) and not isinstance(y, Sym) and type(x) is type(y) and isinstance(x, (str, int)) and x == y) for x, y in zip(vs, vs2)):
                out[i] = (gor([g2, g]), vs2)
                break
        else:
            out.append((g, list(vs)))
    # drop guards that became trivial
    res = []
    for g, vs in out:
        if g is not True and g is not False:
            s = z3.simplify(g)
            if z3.is_true(s):
                g = True
            elif z3.is_false(s):
                continue
        res.append((g, vs))
    if len(res) == 1:
        res = [(True, res[0][1])]
    return res


def assigned_names(stmts):
    names = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef,)):
                names.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
    return names


def poison(I, frame, names):
    from .interp import Poison
    for n in names:
        n = I.mangle(frame, n)
        I.set_env(frame, n, Poison(n))


# ---------------------------------------------------------------- loop-carried state
MAX_CHANGES = 4


class Carried:
    """Invariants for the local variables a loop body reads before it writes them. They are inferred and then checked
    as part of the induction over the segment:
      keep   the variable has its entry value at every element boundary; an element after which it has not is treated
             like one that leaves the loop (the segment is split at the first such element)
      text   the variable is its entry value followed by what the elements so far appended (what the body sees of the
             earlier contributions is unknown)
      count  the variable is its entry value plus a constant times the number of elements so far"""
    def __init__(self, I, frame, names):
        self.I, self.frame = I, frame
        self.names = [I.mangle(frame, n) for n in names]
        self.entry = {n: self.get(n) for n in self.names}
        self.mode = {}
        self.step = {}
        self.sink = {}
        self.marker = {}
        self.poison = {}
        self.touched = set()        # variables the body may have assigned

    def get(self, n):
        env = self.frame.env
        return env.get(n, END)

    def reset(self):
        from .interp import Poison
        for n in self.names:
            self.poison[n] = Poison(n)
            self.I.set_env(self.frame, n, self.poison[n])

    def discover(self, poison_):
        """a variable was read: choose an invariant (False: no candidate)"""
        from .interp import Poison
        n = poison_.name
        if n not in self.entry or n in self.mode:
            return False
        v = self.entry[n]
        if v is END or isinstance(v, Poison):
            return False
        if isinstance(v, (str, SStr)):
            self.mode[n] = "text"
            l = self.I.new_list([])
            l.private = True
            self.sink[n] = l
        elif isinstance(v, SInt) or isinstance(v, int) and not isinstance(v, bool):
            self.mode[n] = "count"
        else:
            self.mode[n] = "keep"
        return True

    def kept(self):
        return [n for n, m in self.mode.items() if m == "keep"]

    def weaken(self, n):
        self.mode[n] = "keep"

    def begin(self, seq):
        """values at the boundary before the canonical element"""
        from .models import z
        I = self.I
        self.reset()
        for n, m in self.mode.items():
            v = self.entry[n]
            if m == "text":
                x = Atom(I.e.fresh_int(f"{n}.earlier"))
                self.marker[n] = x
                v = SStr([x])
            elif m == "count":
                if n in self.step:
                    v = SInt(z3.simplify(z(v) + self.step[n] * elem_index(I, seq)))
                else:
                    x = I.e.fresh_int(f"{n}.earlier")
                    self.marker[n] = x
                    v = SInt(x)
            I.set_env(self.frame, n, v)

    def end(self, seq):
        """check the invariants after the canonical element; -> a change that ends the segment, or None"""
        from .models import z
        I = self.I
        changed = False
        self.touched.update(n for n in self.names if self.get(n) is not self.poison[n])
        for n, m in self.mode.items():
            v = I.resolve(self.get(n))
            if m == "keep":
                if not self.same(self.entry[n], v):
                    changed = True
            elif m == "text":
                x = self.marker[n]
                parts = parts_of(v) if isinstance(v, (str, SStr)) else []
                if not parts or not (isinstance(parts[0], Atom) and parts[0].e is x.e or isinstance(parts[0], Atom) and parts[0].e.eq(x.e)) or any(isinstance(p, Atom) and p.e.eq(x.e) for p in parts[1:]):
                    raise Weaken(n)
                I.effect("append", self.sink[n], mkstr(list(parts[1:])))
            else:
                if not isinstance(v, SInt) and (isinstance(v, bool) or not isinstance(v, int)):
                    raise Weaken(n)
                if n in self.step:
                    if not I.e.entails(z(v) == z(self.entry[n]) + self.step[n] * (elem_index(I, seq) + 1)):
                        raise Weaken(n)
                    continue
                d = z3.simplify(z(v) - self.marker[n])
                if not z3.is_int_value(d):
                    raise Weaken(n)
                raise Step(n, d.as_long())
        return changed

    def same(self, a, b):
        if a is b:
            return True
        simple = (bool, int, str, float, type(None), SInt, SBool, SStr)
        if type(a) is bool or type(b) is bool:
            return type(a) is type(b) and a == b
        if isinstance(a, simple) and isinstance(b, simple):
            return _certainly_equal(self.I, [a], [b])
        return False

    def finish(self, seq):
        """values after all elements of seq (which did not change what is kept)"""
        from .models import z
        I = self.I
        self.reset()
        for n in self.names:
            if n not in self.mode and n not in self.touched and self.entry[n] is not END:
                I.set_env(self.frame, n, self.entry[n])
        for n, m in self.mode.items():
            v = self.entry[n]
            if m == "text":
                items = [q for p in I.resolve_parts(self.sink[n].parts) for q in ([p] if isinstance(p, Many) else parts_of(p))]
                v = mkstr(list(parts_of(v)) + items)
            elif m == "count":
                I.e.add(seq.len >= 0)
                v = dt_sint(z3.simplify(z(v) + self.step.get(n, 0) * seq.len))
            I.set_env(self.frame, n, v)


def dt_sint(e):
    return e.as_long() if z3.is_int_value(e) else SInt(e)


class Weaken(Exception):
    def __init__(self, name): self.name = name


class Step(Exception):
    def __init__(self, name, step): self.name, self.step = name, step


def carried_outcomes(I, many, frame, names, body, own, s):
    """outcomes of the body for the canonical element, with inferred invariants for the variables it carries along"""
    from .interp import PoisonRead
    c = Carried(I, frame, names)
    if I.e.store.get(("changes", id(s), len(I.callstack)), 0) < MAX_CHANGES:
        # flags set by the body and read after the loop
        for x in ast.walk(frame.node) if frame.node is not None else ():
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.lineno > s.end_lineno and x.id in names:
                n = I.mangle(frame, x.id)
                if n not in c.mode and (c.entry[n] is None or type(c.entry[n]) is bool or isinstance(c.entry[n], SObj)):
                    c.mode[n] = "keep"

    def block(vals):
        c.begin(many.seq)
        body(vals)
        if c.end(many.seq):
            raise Abnormal("changed", tuple(I.resolve(c.get(n)) for n in c.kept()))

    c.block = block
    for _ in range(3 * len(c.names) + 3):
        try:
            return c, element_outcomes(I, many, block, own)
        except PoisonRead as x:
            if not c.discover(x.what):
                raise
        except Weaken as x:
            c.weaken(x.name)
        except Step as x:
            c.step[x.name] = x.step
    raise Unsupported("no invariant for the loop-carried state was found")


def run_for(I, it, s, frame):
    from .interp import _Break, _Continue
    count = 0
    names = None
    while True:
        I.sync_iter(it)
        parts = I.resolve_parts(it.parts)
        if not parts:
            I.end_iter(it)
            break
        p = parts[0]
        if isinstance(p, Barrier):
            raise Unsupported("a nested loop consumes more than its own element")
        if isinstance(p, Raise):
            I.set_parts(it, [], "next")
            raise SRaise(p.exc)
        if isinstance(p, Many):
            if names is None:
                names = assigned_names(s.body) | assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])
            seg_for(I, it, p, parts[1:], s, frame, names)
            continue
        count += 1
        if count > MAX_UNROLL:
            raise Unsupported("loop unrolled too often")
        I.advance(it, parts[1:])
        I.assign(s.target, p, frame)
        try:
            I.exec_block(s.body, frame)
        except _Continue:
            pass
        except _Break:
            return
    I.exec_block(s.orelse, frame)


def seg_for(I, it, many, rest, s, frame, names):
    """one segment of a for loop"""
    from .interp import _Continue

    def run_block(vals):
        old = it.parts
        I.e.log(lambda: setattr(it, "parts", old))
        it.parts = vals + [Barrier()]
        while True:
            parts = I.resolve_parts(it.parts)
            if not parts:
                raise Unsupported("loop body consumed the iterator")
            p = parts[0]
            if isinstance(p, Barrier):
                break
            if isinstance(p, Many):
                raise Unsupported("nested unbounded segment")
            it.parts = parts[1:]
            I.assign(s.target, p, frame)
            try:
                I.exec_block(s.body, frame)
            except _Continue:
                pass

    mark = I.e.counter
    carried, outs = carried_outcomes(I, many, frame, names, run_block, it, s)
    if best_element(I, many, frame, carried, outs, it, mark):
        I.advance(it, rest, None)
        return
    r = finish_segment(I, many, outs)
    if r is None:
        I.advance(it, rest, None)
        carried.finish(many.seq)
        return
    pre, wvals, post = r
    carried.finish(pre)
    tail = [post] + rest
    I.advance(it, wvals + tail, None)
    while not same_seg(it.parts, tail):
        parts = I.resolve_parts(it.parts)
        p = parts[0]
        if isinstance(p, Many) or len(parts) <= len(tail):
            raise Unsupported("loop body consumes more than its own element")
        I.advance(it, parts[1:], None)
        I.assign(s.target, p, frame)
        try:
            I.exec_block(s.body, frame)
        except _Continue:
            pass
    after_witness(I, s, outs)


def after_witness(I, s, outs):
    """the exposed element was assumed to end the loop or to change what the loop carries along; in the second case
    the loop goes on with the remaining elements"""
    if not any(o.kind == "changed" for o in outs):
        raise Prune()
    key = ("changes", id(s), len(I.callstack))
    n = I.e.store.get(key, 0) + 1
    if n > MAX_CHANGES:
        raise Unsupported("the state a loop carries along changes too often")
    I.e.set_store(key, n)


def best_element(I, many, frame, c, outs, own, mark):
    """Loops that keep the best element so far ("if better(x, best): best = x"). With G0(x): the body assigns the kept
    variables when they have their entry values, G1(w, x): it does when they have the values assigned for w. The values
    assigned depend on the element alone. The invariant is: nothing was assigned and not G0(x) for all elements x so far,
    or the values are those of an element w with G0(w), all x before w satisfy not G0(x) or G1(x, w), and all after w
    satisfy not G1(w, x). Its induction step is checked here; False: the rule does not apply."""
    seq, e = many.seq, I.e
    kept = c.kept()
    ch = [o for o in outs if o.kind == "changed"]
    if not ch or len(kept) != len(c.mode) or any(o.kind not in ("normal", "changed") or o.effects for o in outs):
        return False
    V = []                  # what is assigned for an element: [(guard, values)]
    for o in ch:
        for i, (g, v) in enumerate(V):
            if alike(v, o.data):
                V[i] = (gor([g, o.guard]), v)
                break
        else:
            V.append((o.guard, o.data))
    G0 = gor([g for g, _ in V])
    jm, trail, entry = len(e.journal), (None if e.trail is None else list(e.trail)), dict(c.entry)
    e.solver.push()
    try:
        w, pw = I.fresh_elem(seq)
        e.set_store(("prefix_of", id(w)), (w, pw))
        x, px = I.fresh_elem(seq)
        subw = subst(I, seq, w)
        facts = [zb(f) for f in all_facts(I, seq)]
        inst = lambda f, a, b: rename(f, {pw: a, seq.prefix: b})
        for f in facts:
            e.solver.add(f, inst(f, pw, pw), inst(f, px, px))
        G1 = []
        for gw, vals in V:
            gw = zb(subw.formula(gw))
            e.solver.push()
            e.solver.add(gw)
            jm2 = len(e.journal)
            try:
                if e.check() == z3.unsat:
                    continue
                for n, v in zip(kept, vals):
                    c.entry[n] = subw.value(v)
                outs1 = element_outcomes(I, many, c.block, own)
                for o in outs1:
                    if o.kind not in ("normal", "changed") or o.effects:
                        return False
                    if o.kind == "changed":
                        for g, v in V:
                            if not alike(v, o.data) and e.check(zb(g), zb(o.guard)) != z3.unsat:
                                return False
                        G1.append(gand(gw, gor([o.guard])))
            except (Weaken, Step):
                return False
            finally:
                c.entry = dict(entry)
                e.rollback(jm2)
                e.solver.pop()
        G1 = z3.Or([zb(g) for g in G1]) if G1 else z3.BoolVal(False)
        if any(new_name(n, mark) for f in (zb(G0), G1) for n in consts(rename(f, {pw: seq.prefix})).values()):
            return False
        g0 = {"e": zb(G0), "w": inst(zb(G0), pw, pw), "x": inst(zb(G0), px, px)}
        at = {"e": seq.prefix, "w": pw, "x": px}
        g1 = lambda a, b: inst(G1, at[a], at[b])
        for fs in ([g0["x"], g1("x", "w"), z3.Not(g0["w"])],
                   [g0["w"], g0["x"], g1("x", "w"), g1("w", "e"), z3.Not(g1("x", "e"))],
                   [g0["w"], g0["x"], z3.Not(g1("w", "x")), g1("w", "e"), z3.Not(g1("x", "e"))]):
            if e.check(*fs) != z3.unsat:
                return False
    finally:
        e.rollback(jm)
        e.solver.pop()
        if e.trail is not None:
            e.trail[:] = trail
    if not e.decide(exists_elem(I, seq, [G0])):
        add_fact(I, seq, gnot(G0))
        c.finish(seq)
        return True
    pre, w, post = split_witness(I, seq, True, G0)
    q = e.store[("prefix_of", id(w))][1]
    add_fact(I, pre, z3.Or(z3.Not(zb(G0)), rename(G1, {pw: seq.prefix, seq.prefix: q})))
    add_fact(I, post, z3.Not(rename(G1, {pw: q})))
    c.finish(pre)
    sub = subst(I, seq, w)
    for g, vals in V[:-1]:
        if e.decide(sub.formula(g)):
            break
    else:
        g, vals = V[-1]
        e.assume(sub.formula(g))
    for n, v in zip(kept, vals):
        I.set_env(frame, n, sub.value(v))
    return True


def alike(a, b):
    return len(a) == len(b) and all(same_term(x, y) for x, y in zip(a, b))


def same_term(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (SInt, SBool)):
        return z3.simplify(a.e).eq(z3.simplify(b.e))
    if isinstance(a, SDT):
        return a.tz is b.tz and all(x is y or z3.is_expr(x) and z3.is_expr(y) and x.eq(y) or isinstance(x, int) and isinstance(y, int) and x == y for x, y in ((a.wall, b.wall), (a.fold, b.fold)))
    if isinstance(a, STD):
        return z3.simplify(a.us).eq(z3.simplify(b.us))
    return isinstance(a, (str, int, bool, type(None))) and a == b


def consts(f):
    """the uninterpreted constants of a formula: {term id: name} """
    out, seen, stack = {}, set(), [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x] = x.decl().name()
        stack.extend(x.children())
    return out


def rename(f, prefixes):
    """replace the constants of elements (given by prefix) by those of other elements, simultaneously"""
    pairs = []
    for x, n in consts(f).items():
        for a in sorted(prefixes, key=len, reverse=True):
            if n == a or n.startswith(a + "."):
                pairs.append((x, z3.Const(prefixes[a] + n[len(a):], x.sort())))
                break
    return z3.substitute(f, *pairs) if pairs else f


def new_name(n, mark):
    """was the name introduced after the given point?"""
    k = n.rpartition("!")[2].partition("@")[0].partition(".")[0]
    return "!" in n and k.isdigit() and int(k) > mark


def same_seg(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Barrier2(Barrier):
    pass


def finish_segment(I, many, outs):
    """fork: no element ends the loop (effects applied, returns None) or the first one that does is exposed
    (returns (elements before it, its values, remaining segment))"""
    seq = many.seq
    normal = [o for o in outs if o.kind == "normal"]
    abnormal = [o for o in outs if o.kind != "normal"]
    if abnormal:
        ag = gor([o.guard for o in abnormal])
        ng = gor([o.guard for o in normal])
        if I.e.decide(exists_elem(I, seq, [ag])):
            # for every element exactly one guard holds (up to equal behaviour), see element_outcomes
            pre, w, post = split_witness(I, seq, gnot(ag), ag)
            if normal:
                apply_effects(I, pre, normal)
            vals = I.instantiate(many, w)
            return pre, vals, Many(post, many.cases)
        add_fact(I, seq, gnot(ag))
    if normal:
        apply_effects(I, seq, normal)
    return None


# ---------------------------------------------------------------- comprehensions
def run_comp(I, generators, elt, sub, out, frame):
    def level(k):
        if k == len(generators):
            I.list_append(out, I.eval(elt, sub))
            return
        gen = generators[k]
        it = I.get_iter(I.eval(gen.iter, sub if k else frame))
        names = assigned_names([ast.Assign(targets=[gen.target], value=ast.Constant(value=0))])

        def element(p):
            I.assign(gen.target, p, sub)
            for c in gen.ifs:
                if not I.truth(I.eval(c, sub)):
                    return
            level(k + 1)

        iterate(I, it, element, lambda: poison(I, sub, names))

    level(0)


def iterate(I, it, element, reset=lambda: None):
    """for p in it: element(p)"""
    n = 0
    while True:
        I.sync_iter(it)
        parts = I.resolve_parts(it.parts)
        if not parts:
            I.end_iter(it)
            return
        p, rest = parts[0], parts[1:]
        if isinstance(p, Barrier):
            raise Unsupported("iteration consumes more than its own element")
        I.advance(it, rest, None if isinstance(p, Many) else 1)
        if isinstance(p, Raise):
            raise SRaise(p.exc)
        if isinstance(p, Many):
            def block(vals):
                reset()
                for v in vals:
                    if isinstance(v, Many):
                        raise Unsupported("nested segment")
                    element(v)
            outs = element_outcomes(I, p, block, it)
            r = finish_segment(I, p, outs)
            if r is not None:
                _, wvals, post = r
                reset()
                for v in wvals:
                    element(v)
                raise Prune()
            continue
        n += 1
        if n > MAX_UNROLL:
            raise Unsupported("iteration unrolled too often")
        element(p)


def stream_map(I, it, fn):
    """lazily mapped stream; evaluated eagerly, exceptions become the end of the stream"""
    out = I.new_list([])
    out.private = True

    def element(p):
        for v in fn(p):
            I.list_append(out, v)
    try:
        iterate(I, it, element)
    except SRaise as x:
        return I.new_iter(out.parts + [Raise(x.exc)], "map")
    return I.new_iter(out.parts, "map")


def text_image(I, many, fn):
    """image of a text segment under a function on single rope items"""
    cases = []
    for g, vs in many.cases:
        def block(_vals, vs=vs):
            r = []
            for v in vs:
                for q in parts_of(v):
                    r.append(fn(q))
            return mkstr([x for v in r for x in parts_of(v)])
        outs = element_outcomes(I, Many(many.seq, [(True, [])]) if g is True else Many(many.seq, [(g, []), (True, [])]), block)
        for o in outs:
            if o.kind != "normal":
                raise Unsupported("text image raises")
            cases.append((gand(g, o.guard), [o.data] if o.data != "" else []))
    return mkstr([Many(many.seq, merge_cases(cases))])


# ---------------------------------------------------------------- while
def run_while(I, s, frame):
    from .interp import _Break, _Continue
    hook = getattr(I, "while_hooks", {}).get(getattr(s, "_vckey", None))
    count = 0
    while True:
        lst = consumed_list(I, s, frame)
        if lst is not None:
            parts = I.resolve_parts(lst.parts)
            if parts and isinstance(parts[0], Many):
                seg_while(I, lst, parts[0], parts[1:], s, frame)
                continue
        if not I.truth(I.eval(s.test, frame)):
            break
        count += 1
        if count > MAX_UNROLL:
            raise Unsupported("while loop unrolled too often")
        try:
            I.exec_block(s.body, frame)
        except _Continue:
            pass
        except _Break:
            return
    I.exec_block(s.orelse, frame)


def consumed_list(I, s, frame):
    """the list a `while lst:` loop consumes from the front"""
    t = s.test
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and len(t.args) == 1:
        t = t.args[0]
    if isinstance(t, ast.Compare) and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == "len" and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
        t = t.left.args[0]
    if not isinstance(t, ast.Name):
        return None
    try:
        v = I.lookup(frame, I.mangle(frame, t.id))
    except SRaise:
        return None
    return v if isinstance(v, SList) else None


def seg_while(I, lst, many, rest, s, frame):
    from .interp import _Continue
    names = assigned_names(s.body)

    def block(vals):
        old = lst.parts
        I.e.log(lambda: setattr(lst, "parts", old))
        lst.parts = vals + [Barrier()]
        while not isinstance(lst.parts[0], Barrier):
            before = len(lst.parts)
            try:
                I.exec_block(s.body, frame)
            except _Continue:
                pass
            if not lst.parts or not isinstance(lst.parts[-1], Barrier):
                raise Unsupported("loop body consumes other elements")
            if len(lst.parts) >= before:
                raise Unsupported("loop body does not consume its list")
        I.tracked_effects = [x for x in I.tracked_effects if not (x[1] is lst and x[0] == "pop")]

    carried, outs = carried_outcomes(I, many, frame, names, block, None, s)
    r = finish_segment(I, many, outs)
    if r is None:
        carried.finish(many.seq)
        I.set_parts(lst, rest, "pop")
        return
    pre, wvals, post = r
    carried.finish(pre)
    tail = [post] + rest
    I.set_parts(lst, wvals + tail, "pop")
    while not same_seg(lst.parts, tail):
        before = len(lst.parts)
        try:
            I.exec_block(s.body, frame)
        except _Continue:
            pass
        if len(lst.parts) >= before or len(lst.parts) < len(tail):
            raise Unsupported("loop body does not consume its list")
    after_witness(I, s, outs)


# ---------------------------------------------------------------- sorting and positions
def sorted_many(I, many, key, reverse):
    """a permutation of the segment ordered by the key; only the order relation that the values themselves define"""
    if not many.identity:
        # sort the image: a new sequence whose canonical element is that of the image
        if len(many.cases) != 1 and any(len(vs) > 1 for _, vs in many.cases):
            raise Unsupported("sorting of a segment with several values per element")
    seq = many.seq
    o = seq.origin
    if key is None and o and o[0] == "perm" and all(len(vs) <= 1 and all(isinstance(v, (int, str)) for v in vs) for _, vs in many.cases):
        return sorted_many(I, Many(o[1], many.cases), key, reverse)     # equal numbers or strings cannot be told apart
    # sorting is deterministic: equal segments are brought into the same order
    known = I.e.store.get(("perms", seq.name), ())
    if key is None:
        for r, m, p in known:
            if r == reverse and many_equal(I, m, many):
                return Many(p, many.cases)
    n = I.e.fresh_name("sorted")
    p = SeqVar(f"{n}~{seq.name}", seq.elem, seq.prefix, seq.make, ("perm", seq, key, reverse), I.seq_facts(seq))
    I.e.add(p.len == seq.len)
    for f, b in I.e.store.get(("exists", seq.name), ()):
        I.e.add(exists_elem(I, p, [f]) == b)
    I.e.set_store(("sorted", p.name), (key, reverse))
    if key is None:
        I.e.set_store(("perms", seq.name), known + ((reverse, many, p),))
    return Many(p, many.cases)


def finite_sorted_permutation(I, a, b):
    """lists of known length: the same items, not decreasing"""
    if any(isinstance(p, (Many, Raise)) for p in a + b):
        raise Unsupported("order of a partially known sequence")
    rest = list(b)
    for x in a:
        k = next((i for i, y in enumerate(rest) if y is x or isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(I.truth(I.eq(u, v)) for u, v in zip(x, y))), None)
        if k is None:
            return False
        del rest[k]
    return not rest and all(not I.truth(I.compare("<", y, x)) for x, y in zip(a, a[1:]))


def _nope(what):
    def f(*a):
        raise Unsupported(what)
    return f


def prefix_parts(I, parts, n):
    """split parts at position n (a concrete non-negative int): (front, back); front may be shorter at the end"""
    front = []
    parts = list(parts)
    while n > 0:
        while parts and isinstance(parts[0], Many):
            parts[0:1] = split_first(I, parts[0])
        if not parts:
            break
        front.append(parts.pop(0))
        n -= 1
    return front, parts


def suffix_parts(I, parts, n):
    back = []
    parts = list(parts)
    while n > 0:
        while parts and isinstance(parts[-1], Many):
            parts[-1:] = split_last(I, parts[-1])
        if not parts:
            break
        back.insert(0, parts.pop())
        n -= 1
    return parts, back


def index_many(I, o, k):
    parts = I.resolve_parts(o.parts)
    front, v, back = _single(I, parts, k)
    I.set_parts(o, front + [v] + back, "refine")
    return v


def cut_at(I, parts, k):
    """split the parts of a list at position k (an int or a length term that is a boundary of segments)"""
    from .models import seq_len
    if isinstance(k, Sym):
        c = z3.simplify(k.e)
        if z3.is_int_value(c):
            k = c.as_long()
    if isinstance(k, bool) or not isinstance(k, (int, SInt)):
        raise Unsupported("slice bound")
    if isinstance(k, int) and k >= 0:
        return prefix_parts(I, parts, k)
    if isinstance(k, int):
        front, back = suffix_parts(I, parts, -k)
        return front, back
    for j in range(len(parts) + 1):
        n = seq_len(I, parts[:j])
        if I.e.entails(k.e == (n if isinstance(n, int) else n.e)):
            return parts[:j], parts[j:]
    raise Unsupported("slice bound inside of an unbounded segment")


def slice_many(I, o, k):
    if k.step not in (None, 1):
        raise Unsupported("slice with a step of an unbounded list")
    parts = I.resolve_parts(o.parts)
    start, stop = I.resolve(k.start), I.resolve(k.stop)
    if stop is not None:
        parts, _ = cut_at(I, parts, stop)
    if start is not None:
        if stop is not None and (isinstance(start, int) and start < 0) != (isinstance(stop, int) and stop < 0):
            raise Unsupported("slice with bounds from both ends of an unbounded list")
        if stop is not None and isinstance(start, int) and start < 0:
            raise Unsupported("slice with two negative bounds of an unbounded list")
        _, parts = cut_at(I, parts, start)
    return I.new_list(parts)


def cut_slice(I, parts, k):
    """the parts before, inside and after a slice (step 1)"""
    if k.step not in (None, 1):
        raise Unsupported("slice with a step of an unbounded list")
    start, stop = I.resolve(k.start), I.resolve(k.stop)
    if start is None or isinstance(start, int) and start == 0:
        if stop is None:
            return [], parts, []
        mid, back = cut_at(I, parts, stop)
        return [], mid, back
    front, rest = cut_at(I, parts, start)
    if stop is None:
        return front, rest, []
    if isinstance(start, bool) or not isinstance(start, int) or isinstance(stop, bool) or not isinstance(stop, int) or (start < 0) != (stop < 0):
        raise Unsupported("slice with two bounds of an unbounded list")
    if start >= 0:
        mid, back = cut_at(I, rest, max(stop - start, 0))
        return front, mid, back
    n = len(rest)          # rest holds at most -start single elements
    keep = max(0, n + stop)
    return front, rest[:keep], rest[keep:]


def set_slice(I, o, parts, k, new):
    bounds = [I.concretize_arg(x) for x in (k.start, k.stop, k.step)]
    if not any(isinstance(p, Many) for p in parts) and all(x is None or isinstance(x, int) for x in bounds):
        l = list(parts)
        c = slice(*bounds)
        if bounds[2] not in (None, 1) and any(isinstance(p, Many) for p in new):
            raise Unsupported("slice with a step set to an unbounded sequence")
        try:
            if new or bounds[2] in (None, 1):
                l[c] = list(new)
            else:
                del l[c]
        except ValueError as x:
            raise SRaise(x)
        I.set_parts(o, l)
        return
    front, mid, back = cut_slice(I, parts, k)
    I.set_parts(o, front + list(new) + back)


def _position(I, parts, k):
    k = I.resolve(k)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, Sym):
        c = z3.simplify(k.e) if isinstance(k, SInt) else None
        if c is not None and z3.is_int_value(c):
            k = c.as_long()
    return k


def _single(I, parts, k):
    """the parts before, at and after an index"""
    k = _position(I, parts, k)
    if isinstance(k, SInt):
        front, back = cut_at(I, parts, k)       # a boundary of segments, hence not negative
        first, back = prefix_parts(I, back, 1)
        if not first:
            raise SRaise(IndexError("list index out of range"))
        return front, first[0], back
    if not isinstance(k, int):
        raise Unsupported("index into an unbounded list")
    if k >= 0:
        front, back = prefix_parts(I, parts, k + 1)
        if len(front) <= k:
            raise SRaise(IndexError("list index out of range"))
        return front[:k], front[k], back
    front, back = suffix_parts(I, parts, -k)
    if len(back) < -k:
        raise SRaise(IndexError("list index out of range"))
    return front, back[0], back[1:]


def set_index_many(I, o, parts, k, v):
    front, _, back = _single(I, parts, k)
    I.set_parts(o, front + [v] + back)


def del_index_many(I, o, parts, k):
    front, old, back = _single(I, parts, k)
    I.set_parts(o, front + back)
    return old


def insert_many(I, o, parts, k, v):
    front, back = cut_at(I, parts, _position(I, parts, k))
    I.set_parts(o, front + [v] + back)


split_many = _nope("split of an unbounded text")
