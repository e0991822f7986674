"""Abstract (unbounded) sequences and the mutable containers that may hold segments of them."""
import z3
from .values import *


class SeqVar:
    """A sequence of unknown length. `elem` is its canonical generic element: an arbitrary value satisfying what is
    known about every element. All sub-sequences, permutations and images share that canonical element."""
    _n = 0
    def __init__(self, name, elem, prefix, make=None, origin=None, facts=()):
        self.name, self.elem, self.prefix, self.make, self.origin = name, elem, prefix, make, origin
        self.facts = list(facts)      # z3 formulas over the canonical element that hold for all elements
        self.len = z3.Int(f"{name}.len")
    def __repr__(self): return f"Seq({self.name})"


class Many:
    """image of a SeqVar: every element contributes the values of the (unique) case whose guard it satisfies"""
    def __init__(self, seq, cases):
        self.seq, self.cases = seq, cases
    @property
    def identity(self):
        return len(self.cases) == 1 and self.cases[0][0] is True and len(self.cases[0][1]) == 1 and self.cases[0][1][0] is self.seq.elem
    def __repr__(self): return f"Many({self.seq}, {self.cases})"


class Raise:
    """end of a stream by an exception"""
    def __init__(self, exc): self.exc = exc


class Barrier:
    pass


class SList(Sym):
    pytype = list
    __slots__ = ("parts", "stamp", "ver", "private", "view", "per")
    def __init__(self, parts=None, stamp=0):
        self.per = ()
        self.parts = list(parts) if parts is not None else []
        self.stamp = stamp
        self.ver = 0              # number of changes of the contents so far
        self.private = False      # result under construction which no code can read yet
        self.view = None          # the dict a keys/values/items view belongs to
    @property
    def concrete(self):
        return not any(isinstance(p, (Many, Raise)) for p in self.parts)
    def __repr__(self): return f"SList({self.parts})"


class STuple(SList):
    """a tuple of unknown length"""
    pytype = tuple
    __slots__ = ()


class SDict(Sym):
    pytype = dict
    """entries: in insertion order [key, value] pairs and Many segments of (key, value) pairs; all keys are distinct"""
    __slots__ = ("entries", "default", "stamp", "cls", "ver", "per")
    def __init__(self, entries=None, default=None, stamp=0, cls=dict):
        self.per = ()
        self.entries = entries if entries is not None else []
        self.default = default
        self.stamp = stamp
        self.cls = cls
        self.ver = 0              # number of changes of the key set so far
    @property
    def unbounded(self):
        return any(isinstance(p, Many) for p in self.entries)
    def __repr__(self): return f"SDict({self.entries})"


class SInstDict(SDict):
    """the __dict__ of an instance: assignments go to the instance as well (reads see the state at the time of access)"""
    __slots__ = ("owner",)


class SSet(Sym):
    pytype = set
    __slots__ = ("items", "stamp", "ver", "per")
    def __init__(self, items=None, stamp=0):
        self.per = ()
        self.items = items if items is not None else []
        self.stamp = stamp
        self.ver = 0
    def __repr__(self): return f"SSet({self.items})"


class SIter(Sym):
    """iterator / generator object: remaining entries (values, Many, Raise)"""
    pytype = type(iter([]))
    __slots__ = ("parts", "stamp", "kind", "src", "ver", "idx")
    def __init__(self, parts, stamp=0, kind=None, src=None):
        self.parts = list(parts)
        self.stamp = stamp
        self.kind = kind
        self.src = src            # the container iterated over, as long as the iterator is live
        self.ver = src.ver if src is not None else 0
        self.idx = 0              # number of elements delivered so far (None: unknown)
    def __repr__(self): return f"SIter({self.parts})"


def mark_own(v, prefix):
    """objects that every element of a sequence has one of its own of"""
    if isinstance(v, (SObj, SList, SDict, SSet)):
        if prefix in v.per:
            return
        v.per = v.per + (prefix,)
    if isinstance(v, SObj):
        for x in v.attrs.values():
            mark_own(x, prefix)
    elif isinstance(v, SChoice):
        for _, x in v.alts:
            mark_own(x, prefix)
    elif isinstance(v, tuple):
        for x in v:
            mark_own(x, prefix)
    elif isinstance(v, (SList, SDict)):
        for p in v.parts if isinstance(v, SList) else v.entries:
            if isinstance(p, Many):
                mark_own(p.seq.elem, prefix)
            elif isinstance(p, list):
                for x in p:
                    mark_own(x, prefix)
            else:
                mark_own(p, prefix)
