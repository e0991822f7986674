"""Symbolic interpreter for the Python subset used by the code under verification.

It executes the AST of the functions that are really imported from /repo (see source.py); values are concrete Python
objects or the symbolic ones of values.py / seqs.py / strings.py.
"""
import ast
import builtins
import functools
import operator
import importlib
import inspect
import os
import re
import types
import typing
import datetime as _dt
import z3

REPO_PREFIX = os.environ.get("PYVC_REPO_SRC", "/repo/src").rstrip("/") + "/"

from . import source
from .engine import Engine, Prune, SRaise
from .values import *
from .seqs import *
from .strings import SStr, str_concat, mkstr


class _Return(Exception):
    def __init__(self, value): self.value = value
class _Break(Exception): pass
class _Continue(Exception): pass


class Poison:
    def __init__(self, name): self.name = name
    def __repr__(self): return f"POISON({self.name})"


class PoisonRead(Exception):
    def __init__(self, what): self.what = what


class Frame:
    __slots__ = ("env", "glob", "clsname", "cells", "parent", "yields", "fn", "nonlocals", "globals_", "args0", "node", "hook", "stamp")
    def __init__(self, env, glob, clsname=None, cells=None, parent=None, fn=None, node=None):
        self.env, self.glob, self.clsname, self.cells, self.parent, self.fn = env, glob, clsname, cells or {}, parent, fn
        self.yields = None
        self.nonlocals = set()
        self.globals_ = set()
        self.args0 = None
        self.node = node
        self.hook = None
        self.stamp = 0


_MISSING = object()
CONTAINER = (SList, SDict, SSet, SIter)


def is_conc(v, depth=0):
    """value without any symbolic content"""
    if isinstance(v, (Sym, Poison)):
        return False
    if depth > 6:
        return True
    t = type(v)
    if t in (tuple, list, set, frozenset) or isinstance(v, tuple):
        return all(is_conc(x, depth + 1) for x in v)
    if t is dict:
        return all(is_conc(x, depth + 1) for x in v) and all(is_conc(x, depth + 1) for x in v.values())
    if isinstance(v, slice):
        return is_conc(v.start) and is_conc(v.stop) and is_conc(v.step)
    if isinstance(v, types.MethodType):
        return is_conc(v.__self__)
    if isinstance(v, functools.partial):
        return is_conc(v.args) and is_conc(v.keywords)
    return True


INPLACE = {ast.Add: "__iadd__", ast.Sub: "__isub__", ast.Mult: "__imul__", ast.BitOr: "__ior__", ast.BitAnd: "__iand__", ast.BitXor: "__ixor__",
           ast.Mod: "__imod__", ast.Div: "__itruediv__", ast.FloorDiv: "__ifloordiv__", ast.Pow: "__ipow__", ast.LShift: "__ilshift__", ast.RShift: "__irshift__"}


class Interp:
    def __init__(self, engine=None):
        self.e = engine or Engine()
        self.models = {}          # native callable -> handler
        self.methods = {}         # (pytype, name) -> handler
        self.contracts = {}       # function -> handler(interp, args, kwargs)
        self.verifying = None     # the function whose body is being verified (its own contract is not used)
        self.verify_depth = 0
        self.repo_prefixes = ("ics",)
        self.interpretable = set()
        self.overlay = {}
        self.callstack = []
        self.loop_contracts = {}
        self.tracked_effects = None
        self.constructors = {}
        self.maxdepth = 120
        from . import models
        models.install(self)

    # ================================================================ heap access with journaling
    def new_list(self, parts):
        self.e.stamp += 1
        return SList(parts, self.e.stamp)

    def new_tuple(self, parts):
        if any(isinstance(p, (Many, Raise)) for p in parts):
            self.e.stamp += 1
            return STuple(parts, self.e.stamp)
        return tuple(parts)

    def new_dict(self, entries=None, default=None, cls=dict):
        self.e.stamp += 1
        return SDict(entries or [], default, self.e.stamp, cls=cls)

    def new_obj(self, cls, attrs=None):
        self.e.stamp += 1
        return SObj(cls, attrs or {}, self.e.stamp)

    def new_iter(self, parts, kind=None, src=None):
        self.e.stamp += 1
        return SIter(parts, self.e.stamp, kind, src)

    def sync_iter(self, it):
        """container iterators are live: a list iterator sees later changes of the list, those of dicts and sets fail
        after a change of size"""
        src = it.src
        if src is None or src.ver == it.ver:
            return
        if not isinstance(src, SList):
            raise SRaise(RuntimeError("container changed size during iteration"))
        parts = self.resolve_parts(src.parts)
        n = it.idx
        if n is None or any(isinstance(p, Many) for p in parts[:n]):
            raise Unsupported("a list of unknown length changes while it is iterated over")
        old = (it.parts, it.ver)
        def undo():
            it.parts, it.ver = old
        self.e.log(undo)
        it.parts, it.ver = parts[n:], src.ver

    def advance(self, it, rest, n=1):
        """n elements were taken from the iterator (None: unknown number), `rest` remain"""
        old = it.idx
        def undo():
            it.idx = old
        self.e.log(undo)
        it.idx = None if n is None or old is None else old + n
        self.set_parts(it, rest, "next")

    def end_iter(self, it):
        old = it.src
        if old is not None:
            def undo():
                it.src = old
            self.e.log(undo)
            it.src = None

    def stamped(self, frame):
        self.e.stamp += 1
        frame.stamp = self.e.stamp
        return frame

    def effect(self, kind, obj, *data):
        if self.tracked_effects is not None:
            self.tracked_effects.append((kind, obj) + data)

    def raw_setattr(self, obj, name, value):
        if isinstance(obj, SObj):
            d = obj.attrs
            had, old = name in d, d.get(name)
            self.e.log(lambda: d.__setitem__(name, old) if had else d.pop(name, None))
            self.effect("setattr", obj, name, old if had else _MISSING, value)
            d[name] = value
            return
        if isinstance(obj, Sym):
            raise Unsupported(f"attribute assignment on {obj!r}")
        key = (id(obj), name)
        had, old = key in self.overlay, self.overlay.get(key)
        self.e.log(lambda: self.overlay.__setitem__(key, old) if had else self.overlay.pop(key, None))
        self.effect("setattr", obj, name, old[1] if had else _MISSING, value)
        self.overlay[key] = (obj, value)

    def raw_delattr(self, obj, name):
        if isinstance(obj, SObj) and name in obj.attrs:
            d, old = obj.attrs, obj.attrs[name]
            items = list(d.items())
            def undo():
                d.clear(); d.update(items)
            self.e.log(undo)
            self.effect("delattr", obj, name)
            del d[name]
            return
        raise SRaise(AttributeError(name))

    def set_parts(self, lst, parts, kind="mutate", *data):
        old = lst.parts
        if isinstance(lst, SList) and kind != "refine":
            ver = lst.ver
            def undo():
                lst.parts, lst.ver = old, ver
            lst.ver = ver + 1
        else:
            def undo():
                lst.parts = old
        self.e.log(undo)
        self.effect(kind, lst, *data)
        lst.parts = parts

    def list_append(self, lst, v):
        if isinstance(lst, SList):
            self.set_parts(lst, lst.parts + [v], "append", v)
        else:
            raise Unsupported("append to a non-symbolic list")

    def set_env(self, frame, name, value):
        env = frame.env
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in f.env:
                f = f.parent
            if f is None:
                raise Unsupported(f"nonlocal {name}")
            env = f.env
            self.effect("setnonlocal", f, name)
        elif name in frame.globals_:
            key = ("global", id(frame.glob), name)
            had, old = key in self.overlay, self.overlay.get(key)
            self.e.log(lambda: self.overlay.__setitem__(key, old) if had else self.overlay.pop(key, None))
            self.effect("setglobal", frame.glob, name)
            self.overlay[key] = (frame.glob, value)
            return
        had, old = name in env, env.get(name)
        self.e.log(lambda: env.__setitem__(name, old) if had else env.pop(name, None))
        env[name] = value

    # ================================================================ resolving lazily decided values
    def resolve(self, v):
        while isinstance(v, SChoice):
            for g, x in v.alts[:-1]:
                if self.e.decide(g):
                    v = x
                    break
            else:
                v = v.alts[-1][1]
        if isinstance(v, Poison):
            raise PoisonRead(v)
        return v

    def truth(self, v):
        """python bool of a value, forking if necessary"""
        v = self.resolve(v)
        if isinstance(v, SBool):
            return self.e.decide(v.e)
        if isinstance(v, SInt):
            return self.e.decide(v.e != 0)
        if isinstance(v, SReal):
            return self.e.decide(v.n != 0)
        if isinstance(v, STD):
            return self.e.decide(v.us != 0)
        if isinstance(v, (SDT, SDate, STime, STz, SFunc, SBound, SMethod, SIter)):
            return True
        if isinstance(v, SStr):
            return self.str_nonempty(v)
        if isinstance(v, SList):
            return self.list_nonempty(v)
        if isinstance(v, SSet):
            return len(v.items) > 0
        if isinstance(v, SDict):
            return self.dict_nonempty(v)
        if isinstance(v, SOpaque):
            if v.truthy is not None:
                return self.e.decide(v.truthy) if isinstance(v.truthy, z3.ExprRef) else v.truthy
            raise Unsupported(f"truth value of {v!r}")
        if isinstance(v, SObj):
            f = self.class_lookup(v.cls, "__bool__")
            if f is not _MISSING:
                return self.truth(self.call(f, [v], {}))
            f = self.class_lookup(v.cls, "__len__")
            if f is not _MISSING:
                return self.truth(self.call(f, [v], {}))
            return True
        if isinstance(v, Sym) and v.pytype is re.Match:
            return True
        if isinstance(v, Sym):
            raise Unsupported(f"truth value of {v!r}")
        return bool(v)

    def str_nonempty(self, s):
        from . import strings
        return strings.nonempty(self, s)

    def list_nonempty(self, l):
        for p in l.parts:
            if isinstance(p, Many):
                continue
            if isinstance(p, Raise):
                raise Unsupported("list ending in an exception")
            return True
        if not l.parts:
            return False
        # only Many segments: nonempty iff one of them is
        return self.split_nonempty(l)

    def split_nonempty(self, l):
        """decide whether an all-Many list is empty"""
        from . import loops
        if loops.parts_nonempty(self, self.resolve_parts(l.parts)):
            return True
        self.set_parts(l, [], "refine")
        return False

    def dict_nonempty(self, d):
        from . import models
        entries = models.dict_parts_now(self, d)
        if any(not isinstance(p, Many) for p in entries):
            return True
        if not entries:
            return False
        from . import loops
        if loops.parts_nonempty(self, entries):
            return True
        models.set_entries(self, d, [], "refine")
        return False

    # ================================================================ sequences
    def seq_facts(self, seq):
        facts = list(seq.facts)
        s = self.e.store.get(("facts", seq.name))
        if s:
            facts += s
        return facts

    def resolve_parts(self, parts):
        """apply the splits of sequences decided on this path"""
        out = []
        for p in parts:
            if isinstance(p, Many):
                sp = self.e.store.get(("split", p.seq.name))
                if sp is not None:
                    sub = []
                    for q in sp:
                        if isinstance(q, SeqVar):
                            sub.append(Many(q, p.cases))
                        else:  # a concrete witness element
                            sub.extend(self.instantiate(p, q))
                    out.extend(self.resolve_parts(sub))
                    continue
            out.append(p)
        return out

    def instantiate(self, many, elem):
        """values the element `elem` (a fresh copy of the canonical one) contributes"""
        if many.identity:
            return [elem]
        sub = Subst(self, many.seq, elem)
        for g, vals in many.cases[:-1]:
            if self.e.decide(sub.formula(g)):
                return [sub.value(x) for x in vals]
        g, vals = many.cases[-1]
        self.e.assume(sub.formula(g))
        return [sub.value(x) for x in vals]

    def fresh_elem(self, seq):
        n = self.e.fresh_name("w")
        prefix = f"{n}@{seq.prefix}"
        elem = seq.make(self, prefix)
        sub = Subst(self, seq, elem, prefix)
        self.e.set_store(("seqmap", prefix), sub.seqmap)
        for f in self.seq_facts(seq):
            self.e.add(sub.formula(f))
        self.e.store[("elemprefix", id(elem))] = prefix
        return elem, prefix

    def split_witness(self, seq, pre_facts):
        """seq = pre ++ [w] ++ post; pre_facts hold for all elements of pre"""
        n = self.e.fresh_name("s")
        facts = self.seq_facts(seq)
        pre = SeqVar(f"{n}.pre~{seq.name}", seq.elem, seq.prefix, seq.make, ("sub", seq), facts + pre_facts)
        post = SeqVar(f"{n}.post~{seq.name}", seq.elem, seq.prefix, seq.make, ("sub", seq), facts)
        w, prefix = self.fresh_elem(seq)
        self.e.set_store(("prefix_of", id(w)), (w, prefix))
        self.e.set_store(("split", seq.name), [pre, w, post])
        self.e.add(z3.And(pre.len >= 0, post.len >= 0, seq.len == pre.len + 1 + post.len))
        key = self.e.store.get(("keyed", seq.prefix))
        if key is not None:      # distinct keys: no other element has that of the witness
            from . import models, loops
            same = models.eq(self, key, Subst(self, seq, w).value(key))
            same = same.e if isinstance(same, SBool) else same
            for k, sp in list(self.e.store.items()):
                if isinstance(k, tuple) and k[0] == "split":
                    for q in sp:
                        if isinstance(q, SeqVar) and q.prefix == seq.prefix and ("split", q.name) not in self.e.store:
                            loops.add_fact(self, q, loops.gnot(same))
        return pre, w, post

    # ================================================================ names
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if type(v) is SChoice:
                    v = self.resolve(v)
                    f.env[name] = v if False else f.env[name]
                elif type(v) is Poison:
                    raise PoisonRead(v)
                return v
            if name in f.cells:
                try:
                    return f.cells[name].cell_contents
                except ValueError:
                    raise SRaise(NameError(name))
            f = f.parent
        key = ("global", id(frame.glob), name)
        if key in self.overlay:
            return self.overlay[key][1]
        if name in frame.glob:
            return frame.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise SRaise(NameError(name))

    def mangle(self, frame, name):
        if name.startswith("__") and not name.endswith("__") and frame.clsname:
            return f"_{frame.clsname.lstrip('_')}{name}"
        return name

    # ================================================================ attributes
    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            if c is object and name in ("__bool__", "__len__"):
                continue
            if (id(c), name) in self.overlay:
                return self.overlay[(id(c), name)][1]
            if name in c.__dict__:
                return c.__dict__[name]
        return _MISSING

    def getattr(self, obj, name, default=_MISSING):
        try:
            return self._getattr(obj, name)
        except SRaise as e:
            if default is not _MISSING and isinstance(e.exc, AttributeError):
                return default
            raise

    def _getattr(self, obj, name):
        obj = self.resolve(obj)
        if isinstance(obj, SObj):
            return self.obj_getattr(obj, name)
        if isinstance(obj, Sym):
            from . import models, loops
            return models.sym_getattr(self, obj, name)
        if (id(obj), name) in self.overlay:
            return self.overlay[(id(obj), name)][1]
        if isinstance(obj, super):
            return self.super_getattr(obj, name)
        if isinstance(obj, type) and name == "__dict__":
            over = {k[1]: v[1] for k, v in self.overlay.items() if k[0] == id(obj)}
            if over:
                return self.new_dict([[k, v] for k, v in {**obj.__dict__, **over}.items()])
        if isinstance(obj, type) and (id(obj), name) not in self.overlay:
            for c in obj.__mro__[1:]:
                if (id(c), name) in self.overlay and name not in obj.__dict__:
                    return self.overlay[(id(c), name)][1]
        if isinstance(obj, tuple) and not is_conc(obj) and name not in ("index", "count"):
            # namedtuple with symbolic fields
            v = getattr(obj, name, _MISSING)
            if v is not _MISSING:
                return v
        # interpreted properties of concrete repo objects (their code has to be executed, not its cached native result)
        try:
            v = getattr(obj, name)
        except AttributeError as e:
            raise SRaise(e)
        except Exception as e:
            raise SRaise(e)
        return v

    def super_getattr(self, sup, name):
        raise Unsupported("native super object")

    def obj_getattr(self, obj, name):
        cls = obj.cls
        if name == "__class__":
            return cls
        if name == "__dict__":
            self.e.stamp += 1
            d = SInstDict([[k, v] for k, v in obj.attrs.items()], None, self.e.stamp)
            d.owner = obj
            return d
        d = self.class_lookup(cls, name)
        if d is not _MISSING:
            t = type(d)
            if t is property:
                if d.fget is None:
                    raise SRaise(AttributeError(name))
                return self.call(d.fget, [obj], {})
            if t is types.MemberDescriptorType:  # slot
                if name in obj.attrs:
                    return self.resolve(obj.attrs[name])
                raise SRaise(AttributeError(name))
            dt = type(d)
            if not isinstance(d, (types.FunctionType, classmethod, staticmethod, type)) and hasattr(dt, "__get__") and hasattr(dt, "__set__"):
                g = self.class_lookup(dt, "__get__")
                return self.call(g, [d, obj, cls], {})
        if name in obj.attrs:
            return self.resolve(obj.attrs[name])
        if d is not _MISSING:
            if isinstance(d, types.FunctionType):
                return SBound(d, obj)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return SBound(d.__func__, cls)
            if isinstance(d, functools.cached_property):
                raise Unsupported("cached_property")
            if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return SBound(d, obj)
            if isinstance(d, types.BuiltinFunctionType):
                return d
            if hasattr(type(d), "__get__"):
                g = self.class_lookup(type(d), "__get__")
                return self.call(g, [d, obj, cls], {})
            return d
        if name in ("__module__", "__name__", "__qualname__", "__doc__"):
            return getattr(cls, name)
        g = self.class_lookup(cls, "__getattr__")
        if g is not _MISSING:
            return self.call(g, [obj, name], {})
        raise SRaise(AttributeError(f"{cls.__name__!r} object has no attribute {name!r}"))

    def setattr(self, obj, name, value):
        obj = self.resolve(obj)
        if isinstance(obj, SObj):
            s = self.class_lookup(obj.cls, "__setattr__")
            if isinstance(s, types.FunctionType):
                self.call(s, [obj, name, value], {})
                return
            self.generic_setattr(obj, name, value)
            return
        if isinstance(obj, Sym):
            raise Unsupported(f"attribute assignment on {obj!r}")
        self.raw_setattr(obj, name, value)

    def generic_setattr(self, obj, name, value):
        """object.__setattr__"""
        if isinstance(obj, SObj):
            d = self.class_lookup(obj.cls, name)
            if d is not _MISSING:
                if isinstance(d, property):
                    if d.fset is None:
                        raise SRaise(AttributeError(f"can't set attribute {name}"))
                    self.call(d.fset, [obj, value], {})
                    return
                if not isinstance(d, (types.FunctionType, types.MemberDescriptorType, type)) and hasattr(type(d), "__set__"):
                    self.call(self.class_lookup(type(d), "__set__"), [d, obj, value], {})
                    return
            self.raw_setattr(obj, name, value)
            return
        self.raw_setattr(obj, name, value)

    def delattr(self, obj, name):
        obj = self.resolve(obj)
        if isinstance(obj, SObj):
            d = self.class_lookup(obj.cls, name)
            if d is not _MISSING and hasattr(type(d), "__delete__") and not isinstance(d, (types.FunctionType, types.MemberDescriptorType)):
                if isinstance(d, property):
                    if d.fdel is None:
                        raise SRaise(AttributeError(name))
                    self.call(d.fdel, [obj], {})
                    return
                self.call(self.class_lookup(type(d), "__delete__"), [d, obj], {})
                return
            self.raw_delattr(obj, name)
            return
        raise Unsupported(f"delattr on {obj!r}")

    # ================================================================ isinstance
    def isinstance(self, v, cls):
        v = self.resolve(v)
        if isinstance(cls, (tuple,)):
            return any(self.isinstance(v, c) for c in cls)
        if isinstance(cls, types.UnionType):
            return any(self.isinstance(v, c) for c in cls.__args__)
        if not isinstance(v, Sym):
            try:
                return isinstance(v, cls)
            except TypeError as e:
                raise SRaise(e)
        meta = type(cls)
        ic = meta.__dict__.get("__instancecheck__")
        if isinstance(ic, types.FunctionType) and ic.__module__.split(".")[0] in self.repo_prefixes:
            return self.truth(self.call(ic, [cls, v], {}))
        if isinstance(v, STz):
            return self.tz_isinstance(v, cls)
        try:
            if not isinstance(cls, type):
                cls = typing.get_origin(cls) or cls
            return issubclass(v.pytype, cls)
        except TypeError as e:
            raise SRaise(e)

    def tz_isinstance(self, v, cls):
        return cls in (_dt.tzinfo, object)

    def type_of(self, v):
        v = self.resolve(v)
        if isinstance(v, Sym):
            if isinstance(v, STz):
                raise Unsupported("type of a symbolic tzinfo")
            if isinstance(v, SDict):
                return v.cls
            return v.pytype
        return type(v)

    # ================================================================ equality, identity, ordering -> bool or SBool
    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, STz) and isinstance(b, STz):
            return SBool(a.ident == b.ident)
        if isinstance(a, SBool) and isinstance(b, bool):
            return a if b else SBool(z3.Not(a.e))
        if isinstance(b, SBool) and isinstance(a, bool):
            return self.is_(b, a)
        if isinstance(a, SOpaque) and isinstance(b, _dt.timezone):
            return SBool(z3.And(z3.Function(f"Fixed.is.{id(b)}", z3.IntSort(), z3.BoolSort())(a.e), z3.Function("Fixed.offset", z3.IntSort(), z3.IntSort())(a.e) == td_us(b.utcoffset(None)))) if a.pytype is _dt.timezone else False
        if isinstance(b, SOpaque) and isinstance(a, _dt.timezone):
            return self.is_(b, a)
        if isinstance(a, SOpaque) and isinstance(b, SOpaque):
            return SBool(a.e == b.e) if a.e.sort() == b.e.sort() else False
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) in (SInt, SStr, SBool) and type(b) is type(a):
            raise Unsupported("identity of symbolic scalars")
        if isinstance(a, Sym) != isinstance(b, Sym):
            return False
        if isinstance(a, Sym):
            return False
        return a is b

    def as_bool(self, v):
        """z3 formula or python bool of a truth-valued result without forking where possible"""
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, bool):
            return v
        return self.truth(v)

    def not_(self, v):
        if isinstance(v, SBool):
            return SBool(z3.Not(v.e))
        return not self.truth(v)

    def eq(self, a, b):
        from . import models
        a, b = self.resolve(a), self.resolve(b)
        return models.eq(self, a, b)

    def lt(self, op, a, b):
        from . import models
        a, b = self.resolve(a), self.resolve(b)
        return models.order(self, op, a, b)

    # ================================================================ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.resolve(f)
        if isinstance(f, SBound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, SMethod):
            from . import models, loops
            return models.call_method(self, f.self_, f.name, args, kwargs)
        if isinstance(f, SFunc):
            return self.call_sfunc(f, args, kwargs)
        if isinstance(f, SObj):
            c = self.class_lookup(f.cls, "__call__")
            if c is _MISSING:
                raise SRaise(TypeError("object is not callable"))
            return self.call(c, [f] + list(args), kwargs)
        if isinstance(f, Sym):
            from . import models, loops
            return models.call_sym(self, f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kwargs)
        if isinstance(f, (operator.attrgetter, operator.itemgetter)):
            from . import models, loops
            return models.call_getter(self, f, args)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        if any(isinstance(a, Many) for a in args):
            if isinstance(f, types.FunctionType) and self.can_interpret(f):
                return self.call_function(f, args, kwargs)
            raise Unsupported(f"unknown number of arguments for {f!r}")
        try:
            h = self.models.get(f)
        except TypeError:
            h = None
        if h is not None:
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        if isinstance(f, type):
            return self.call_type(f, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.WrapperDescriptorType, types.MethodDescriptorType, types.MethodWrapperType, types.ClassMethodDescriptorType)):
            from . import models, loops
            r = models.call_builtin(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
            return self.call_native(f, args, kwargs)
        if isinstance(f, typing.NewType):
            return args[0]
        # callable native object, e.g. attrs validators, functools caches, converters
        if isinstance(f, functools._lru_cache_wrapper):
            if self.all_conc(args, kwargs):
                return self.call_native(f, args, kwargs)
            raise Unsupported(f"lru_cache wrapper {f!r} with symbolic arguments")
        c = getattr(type(f), "__call__", None)
        if isinstance(c, types.FunctionType):
            return self.call(c, [f] + list(args), kwargs)
        if self.all_conc(args, kwargs):
            return self.call_native(f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def all_conc(self, args, kwargs):
        return all(is_conc(a) for a in args) and all(is_conc(a) for a in kwargs.values())

    def concretize_arg(self, v):
        """native form of fully concrete containers (copies)"""
        if isinstance(v, SChoice):
            v = self.resolve(v)
        if isinstance(v, SStr):
            c = v.concrete()
            return c if c is not None else v
        if isinstance(v, SList) and v.concrete:
            xs = [self.concretize_arg(x) for x in v.parts]
            return xs if all(is_conc(x) for x in xs) else v
        if isinstance(v, SDict) and not v.unbounded and v.default is None:
            ks = {}
            for k, x in v.entries:
                k, x = self.concretize_arg(k), self.concretize_arg(x)
                if not (is_conc(k) and is_conc(x)):
                    return v
                ks[k] = x
            return ks
        if isinstance(v, SSet):
            xs = [self.concretize_arg(x) for x in v.items]
            return set(xs) if all(is_conc(x) for x in xs) else v
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.concretize_arg(x) for x in v)
        return v

    def from_native(self, v):
        """wrap freshly created native containers so that interpreted code can mutate them symbolically"""
        if type(v) is list:
            return self.new_list([self.from_native(x) for x in v])
        if type(v) is dict:
            return self.new_dict([[k, self.from_native(x)] for k, x in v.items()])
        if type(v) is set:
            self.e.stamp += 1
            return SSet(list(v), self.e.stamp)
        return v

    def call_native(self, f, args, kwargs):
        args = [self.concretize_arg(a) for a in args]
        kwargs = {k: self.concretize_arg(a) for k, a in kwargs.items()}
        if not self.all_conc(args, kwargs):
            raise Unsupported(f"library call {getattr(f, '__qualname__', f)!r} with symbolic arguments {args!r}")
        try:
            r = f(*args, **kwargs)
        except Exception as e:
            raise SRaise(e)
        return self.from_native(r)

    def is_repo(self, f):
        m = getattr(f, "__module__", None) or ""
        return m.split(".")[0] in self.repo_prefixes

    def can_interpret(self, f):
        if self.is_repo(f):
            return True
        m = getattr(f, "__module__", None) or ""
        if m == "collections.abc" or m.startswith(("attr", "specs", "pyvc.spec", "pyvc.refimpl")) or m in ("contextlib_none",):
            return True
        if f in self.interpretable:
            return True
        # functions generated by attrs have the module of the class or none at all
        fn = getattr(f, "__code__", None)
        return fn is not None and (fn.co_filename.startswith("<attrs generated") or "/verif/specs" in fn.co_filename or fn.co_filename.startswith(REPO_PREFIX))

    def call_function(self, f, args, kwargs):
        h = self.contracts.get(f)
        if h is not None and f is not self.verifying:
            return h(self, args, kwargs)
        if f is self.verifying:
            if self.verify_depth > 0:
                if h is not None:
                    return h(self, args, kwargs)   # recursive call: use the contract (induction)
            self.verify_depth += 1
            try:
                return self.call_body(f, args, kwargs)
            finally:
                self.verify_depth -= 1
        if not self.can_interpret(f):
            if self.all_conc([self.concretize_arg(a) for a in args], {k: self.concretize_arg(v) for k, v in kwargs.items()}):
                return self.call_native(f, args, kwargs)
            raise Unsupported(f"library function {f.__module__}.{f.__qualname__} with symbolic arguments")
        return self.call_body(f, args, kwargs)

    def call_body(self, f, args, kwargs):
        w = getattr(f, "__wrapped__", None)
        node = source.node_of(f)
        if self.is_repo(f) and not getattr(f, "__code__", None).co_filename.startswith("<attrs"):
            self.e.functions_inlined.add(f"{f.__module__}:{f.__qualname__}")
        cells = {}
        if f.__closure__:
            cells = dict(zip(f.__code__.co_freevars, f.__closure__))
        clsname = source.class_of(f)
        frame = self.stamped(Frame({}, f.__globals__, clsname, cells, None, f, node))
        defaults = list(f.__defaults__ or ())
        kwdefaults = dict(f.__kwdefaults__ or {})
        self.bind(frame, node.args, args, kwargs, defaults, kwdefaults, f.__qualname__)
        return self.run_body(frame, node, f.__qualname__)

    def call_sfunc(self, f, args, kwargs):
        frame = self.stamped(Frame({}, f.glob, f.clsname, {}, f.env, f.fn, f.node))
        self.bind(frame, f.node.args, args, kwargs, f.defaults, f.kwdefaults, f.name)
        return self.run_body(frame, f.node, f.name)

    def run_body(self, frame, node, name):
        if len(self.callstack) > self.maxdepth:
            raise Unsupported("call depth exceeded (unbounded recursion without contract?)")
        if isinstance(node, ast.Lambda):
            self.callstack.append(name)
            try:
                return self.eval(node.body, frame)
            finally:
                self.callstack.pop()
        self.callstack.append(name)
        try:
            if source.is_generator(node):
                frame.yields = self.new_list([])
                frame.yields.private = True
                end = None
                def run():
                    try:
                        self.exec_block(node.body, frame)
                    except _Return:
                        pass
                try:
                    self.pure(run, f"generator {name}")
                except SRaise as e:
                    frame.yields.parts = frame.yields.parts + [Raise(e.exc)]
                return self.new_iter(frame.yields.parts, "generator")
            try:
                self.exec_block(node.body, frame)
            except _Return as r:
                return r.value
            return None
        finally:
            self.callstack.pop()

    def bind(self, frame, a, args, kwargs, defaults, kwdefaults, name):
        env = frame.env
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        frame.args0 = args[0] if args else None
        kwargs = dict(kwargs)
        n = len(pos)
        given = min(len(args), n)
        if any(isinstance(x, Many) for x in args[:n]) or a.vararg is None and any(isinstance(x, Many) for x in args):
            raise Unsupported("unknown number of arguments for named parameters")
        for i in range(given):
            env[self.mangle(frame, pos[i])] = args[i]
        if len(args) > n:
            if a.vararg is None:
                raise SRaise(TypeError(f"{name}() takes {n} positional arguments but {len(args)} were given"))
            env[a.vararg.arg] = self.new_tuple(args[n:])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for i in range(given, n):
            p = pos[i]
            if p in kwargs and i >= len(a.posonlyargs):
                env[self.mangle(frame, p)] = kwargs.pop(p)
            else:
                di = i - (n - len(defaults))
                if di < 0:
                    raise SRaise(TypeError(f"{name}() missing argument {p!r}"))
                env[self.mangle(frame, p)] = defaults[di]
        for i in range(given):
            if pos[i] in kwargs:
                raise SRaise(TypeError(f"{name}() got multiple values for argument {pos[i]!r}"))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                env[x.arg] = kwdefaults[x.arg]
            else:
                raise SRaise(TypeError(f"{name}() missing keyword argument {x.arg!r}"))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict([[k, v] for k, v in kwargs.items()])
        elif kwargs:
            raise SRaise(TypeError(f"{name}() got an unexpected keyword argument {next(iter(kwargs))!r}"))

    def call_type(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            if cls.__module__.split(".")[0] in self.repo_prefixes:
                return self.make_exception(cls, args, kwargs)
            args = [self.opaque_for_exc(a) for a in args]
            try:
                return cls(*args)
            except Exception as e:
                raise SRaise(e)
        h = self.constructors.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        from . import models
        r = models.construct(self, cls, args, kwargs)
        if r is not NotImplemented:
            return r
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            return self.make_namedtuple(cls, args, kwargs)
        if cls.__module__.split(".")[0] in self.repo_prefixes or cls.__module__.startswith("specs"):
            if isinstance(cls.__new__, types.FunctionType):
                raise Unsupported(f"custom __new__ of {cls}")
            if getattr(cls, "__abstractmethods__", None):
                raise SRaise(TypeError(f"Can't instantiate abstract class {cls.__name__}"))
            obj = self.new_obj(cls)
            init = self.class_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType):
                r = self.call(init, [obj] + list(args), kwargs)
            elif args or kwargs:
                raise SRaise(TypeError(f"{cls.__name__}() takes no arguments"))
            return obj
        return self.call_native(cls, args, kwargs)

    def make_exception(self, cls, args, kwargs):
        args = [self.opaque_for_exc(a) for a in args]
        kwargs = {k: self.opaque_for_exc(a) for k, a in kwargs.items()}
        try:
            return cls(*args, **kwargs)
        except Exception as e:
            raise SRaise(e)

    def opaque_for_exc(self, a):
        a = self.concretize_arg(a)
        return a if is_conc(a) else "<symbolic>"

    def make_namedtuple(self, cls, args, kwargs):
        fields = cls._fields
        vals = list(args)
        for f in fields[len(vals):]:
            if f in kwargs:
                vals.append(kwargs[f])
            elif f in cls._field_defaults:
                vals.append(cls._field_defaults[f])
            else:
                raise SRaise(TypeError(f"missing argument {f!r}"))
        if len(vals) != len(fields) or any(k not in fields for k in kwargs):
            raise SRaise(TypeError("wrong arguments"))
        return tuple.__new__(cls, vals)

    # ================================================================ statements
    def exec_block(self, stmts, frame):
        for s in stmts:
            self.exec(s, frame)

    def exec(self, s, frame):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, frame)

    def x_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, frame)

    def x_Pass(self, s, frame):
        pass

    def x_Return(self, s, frame):
        raise _Return(self.eval(s.value, frame) if s.value is not None else None)

    def x_Break(self, s, frame):
        raise _Break()

    def x_Continue(self, s, frame):
        raise _Continue()

    def x_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def x_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def x_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(frame, self.mangle(frame, t.id))
            self.set_env(frame, self.mangle(frame, t.id), self.inplace(s.op, cur, self.eval(s.value, frame)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            n = self.mangle(frame, t.attr)
            cur = self.getattr(o, n)
            self.setattr(o, n, self.inplace(s.op, cur, self.eval(s.value, frame)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            k = self.eval(t.slice, frame)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.eval(s.value, frame)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, a, b):
        a = self.resolve(a)
        if isinstance(a, SList) and not isinstance(a, STuple) and isinstance(op, ast.Add):
            from . import models, loops
            models.call_method(self, a, "extend", [b], {})
            return a
        if isinstance(a, SObj):
            f = self.class_lookup(a.cls, INPLACE.get(type(op), "__i_none__"))
            if isinstance(f, types.FunctionType):
                r = self.call(f, [a, b], {})
                if r is not NotImplemented:
                    return r
        return self.binop(op, a, b)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.set_env(frame, self.mangle(frame, t.id), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, frame), self.mangle(frame, t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, frame), self.eval(t.slice, frame), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for tt, vv in zip(t.elts, vals):
                self.assign(tt.value if isinstance(tt, ast.Starred) else tt, vv, frame)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        v = self.resolve(v)
        items = self.to_elems(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                raise SRaise(ValueError("not enough values to unpack"))
            return items[:i] + [self.new_list(items[i:len(items) - after])] + items[len(items) - after:]
        if len(items) != len(elts):
            raise SRaise(ValueError("wrong number of values to unpack"))
        return items

    def to_elems(self, v):
        """list of the elements of a finite iterable with known structure"""
        it = self.get_iter(v)
        out = []
        for p in self.resolve_parts(it.parts):
            if isinstance(p, Many):
                raise Unsupported("unbounded sequence where a fixed number of elements is needed")
            if isinstance(p, Raise):
                raise SRaise(p.exc)
            out.append(p)
        return out

    def star_args(self, v):
        """positional arguments given as *v; a segment of unknown length may only be received by a *parameter"""
        parts = self.resolve_parts(self.get_iter(v).parts)
        for i, p in enumerate(parts):
            if isinstance(p, Raise):
                raise SRaise(p.exc)
        return list(parts)

    def x_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                name = self.mangle(frame, t.id)
                env = frame.env
                if name not in env:
                    raise SRaise(NameError(name))
                old = env[name]
                self.e.log(lambda: env.__setitem__(name, old))
                del env[name]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, frame), self.mangle(frame, t.attr))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, frame), self.eval(t.slice, frame))
            else:
                raise Unsupported("del target")

    def x_If(self, s, frame):
        if self.truth(self.eval(s.test, frame)):
            self.exec_block(s.body, frame)
        else:
            self.exec_block(s.orelse, frame)

    def x_Assert(self, s, frame):
        if not self.truth(self.eval(s.test, frame)):
            raise SRaise(AssertionError())

    def x_Raise(self, s, frame):
        if s.exc is None:
            raise SRaise(frame.env.get("%exc") or RuntimeError("no active exception"))
        exc = self.eval(s.exc, frame)
        if isinstance(exc, type) and issubclass(exc, BaseException):
            exc = self.call(exc, [], {})
        if not isinstance(exc, BaseException):
            if isinstance(exc, SObj):
                raise Unsupported("raising a symbolic object")
            raise SRaise(TypeError("exceptions must derive from BaseException"))
        if s.cause is not None:
            self.eval(s.cause, frame)
        raise SRaise(exc)

    def x_Try(self, s, frame):
        try:
            try:
                self.exec_block(s.body, frame)
            except SRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, frame)
                        match = isinstance(e.exc, t)
                    if match:
                        if h.name:
                            self.set_env(frame, h.name, e.exc)
                        old = frame.env.get("%exc")
                        frame.env["%exc"] = e.exc
                        try:
                            self.exec_block(h.body, frame)
                        finally:
                            if old is None:
                                frame.env.pop("%exc", None)
                            else:
                                frame.env["%exc"] = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, frame)
        except (SRaise, _Return, _Break, _Continue):
            self.exec_block(s.finalbody, frame)
            raise
        else:
            self.exec_block(s.finalbody, frame)

    def x_With(self, s, frame):
        self.exec_with(s.items, s.body, frame)

    def exec_with(self, items, body, frame):
        if not items:
            self.exec_block(body, frame)
            return
        item, rest = items[0], items[1:]
        cm = self.eval(item.context_expr, frame)
        from . import models
        models.with_statement(self, cm, item.optional_vars, lambda: self.exec_with(rest, body, frame), frame)

    def x_FunctionDef(self, s, frame):
        f = self.make_sfunc(s, frame, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, frame), [f], {})
        self.set_env(frame, s.name, f)

    def make_sfunc(self, node, frame, name):
        defaults = [self.eval(d, frame) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, frame) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return SFunc(node, frame, frame.glob, name, frame.clsname, defaults, kwd, frame.fn)

    def x_Import(self, s, frame):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.set_env(frame, a.asname, m)
            else:
                self.set_env(frame, a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))

    def x_ImportFrom(self, s, frame):
        modname = s.module or ""
        if s.level:
            base = frame.glob.get("__package__") or frame.glob["__name__"].rpartition(".")[0]
            for _ in range(s.level - 1):
                base = base.rpartition(".")[0]
            modname = base + ("." + modname if modname else "")
        try:
            m = importlib.import_module(modname)
        except ImportError as e:
            raise SRaise(e)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                try:
                    v = importlib.import_module(modname + "." + a.name)
                except ImportError as e:
                    raise SRaise(ImportError(str(e)))
            self.set_env(frame, a.asname or a.name, v)

    def x_Global(self, s, frame):
        frame.globals_ |= set(s.names)

    def x_Nonlocal(self, s, frame):
        frame.nonlocals |= set(s.names)

    # ---------------------------------------------------------------- loops
    def x_For(self, s, frame):
        src = self.eval(s.iter, frame)
        it = self.get_iter(src)
        from . import loops
        loops.run_for(self, it, s, frame)

    def x_While(self, s, frame):
        from . import loops
        loops.run_while(self, s, frame)

    # ================================================================ expressions
    def eval(self, n, frame):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, frame)

    def e_Constant(self, n, frame):
        return n.value

    def e_Name(self, n, frame):
        return self.lookup(frame, self.mangle(frame, n.id))

    def e_Attribute(self, n, frame):
        return self.getattr(self.eval(n.value, frame), self.mangle(frame, n.attr))

    def e_Tuple(self, n, frame):
        return tuple(self.eval_elts(n.elts, frame))

    def e_List(self, n, frame):
        return self.new_list(self.eval_elts(n.elts, frame, True))

    def e_Set(self, n, frame):
        self.e.stamp += 1
        return SSet(self.eval_elts(n.elts, frame), self.e.stamp)

    def eval_elts(self, elts, frame, many=False):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, frame)
                if many:
                    out.extend(self.get_iter(v).parts)
                else:
                    out.extend(self.to_elems(v))
            else:
                out.append(self.eval(e, frame))
        return out

    def e_Dict(self, n, frame):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                from . import models
                models.dict_update(self, d, self.eval(v, frame))
            else:
                kk = self.eval(k, frame)
                self.setitem(d, kk, self.eval(v, frame))
        return d

    def e_BoolOp(self, n, frame):
        is_and = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.eval(x, frame)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, SBool) else v
            if not is_and and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, n, frame):
        v = self.eval(n.operand, frame)
        if isinstance(n.op, ast.Not):
            return self.not_(v)
        from . import models
        return models.unary(self, n.op, self.resolve(v))

    def e_BinOp(self, n, frame):
        a = self.eval(n.left, frame)
        b = self.eval(n.right, frame)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        from . import models
        return models.binop(self, op, self.resolve(a), self.resolve(b))

    def e_Compare(self, n, frame):
        left = self.eval(n.left, frame)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, frame)
            res = self.compare(op, left, right)
            if i < len(n.ops) - 1:
                if not self.truth(res):
                    return False if isinstance(res, SBool) else res
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        return self.lt(type(op).__name__, a, b)

    def ne(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, SObj):
            f = self.class_lookup(a.cls, "__ne__")
            if isinstance(f, types.FunctionType):
                r = self.call(f, [a, b], {})
                if r is not NotImplemented:
                    return r
        return self.not_(self.eq(a, b))

    def contains(self, container, item):
        from . import models
        return models.contains(self, self.resolve(container), self.resolve(item))

    def e_IfExp(self, n, frame):
        if self.truth(self.eval(n.test, frame)):
            return self.eval(n.body, frame)
        return self.eval(n.orelse, frame)

    def e_NamedExpr(self, n, frame):
        v = self.eval(n.value, frame)
        self.set_env(frame, n.target.id, v)
        return v

    def e_Lambda(self, n, frame):
        return self.make_sfunc(n, frame, "<lambda>")

    def e_Call(self, n, frame):
        fnode = n.func
        # zero-argument super()
        if isinstance(fnode, ast.Name) and fnode.id == "super" and not n.args:
            return self.make_super(frame)
        f = self.eval(fnode, frame)
        args = []
        for a in n.args:
            if isinstance(a, ast.GeneratorExp):
                a._consumed = True
            if isinstance(a, ast.Starred):
                args.extend(self.star_args(self.eval(a.value, frame)))
            else:
                args.append(self.eval(a, frame))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, frame)
            if k.arg is None:
                for kk, vv in self.dict_items(v):
                    if kk in kwargs:
                        raise SRaise(TypeError(f"got multiple values for keyword argument {kk!r}"))
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        if f is builtins.locals or f is builtins.vars:
            raise Unsupported("locals()")
        return self.call(f, args, kwargs)

    def dict_items(self, v):
        v = self.resolve(v)
        if isinstance(v, dict):
            return list(v.items())
        if isinstance(v, SDict) and not v.unbounded:
            return [(self.concretize_arg(k), x) for k, x in v.entries]
        raise Unsupported("** of an unknown mapping")

    def make_super(self, frame):
        f = frame
        while f is not None and "__class__" not in f.cells:
            f = f.parent
        if f is None:
            raise Unsupported("super() without __class__ cell")
        cls = f.cells["__class__"].cell_contents
        return SuperProxy(cls, f.args0 if f.args0 is not None else f.env.get("self"))

    def e_Subscript(self, n, frame):
        return self.getitem(self.eval(n.value, frame), self.eval(n.slice, frame))

    def e_Slice(self, n, frame):
        return slice(*(self.resolve(self.eval(x, frame)) if x is not None else None for x in (n.lower, n.upper, n.step)))

    def getitem(self, o, k):
        from . import models
        return models.getitem(self, self.resolve(o), k if isinstance(k, slice) else self.resolve(k))

    def setitem(self, o, k, v):
        from . import models
        models.setitem(self, self.resolve(o), k if isinstance(k, slice) else self.resolve(k), v)

    def delitem(self, o, k):
        from . import models
        models.delitem(self, self.resolve(o), k if isinstance(k, slice) else self.resolve(k))

    def e_JoinedStr(self, n, frame):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(self.format_value(x, frame))
        return str_concat(self, parts)

    def format_value(self, x, frame):
        from . import models
        v = self.eval(x.value, frame)
        spec = self.eval(x.format_spec, frame) if x.format_spec is not None else ""
        return models.format_value(self, self.resolve(v), x.conversion, spec)

    def e_Yield(self, n, frame):
        v = self.eval(n.value, frame) if n.value is not None else None
        if frame.hook is not None:
            return frame.hook(v)
        self.list_append(frame.yields, v)
        return None

    def e_YieldFrom(self, n, frame):
        it = self.get_iter(self.eval(n.value, frame))
        for p in it.parts:
            if isinstance(p, Raise):
                raise SRaise(p.exc)
            self.set_parts(frame.yields, frame.yields.parts + [p], "append" if not isinstance(p, Many) else "appendmany", p)
        return None

    def e_Starred(self, n, frame):
        raise Unsupported("starred expression")

    # ---------------------------------------------------------------- comprehensions
    def e_ListComp(self, n, frame):
        return self.new_list(self.comp(n, frame))

    def e_GeneratorExp(self, n, frame):
        # evaluated eagerly; sound because the evaluation changes nothing and the variables it reads keep their values
        # (assumption: no object it reads is changed between its creation and its consumption)
        if not getattr(n, "_consumed", False):
            self.check_deferred(n, frame)
        out = self.new_list([])
        out.private = True
        try:
            self.pure(lambda: self.comp(n, frame, out=out), "generator expression")
        except SRaise as x:
            return self.new_iter(out.parts + [Raise(x.exc)], "generator")
        return self.new_iter(out.parts, "generator")

    def check_deferred(self, n, frame):
        """the local variables a generator expression reads later are not assigned after its creation"""
        read = set()
        for x in [n.elt] + [c for g in n.generators for c in g.ifs] + [g.iter for g in n.generators[1:]]:
            read |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
        read -= {y.id for g in n.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        for y in ast.walk(frame.node):
            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and y.id in read and y.lineno >= n.lineno:
                raise Unsupported(f"generator expression reading {y.id}, which is assigned later")
        n._consumed = True

    def pure(self, run, what):
        """run a piece of code whose execution could be deferred: it must not change existing objects"""
        stamp = self.e.stamp
        saved, self.tracked_effects = self.tracked_effects, []
        try:
            return run()
        finally:
            effs, self.tracked_effects = self.tracked_effects, saved
            if saved is not None:
                saved.extend(effs)
            for eff in effs:
                if eff[0] not in ("next", "refine") and not getattr(eff[1], "stamp", 0) > stamp and not (isinstance(eff[1], SList) and eff[1].private):
                    raise Unsupported(f"{what} with the effect {eff[0]} on {eff[1]!r}")

    def e_SetComp(self, n, frame):
        self.e.stamp += 1
        out = SSet([], self.e.stamp)
        for p in self.comp(n, frame):
            if isinstance(p, Many):
                raise Unsupported("set comprehension over an unbounded sequence")
            from . import models, loops
            models.call_method(self, out, "add", [p], {})
        return out

    def e_DictComp(self, n, frame):
        d = self.new_dict()
        pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(pair, n)
        for p in self.comp(n, frame, pair):
            if isinstance(p, Many):
                from . import models
                models.dict_add_many(self, d, p)
            else:
                self.setitem(d, p[0], p[1])
        return d

    def comp(self, n, frame, elt=None, out=None):
        from . import loops
        sub = self.stamped(Frame({}, frame.glob, frame.clsname, {}, frame, frame.fn, n))
        if out is None:
            out = self.new_list([])
            out.private = True
        sub.yields = frame.yields
        elt = elt if elt is not None else n.elt
        loops.run_comp(self, n.generators, elt, sub, out, frame)
        return out.parts

    # ================================================================ iteration
    def get_iter(self, v):
        from . import models
        return models.get_iter(self, self.resolve(v))


class SuperProxy(Sym):
    pytype = super
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Subst:
    """replace the canonical element of a sequence by another element in formulas and values"""
    def __init__(self, interp, seq, elem, prefix=None):
        self.i, self.seq, self.elem = interp, seq, elem
        if prefix is None:
            r = interp.e.store.get(("prefix_of", id(elem)))
            if r is None:
                raise Unsupported("instantiation of a sequence with an unrelated element")
            prefix = r[1]
        self.prefix = prefix
        self.objmap = {}
        self.seqmap = dict(interp.e.store.get(("seqmap", prefix), ()))
        self.walk(seq.elem, elem)

    def walk(self, a, b):
        if isinstance(a, SObj) and isinstance(b, SObj):
            if id(a) in self.objmap:
                return
            self.objmap[id(a)] = b
            for k in a.attrs:
                if k in b.attrs:
                    self.walk(a.attrs[k], b.attrs[k])
        elif isinstance(a, SChoice) and isinstance(b, SChoice):
            for (_, x), (_, y) in zip(a.alts, b.alts):
                self.walk(x, y)
        elif isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                self.walk(x, y)
        elif isinstance(a, (SList, SDict, SStr, SOpaque)) and type(a) is type(b):
            self.objmap[id(a)] = b
            if isinstance(a, (SList, SDict)):
                pa, pb = (a.parts, b.parts) if isinstance(a, SList) else (a.entries, b.entries)
                for x, y in zip(pa, pb):
                    if isinstance(x, Many) and isinstance(y, Many):
                        self.seqmap[x.seq.name] = y.seq
                        self.walk(x.seq.elem, y.seq.elem)

    def formula(self, f):
        if f is True or f is False or not isinstance(f, z3.ExprRef):
            return f
        pairs = []
        seen = set()
        stack = [f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith(self.seq.prefix + ".") or n == self.seq.prefix:
                    pairs.append((x, z3.Const(self.prefix + n[len(self.seq.prefix):], x.sort())))
            stack.extend(x.children())
        return z3.substitute(f, *pairs) if pairs else f

    def value(self, v):
        if v is self.seq.elem:
            return self.elem
        if isinstance(v, Sym) and id(v) in self.objmap:
            return self.objmap[id(v)]
        if isinstance(v, (SObj, SList, SDict, SSet)):
            if self.seq.prefix not in v.per:
                return v        # shared by all elements
            key = ("inst", self.prefix, id(v))
            r = self.i.e.store.get(key)
            if r is not None:
                return r[1]
            o = self.copy(v)
            o.per = tuple(self.prefix + q[len(self.seq.prefix):] if q.startswith(self.seq.prefix + ".") else q for q in v.per if q != self.seq.prefix)
            self.i.e.set_store(key, (v, o))
            return o
        if isinstance(v, SBool): return SBool(self.formula(v.e))
        if isinstance(v, SInt): return SInt(self.formula(v.e))
        if isinstance(v, SReal): return SReal(self.formula(v.n), v.d)
        if isinstance(v, STz): return STz(self.formula(v.ident), self.formula(v.zone), v.kind)
        if isinstance(v, SDT):
            return SDT(self.formula(v.wall), self.value(v.tz), self.formula(v.fold), self.formula(v._day), self.formula(v._tod))
        if isinstance(v, SDate): return SDate(self.formula(v.day))
        if isinstance(v, STime): return STime(self.formula(v.tod), self.value(v.tz), self.formula(v.fold))
        if isinstance(v, STD): return STD(self.formula(v.us))
        if isinstance(v, SOpaque): return SOpaque(self.formula(v.e), v.pytype, self.formula(v.truthy))
        if isinstance(v, SChoice): return SChoice([(self.formula(g), self.value(x)) for g, x in v.alts])
        if isinstance(v, SStr): return v.subst(self)
        if isinstance(v, tuple):
            vals = [self.value(x) for x in v]
            return tuple.__new__(type(v), vals) if type(v) is not tuple else tuple(vals)
        if isinstance(v, (SBound,)):
            return SBound(v.func, self.value(v.self_))
        if isinstance(v, Sym):
            raise Unsupported(f"instantiation of {v!r}")
        return v

    def copy(self, v):
        if isinstance(v, SObj):
            o = self.i.new_obj(v.cls)
            self.objmap[id(v)] = o
            for k, x in v.attrs.items():
                o.attrs[k] = self.value(x)
            return o
        if isinstance(v, SList):
            l = self.i.new_list([])
            self.objmap[id(v)] = l
            l.parts = [self.part(p) for p in v.parts]
            return l
        if isinstance(v, SDict):
            d = self.i.new_dict([self.part(p) if isinstance(p, Many) else [self.value(p[0]), self.value(p[1])] for p in v.entries], v.default, v.cls)
            self.objmap[id(v)] = d
            return d
        raise Unsupported(f"instantiation of {v!r}")

    def part(self, p):
        if isinstance(p, Many):
            return Many(self.subseq(p.seq), [(self.formula(g), [self.value(x) for x in vs]) for g, vs in p.cases])
        return self.value(p)

    def subseq(self, q):
        """a sequence inside of the canonical element corresponds to one inside of the other element"""
        if not (q.prefix + ".").startswith(self.seq.prefix + "."):
            return q
        r = self.seqmap.get(q.name)
        if r is None:
            raise Unsupported(f"instantiation of a part of a nested sequence: {q.name} {list(self.seqmap)}")
        return r
