"""Models of Python built-ins and library functions (trusted semantics of the interpreter and standard library)."""
import ast
import builtins
import contextlib
import contextvars
import datetime as _dt
import functools
import heapq
import itertools
import operator
import re
import types
import typing
import uuid
import warnings
import urllib.parse
import collections
import z3

from . import dtmodel as dt
from . import loops
from . import strings as st
from .engine import Prune, SRaise
from .seqs import *
from .strings import SStr, Ch, Dec, Atom, mkstr, parts_of, streq, chars_of
from .values import *

DTV = (SDT, SDate, STime, STD)
NATDT = (_dt.date, _dt.time, _dt.timedelta)
MISSING = object()


def is_str(v):
    return isinstance(v, (str, SStr))


def is_num(v):
    return isinstance(v, (int, SInt, SBool)) or isinstance(v, (float, SReal))


def raise_type(msg):
    raise SRaise(TypeError(msg))


# ================================================================ attributes of symbolic values
def sym_getattr(I, v, name):
    from .interp import SuperProxy
    if isinstance(v, SuperProxy):
        return super_getattr(I, v, name)
    if isinstance(v, DTV):
        r = dt.getattr_(I, v, name)
        if r is not None or name in ("tzinfo",):
            return r
        return pytype_attr(I, v, v.pytype, name)
    if isinstance(v, STz):
        if name in ("utcoffset", "dst", "tzname", "fromutc", "localize", "__str__", "__eq__"):
            if name == "localize":
                raise SRaise(AttributeError(name))
            return SMethod(v, name)
        raise SRaise(AttributeError(name)) if v.kind == "plain" else Unsupported(f"attribute {name} of an arbitrary tzinfo")
    if isinstance(v, (SFunc,)):
        if name == "__name__":
            return v.name
        if name in ("__module__", "__qualname__"):
            return v.name
        key = (id(v), name)
        if key in I.overlay:
            return I.overlay[key][1]
        raise SRaise(AttributeError(name))
    if isinstance(v, SBound):
        if name == "__func__":
            return v.func
        if name == "__self__":
            return v.self_
        return I.getattr(v.func, name)
    if isinstance(v, RGroup):
        return SMethod(v, name)
    if isinstance(v, SOpaque):
        f = I.opaque_attr.get((v.pytype, name)) if hasattr(I, "opaque_attr") else None
        if f is not None:
            return f(I, v)
        if name == "__class__":
            return v.pytype
        return pytype_attr(I, v, v.pytype, name)
    if isinstance(v, SStr) and v.cls is not None:
        if name == "data":
            return SStr(v.parts)
    return pytype_attr(I, v, v.cls if isinstance(v, SDict) else v.pytype, name)


def pytype_attr(I, v, t, name):
    if name == "__class__":
        return t
    if hasattr(t, name):
        return SMethod(v, name)
    raise SRaise(AttributeError(f"{t.__name__!r} object has no attribute {name!r}"))


def super_getattr(I, sp, name):
    obj = sp.obj
    if isinstance(obj, SObj):
        cls = obj.cls
    elif isinstance(obj, type):
        cls = obj
    elif isinstance(obj, Sym):
        cls = obj.pytype
    else:
        cls = type(obj)
    mro = cls.__mro__
    for c in mro[mro.index(sp.cls) + 1:]:
        if (id(c), name) in I.overlay:
            d = I.overlay[(id(c), name)][1]
        elif name in c.__dict__:
            d = c.__dict__[name]
        else:
            continue
        if isinstance(d, property):
            return I.call(d.fget, [obj], {})
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return SBound(d.__func__, cls)
        if isinstance(d, (types.FunctionType, types.WrapperDescriptorType, types.MethodDescriptorType)):
            return SBound(d, obj)
        return d
    raise SRaise(AttributeError(f"'super' object has no attribute {name!r}"))


# ================================================================ calls of library methods
def call_sym(I, f, args, kw):
    if isinstance(f, SOpaque) and getattr(I, "opaque_call", None):
        return I.opaque_call(I, f, args, kw)
    raise_type(f"{type(f).__name__} object is not callable")


def call_method(I, recv, name, args, kw):
    recv = I.resolve(recv) if isinstance(recv, SChoice) else recv
    if isinstance(recv, DTV) or isinstance(recv, NATDT):
        args = [I.resolve(a) for a in args]
        return dt.method(I, dt.lift(I, recv), name, args, kw)
    if is_str(recv):
        return str_method(I, recv, name, args, kw)
    if isinstance(recv, STuple) and (name in MUTATORS or name == "copy"):
        raise SRaise(AttributeError(name))
    if isinstance(recv, (SList, list)):
        return list_method(I, recv, name, args, kw)
    if isinstance(recv, (SDict, dict)):
        return dict_method(I, recv, name, args, kw)
    if isinstance(recv, (SSet, set, frozenset)):
        return set_method(I, recv, name, args, kw)
    if isinstance(recv, SIter):
        if name == "__next__":
            return b_next(I, [recv], {})
        if name == "__iter__":
            return recv
        if name == "close":
            return None
    if isinstance(recv, tuple):
        return tuple_method(I, recv, name, args, kw)
    if isinstance(recv, STz):
        if name in ("utcoffset", "dst", "tzname"):
            d = I.resolve(args[0])
            if d is None:
                raise Unsupported("utcoffset(None) of an arbitrary tzinfo")
            d = dt.lift(I, d)
            if name == "utcoffset":
                return STD(dt.offset(I, recv, d.wall, d.fold))
            raise Unsupported(f"tzinfo.{name}")
        if name == "__str__":
            return b_str(I, [recv], {})
    if isinstance(recv, RGroup):
        return match_method(I, recv, name, args, kw)
    if isinstance(recv, (SInt, SBool, SReal, int, float)):
        if name == "__str__" or name == "__repr__":
            return b_str(I, [recv], {})
        if name == "__eq__":
            return eq(I, recv, args[0])
        if name == "is_integer" and isinstance(recv, SReal):
            return dt.mkbool(recv.n % recv.d == 0)
    if isinstance(recv, SOpaque):
        f = getattr(I, "opaque_method", {}).get((recv.pytype, name))
        if f is not None:
            return f(I, recv, args, kw)
        if recv.pytype is urllib.parse.ParseResult and name == "geturl":
            return m_geturl(I, [recv] + args, kw)
        if recv.pytype.__name__ == "rruleset" and name == "before":
            return m_before(I, [recv] + args, kw)
        if name in ("__str__", "__repr__"):
            return b_str(I, [recv], {})
    raise Unsupported(f"method {getattr(recv, 'pytype', type(recv)).__name__}.{name}")


def call_builtin(I, f, args, kw):
    """C functions and descriptors; NotImplemented if they should be called natively"""
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        if not args:
            raise_type(f"unbound method {f.__name__} needs an argument")
        recv = I.resolve(args[0])
        if f.__name__ == "__setattr__":
            I.generic_setattr(recv, args[1], args[2])
            return None
        if f.__name__ == "__init__" and f.__objclass__ in (object, BaseException, Exception):
            return None
        if f.__name__ == "__getattribute__":
            return I.getattr(recv, args[1])
        if f.__name__ == "__delattr__":
            I.raw_delattr(recv, args[1])
            return None
        if f.__name__ == "__get__" and f.__objclass__ in (types.WrapperDescriptorType, types.MethodDescriptorType):
            return SBound(recv, I.resolve(args[1]))
        if f.__name__ in ("__eq__", "__ne__") and f.__objclass__ is object:
            return NotImplemented_if(I, recv, args[1])
        if f.__name__ == "__hash__" and f.__objclass__ is object:
            return id(recv)
        if f.__name__ in ("__repr__", "__str__") and f.__objclass__ is object:
            return dt.opaque_str(I, "repr")
        if isinstance(recv, SObj):
            if issubclass(recv.cls, f.__objclass__):
                if f.__name__ == "__init_subclass__":
                    return None
                raise Unsupported(f"inherited built-in method {f.__qualname__} on {recv.cls.__name__}")
            raise_type(f"descriptor {f.__name__!r} requires a {f.__objclass__.__name__!r} object")
        if isinstance(recv, Sym) or not I.all_conc([I.concretize_arg(a) for a in args], {k: I.concretize_arg(x) for k, x in kw.items()}) or isinstance(recv, (list, dict, set)):
            t = recv.pytype if isinstance(recv, Sym) else type(recv)
            if not isinstance(recv, STz) and not issubclass(t, f.__objclass__):
                raise_type(f"descriptor {f.__name__!r} requires a {f.__objclass__.__name__!r} object but received a {t.__name__!r}")
            return call_method(I, recv, f.__name__, args[1:], kw)
        return NotImplemented
    if isinstance(f, types.MethodWrapperType):
        # bound slot wrapper, e.g. object.__setattr__.__get__ or "x".__eq__
        s = f.__self__
        if f.__name__ == "__get__" and isinstance(s, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return SBound(s, I.resolve(args[0]))
        if f.__name__ == "__setattr__":
            I.generic_setattr(s, args[0], args[1])
            return None
        if not I.all_conc([I.concretize_arg(a) for a in args], kw):
            return call_method(I, s, f.__name__, args, kw)
        return NotImplemented
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType) and not isinstance(s, type):
        if isinstance(s, contextvars.ContextVar):
            return ctxvar_method(I, s, f.__name__, args, kw)
        ca = [I.concretize_arg(a) for a in args]
        ck = {k: I.concretize_arg(a) for k, a in kw.items()}
        if isinstance(s, (list, dict, set)) or not I.all_conc(ca, ck):
            if isinstance(s, (list, dict, set)) and f.__name__ in MUTATORS:
                raise Unsupported(f"mutation of a global {type(s).__name__}")
            if isinstance(s, dict):
                return dict_method(I, s, f.__name__, args, kw)
            if isinstance(s, (set, list)) and I.all_conc(ca, ck):
                return NotImplemented
            return call_method(I, s, f.__name__, args, kw)
        return NotImplemented
    if isinstance(s, type):
        # class methods of C types: datetime.combine, dict.fromkeys, ...
        ca = [I.concretize_arg(a) for a in args]
        if I.all_conc(ca, kw) and f.__name__ not in ("now", "utcnow", "today"):
            return NotImplemented
        if issubclass(s, _dt.datetime):
            if f.__name__ == "combine":
                a = [I.resolve(x) for x in args]
                tz = a[2] if len(a) > 2 else (I.resolve(kw["tzinfo"]) if "tzinfo" in kw else ...)
                return dt.combine(I, a[0], a[1], tz)
            if f.__name__ == "strptime":
                return dt.strptime(I, I.resolve(args[0]), I.concretize_arg(args[1]))
            if f.__name__ in ("now", "utcnow", "today"):
                tz = I.resolve(args[0]) if args else I.resolve(kw.get("tz"))
                w = I.e.fresh_int("now", 0)
                I.e.add(w < MAXWALL)
                return SDT(w, tz, 0)
        if issubclass(s, _dt.date) and f.__name__ == "today":
            d = I.e.fresh_int("today", 0, MAXDAY)
            return SDate(d)
    return NotImplemented


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem"}


def NotImplemented_if(I, a, b):
    r = I.is_(a, b)
    return True if r is True else NotImplemented


def ctxvar_method(I, var, name, args, kw):
    key = ("ctxvar", id(var))
    if name == "get":
        if key in I.overlay:
            return I.overlay[key][1]
        try:
            return var.get()
        except LookupError as e:
            if args:
                return args[0]
            raise SRaise(e)
    old = I.overlay.get(key)
    def put(v):
        cur = I.overlay.get(key)
        I.e.log(lambda: I.overlay.__setitem__(key, cur) if cur is not None else I.overlay.pop(key, None))
        if v is None:
            I.overlay.pop(key, None)
        else:
            I.overlay[key] = v
    if name == "set":
        tok = I.new_obj(contextvars.Token, {"var": var, "old": old, "used": False})
        put((var, args[0]))
        return tok
    if name == "reset":
        tok = args[0]
        if tok.attrs["used"]:
            raise SRaise(RuntimeError("Token has already been used once"))
        if tok.attrs["var"] is not var:
            raise SRaise(ValueError("Token was created by a different ContextVar"))
        I.raw_setattr(tok, "used", True)
        put(tok.attrs["old"])
        return None
    raise Unsupported(f"ContextVar.{name}")


# ================================================================ construction of built-in types
def construct(I, cls, args, kw):
    args = [I.resolve(a) if isinstance(a, SChoice) else a for a in args]
    if cls is type and len(args) == 1:
        return I.type_of(args[0])
    if cls is bool:
        return as_pybool(I, args[0]) if args else False
    if cls is str:
        return b_str(I, args, kw)
    if cls is int:
        return b_int(I, args, kw)
    if cls is float:
        return b_float(I, args, kw)
    if cls is list:
        return I.new_list(list(get_iter_consume(I, args[0])) if args else [])
    if cls is tuple:
        return I.new_tuple(list(get_iter_consume(I, args[0]))) if args else ()
    if cls is dict or cls is collections.OrderedDict:
        d = I.new_dict(cls=cls)
        if args:
            dict_update(I, d, args[0])
        for k, v in kw.items():
            setitem(I, d, k, v)
        return d
    if cls is collections.defaultdict:
        d = I.new_dict(default=args[0] if args else None, cls=cls)
        if len(args) > 1:
            dict_update(I, d, args[1])
        return d
    if cls in (set, frozenset):
        I.e.stamp += 1
        s = SSet([], I.e.stamp)
        if args:
            for x in I.to_elems(args[0]):
                set_method(I, s, "add", [x], {})
        return s
    if cls is map:
        return b_map(I, args, kw)
    if cls is filter:
        return b_filter(I, args, kw)
    if cls is zip:
        return b_zip(I, args, kw)
    if cls is enumerate:
        return b_enumerate(I, args, kw)
    if cls is reversed:
        return b_reversed(I, args, kw)
    if cls is itertools.groupby:
        key = kw.get("key", args[1] if len(args) > 1 else None)
        groups, ks = [], []
        for x in I.to_elems(args[0]):
            k = x if key is None else I.call(key, [x], {})
            if ks and I.truth(I.eq(ks[-1], k)):
                groups[-1].append(x)
            else:
                ks.append(k)
                groups.append([x])
        return I.new_iter([(k, I.new_iter(g)) for k, g in zip(ks, groups)])
    if cls is itertools.zip_longest:
        return b_zip_longest(I, args, kw)
    if cls is itertools.chain:
        out = []
        for a in args:
            out.extend(get_iter_consume(I, a))
        return I.new_iter(out)
    if cls is range:
        if I.all_conc(args, kw):
            return NotImplemented
        raise Unsupported("range over a symbolic bound")
    if cls is slice:
        return NotImplemented
    if cls is property or cls is staticmethod or cls is classmethod:
        return NotImplemented
    if cls is object:
        return I.new_obj(object)
    if cls is super:
        from .interp import SuperProxy
        return SuperProxy(args[0], args[1])
    if cls is types.SimpleNamespace:
        o = I.new_obj(types.SimpleNamespace)
        for k, v in kw.items():
            o.attrs[k] = v
        return o
    if cls is _dt.timedelta:
        if I.all_conc(args, kw):
            return NotImplemented
        return dt.new_timedelta(I, args, kw)
    if cls is _dt.datetime:
        if I.all_conc(args, kw):
            return NotImplemented
        return dt.new_datetime(I, args, kw)
    import dateutil.tz
    if cls is dateutil.tz.tzlocal:
        return dt.cur_local(I)
    if cls.__name__ == "QuotedParamValue" and I.is_repo(cls):
        v = args[0]
        s = b_str(I, [v], {})
        return SStr(list(parts_of(s)), cls)
    return NotImplemented


def as_pybool(I, v):
    v = I.resolve(v)
    if isinstance(v, (SBool, bool)):
        return v
    if isinstance(v, SInt):
        return dt.mkbool(v.e != 0)
    if isinstance(v, STD):
        return dt.mkbool(v.us != 0)
    return I.truth(v)


def b_str(I, args, kw):
    if not args:
        return ""
    v = I.resolve(args[0])
    if isinstance(v, str):
        return v if type(v) is str else NotImplemented
    if isinstance(v, SStr):
        return mkstr(v.parts)
    if isinstance(v, SBool):
        return "True" if I.truth(v) else "False"
    if isinstance(v, SInt):
        return int_str(I, v.e)
    if isinstance(v, SObj):
        for n in ("__str__", "__repr__"):
            f = I.class_lookup(v.cls, n)
            if isinstance(f, types.FunctionType):
                return I.call(f, [v], {})
        return dt.opaque_str(I, "repr")
    if isinstance(v, SOpaque):
        f = getattr(I, "opaque_method", {}).get((v.pytype, "__str__"))
        if f is not None:
            return f(I, v, [], {})
        return SStr([Atom(z3.Function("str-of-" + v.pytype.__name__, z3.IntSort(), z3.IntSort())(v.e))])
    if isinstance(v, STz):
        return SStr([Atom(z3.Function("str-of-tz", z3.IntSort(), z3.IntSort())(v.ident))])
    if isinstance(v, Sym):
        return dt.opaque_str(I, "str")
    from .interp import is_conc
    if not is_conc(v):
        return dt.opaque_str(I, "str")
    m = type(v)
    f = getattr(m, "__str__", None)
    if isinstance(f, types.FunctionType) and I.can_interpret(f):
        return I.call(f, [v], {})
    try:
        return str(v)
    except Exception as e:
        raise SRaise(e)


def int_str(I, e, width=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return str(e.as_long())
    if I.e.decide(e >= 0):
        return SStr([Dec(e)])
    return SStr(["-", Dec(-e)])


def b_int(I, args, kw):
    if not args:
        return 0
    v = I.resolve(args[0])
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.e, 1, 0))
    if isinstance(v, SReal):
        return dt.sint(z3.If(v.n >= 0, dt.fdiv(v.n, v.d), -dt.fdiv(-v.n, v.d)))
    if isinstance(v, SStr):
        if len(args) > 1:
            raise Unsupported("int() with a base")
        return parse_int(I, v)
    if isinstance(v, SObj):
        f = I.class_lookup(v.cls, "__int__")
        if f is not MISSING and isinstance(f, types.FunctionType):
            return I.call(f, [v], {})
        raise_type("int() argument must be a string, a bytes-like object or a real number")
    if isinstance(v, Sym):
        raise_type("int() argument must be a string, a bytes-like object or a real number")
    return NotImplemented_native(I, int, args, kw)


def NotImplemented_native(I, f, args, kw):
    return I.call_native(f, args, kw)


def parse_int(I, s):
    s = st.resolved(I, s)
    if isinstance(s, str):
        return I.call_native(int, [s], {})
    if len(s.parts) == 1 and isinstance(s.parts[0], Dec):
        return SInt(s.parts[0].e)
    if len(s.parts) == 2 and s.parts[0] in ("-", "+") and isinstance(s.parts[1], Dec):
        return SInt(-s.parts[1].e if s.parts[0] == "-" else s.parts[1].e)
    if all(isinstance(p, (str, Ch, Dec)) for p in s.parts):
        cs = chars_of(I, s)
        val, ok = dt.number_of(I, cs)
        if ok is True or (ok is not False and I.e.decide(ok)):
            return dt.sint(val)
    raise Unsupported(f"int() of {s!r}")


def b_float(I, args, kw):
    v = I.resolve(args[0]) if args else 0.0
    if isinstance(v, SReal):
        return v
    if isinstance(v, SInt):
        return SReal(v.e, 1)
    if isinstance(v, Sym):
        raise Unsupported("float() of a symbolic value")
    return I.call_native(float, args, kw)


# ================================================================ built-in functions
def b_isinstance(I, args, kw):
    c = I.resolve(args[1])
    return I.isinstance(args[0], c)


def b_issubclass(I, args, kw):
    try:
        return issubclass(args[0], args[1])
    except TypeError as e:
        raise SRaise(e)


def b_getattr(I, args, kw):
    name = I.concretize_arg(args[1])
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    if len(args) > 2:
        return I.getattr(args[0], name, args[2])
    return I.getattr(args[0], name)


def b_hasattr(I, args, kw):
    name = I.concretize_arg(args[1])
    sentinel = object()
    return I.getattr(args[0], name, sentinel) is not sentinel


def b_setattr(I, args, kw):
    name = I.concretize_arg(args[1])
    if not isinstance(name, str):
        raise Unsupported("setattr with a symbolic name")
    I.setattr(args[0], name, args[2])


def b_delattr(I, args, kw):
    I.delattr(args[0], I.concretize_arg(args[1]))


def b_len(I, args, kw):
    v = I.resolve(args[0])
    if is_str(v):
        n = st.length(I, v)
        return n
    if isinstance(v, SList):
        return seq_len(I, v.parts)
    if isinstance(v, (tuple, list, dict, set, frozenset, bytes, range)):
        return len(v)
    if isinstance(v, SDict):
        return seq_len(I, dict_parts_now(I, v))
    if isinstance(v, SSet):
        return len(v.items)
    if isinstance(v, SObj):
        f = I.class_lookup(v.cls, "__len__")
        if f is not MISSING and not isinstance(f, object().__class__):
            return I.call(f, [v], {})
        return I.call(f, [v], {})
    if isinstance(v, Sym):
        raise_type(f"object of type {v.pytype.__name__!r} has no len()")
    return I.call_native(len, args, kw)


def seq_len(I, parts):
    n = 0
    sym = None
    for p in I.resolve_parts(parts):
        if isinstance(p, Many):
            if all(len(vs) == 1 for _, vs in p.cases):
                I.e.add(p.seq.len >= 0)
                sym = p.seq.len if sym is None else sym + p.seq.len
            else:
                raise Unsupported("length of a filtered sequence")
        else:
            n += 1
    return n if sym is None else SInt(sym + n)


def b_callable(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, (SFunc, SBound, SMethod)):
        return True
    if isinstance(v, SObj):
        from .interp import _MISSING
        return I.class_lookup(v.cls, "__call__") is not _MISSING
    if isinstance(v, STz):
        return False
    if isinstance(v, SOpaque):
        return callable(v.pytype) if False else getattr(v.pytype, "__call__", None) is not None and v.pytype not in (object,)
    if isinstance(v, Sym):
        return False
    return callable(v)


def b_iter(I, args, kw):
    if len(args) > 1:
        raise Unsupported("iter with sentinel")
    return get_iter(I, I.resolve(args[0]))


def b_next(I, args, kw):
    it = I.resolve(args[0])
    if isinstance(it, SObj):
        return I.call(I.getattr(it, "__next__"), [], {})
    if not isinstance(it, SIter):
        if isinstance(it, Sym):
            raise_type("object is not an iterator")
        return I.call_native(next, args, kw)
    r = loops.iter_next(I, it)
    if r is loops.END:
        if len(args) > 1:
            return args[1]
        raise SRaise(StopIteration())
    return r


def get_iter(I, v):
    if isinstance(v, SIter):
        return v
    if isinstance(v, SList):
        return I.new_iter(v.parts, "list", v.view or v)
    if isinstance(v, (tuple, list, set, frozenset, range, dict)) or type(v) in (type({}.items()), type({}.keys()), type({}.values())):
        return I.new_iter(list(v))
    if isinstance(v, SDict):
        return I.new_iter(dict_parts(I, v, "keys"), "dict", v)
    if isinstance(v, SSet):
        return I.new_iter(list(v.items), "set", v)
    if is_str(v):
        return I.new_iter(str_iter_parts(I, v))
    if isinstance(v, SObj):
        f = I.class_lookup(v.cls, "__iter__")
        from .interp import _MISSING
        if f is not _MISSING:
            return get_iter(I, I.resolve(I.call(f, [v], {})))
        f = I.class_lookup(v.cls, "__getitem__")
        if f is not _MISSING:
            raise Unsupported("iteration by __getitem__")
        raise_type(f"{v.cls.__name__!r} object is not iterable")
    if isinstance(v, Sym):
        raise_type(f"{v.pytype.__name__!r} object is not iterable")
    f = getattr(type(v), "__iter__", None)
    if isinstance(f, types.FunctionType) and I.can_interpret(f):
        return get_iter(I, I.call(f, [v], {}))
    try:
        return I.new_iter(list(v))
    except TypeError as e:
        raise SRaise(e)


def str_iter_parts(I, v):
    out = []
    for p in parts_of(st.resolved(I, v)):
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, Ch):
            out.append(SStr([p]))
        elif isinstance(p, Dec):
            out.extend(SStr([c]) for c in st.expand_dec(I, p))
        elif isinstance(p, Many):
            cases = []
            for g, vs in p.cases:
                cs = []
                for x in vs:
                    cs.extend(str_iter_parts(I, x))
                cases.append((g, cs))
            out.append(Many(p.seq, cases))
        else:
            raise Unsupported("iteration over the characters of an opaque text")
    return out


def get_iter_consume(I, v):
    """all remaining entries of an iterable (raising if it ends with an exception)"""
    it = get_iter(I, I.resolve(v))
    parts = I.resolve_parts(it.parts)
    I.set_parts(it, [])
    for i, p in enumerate(parts):
        if isinstance(p, Raise):
            raise SRaise(p.exc)
    return parts


def b_map(I, args, kw):
    f = args[0]
    if len(args) > 2:
        return I.new_iter([I.call(f, list(xs), {}) for xs in zip(*[I.to_elems(a) for a in args[1:]])])
    return loops.stream_map(I, get_iter(I, I.resolve(args[1])), lambda x: [I.call(f, [x], {})])


def b_filter(I, args, kw):
    f = args[0]
    test = (lambda x: I.truth(x)) if f is None or f is bool else (lambda x: I.truth(I.call(f, [x], {})))
    return loops.stream_map(I, get_iter(I, I.resolve(args[1])), lambda x: [x] if test(x) else [])


def b_zip(I, args, kw):
    iters = [I.resolve_parts(get_iter(I, I.resolve(a)).parts) for a in args]
    out = []
    if len({tuple(p.seq.name if isinstance(p, Many) else "" for p in parts) for parts in iters}) > 1:
        iters = [[p for p in parts if not (isinstance(p, Many) and I.e.entails(p.seq.len == 0))] for parts in iters]
    while True:
        heads = [p[0] if p else loops.END for p in iters]
        if any(h is loops.END for h in heads):
            break
        if any(isinstance(h, Raise) for h in heads):
            out.append(next(h for h in heads if isinstance(h, Raise)))
            break
        if any(isinstance(h, Many) for h in heads):
            if all(isinstance(h, Many) for h in heads) and len({h.seq.name for h in heads}) == 1 and all(len(vs) == 1 for h in heads for _, vs in h.cases):
                cases = [(True, [])]
                for h in heads:
                    cases = [(loops.gand(g0, g), vs0 + vs) for g0, vs0 in cases for g, vs in h.cases]
                out.append(Many(heads[0].seq, [(g, [tuple(vs)]) for g, vs in cases]))
            else:
                raise Unsupported(f"zip of unrelated unbounded sequences {[(h.seq.name, [len(vs) for _, vs in h.cases]) if isinstance(h, Many) else h for h in heads]}")
        else:
            out.append(tuple(heads))
        iters = [p[1:] for p in iters]
    return I.new_iter(out)


def b_zip_longest(I, args, kw):
    fill = kw.get("fillvalue")
    iters = [list(I.resolve_parts(get_iter(I, I.resolve(a)).parts)) for a in args]
    out = []
    while any(iters):
        heads = [p.pop(0) if p else loops.END for p in iters]
        if any(isinstance(h, Many) for h in heads):
            many = [h for h in heads if isinstance(h, Many)]
            if len({h.seq.name for h in many}) == 1 and all(isinstance(h, Many) or h is loops.END for h in heads) and all(len(vs) == 1 for h in many for _, vs in h.cases):
                cases = [(True, [])]
                for h in heads:
                    hc = h.cases if isinstance(h, Many) else [(True, [fill])]
                    cases = [(loops.gand(g0, g), vs0 + vs) for g0, vs0 in cases for g, vs in hc]
                out.append(Many(many[0].seq, [(g, [tuple(vs)]) for g, vs in cases]))
                continue
            raise Unsupported("zip_longest of unrelated unbounded sequences")
        out.append(tuple(fill if h is loops.END else h for h in heads))
    return I.new_iter(out)


def b_enumerate(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    it = get_iter(I, I.resolve(args[0]))
    parts = I.resolve_parts(it.parts)
    out = []
    idx = z(start)
    for p in parts:
        if isinstance(p, Many):
            if not all(len(vs) == 1 for _, vs in p.cases):
                raise Unsupported("enumerate of a filtered sequence")
            base = idx
            i = loops.elem_index(I, p.seq)
            out.append(Many(p.seq, [(g, [(SInt(z3.simplify(base + i)), vs[0])]) for g, vs in p.cases]))
            I.e.add(p.seq.len >= 0)
            idx = idx + p.seq.len
        elif isinstance(p, Raise):
            out.append(p)
        else:
            out.append((dt.sint(idx), p))
            idx = idx + 1
    return I.new_iter(out)


def b_reversed(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, SObj):
        f = I.class_lookup(v.cls, "__reversed__")
        from .interp import _MISSING
        if f is not _MISSING:
            return I.call(f, [v], {})
    parts = I.resolve_parts(get_iter(I, v).parts)
    if any(isinstance(p, Many) for p in parts):
        raise Unsupported("reversal of an unbounded sequence")
    return I.new_iter(list(reversed(parts)))


def b_sorted(I, args, kw):
    parts = get_iter_consume(I, args[0])
    return I.new_list(sort_parts(I, parts, kw.get("key"), kw.get("reverse", False)))


def sort_parts(I, parts, key, reverse):
    if any(isinstance(p, Many) for p in parts):
        if len(parts) == 1:
            return [loops.sorted_many(I, parts[0], key, I.truth(reverse))]
        raise Unsupported("sorting of a partially known sequence")
    # stable insertion sort with symbolic comparisons
    rev = I.truth(reverse)
    keyed = [(I.call(key, [p], {}) if key is not None else p, p) for p in parts]
    out = []
    for k, p in keyed:
        i = len(out)
        while i > 0:
            a = out[i - 1][0]
            less = I.truth(I.lt("Lt", k, a)) if not rev else I.truth(I.lt("Lt", a, k))
            if not less:
                break
            i -= 1
        out.insert(i, (k, p))
    return [p for _, p in out]


def b_any(I, args, kw):
    return any_all(I, args[0], True)


def b_all(I, args, kw):
    return any_all(I, args[0], False)


def any_all(I, v, want):
    for p in I.resolve_parts(get_iter(I, I.resolve(v)).parts):
        if isinstance(p, Raise):
            raise SRaise(p.exc)
        if isinstance(p, Many):
            gs = []
            for g, vs in p.cases:
                for x in vs:
                    b = I.as_bool(as_pybool(I, x))
                    f = b if want else (not b if isinstance(b, bool) else z3.Not(b))
                    gs.append(loops.gand(g, f))
            if I.e.decide(loops.exists_elem(I, p.seq, gs)):
                return want
            continue
        if I.truth(p) == want:
            return want
    return not want


def minmax(op):
    def h(I, args, kw):
        key = kw.get("key")
        xs = args if len(args) > 1 else I.to_elems(args[0])
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise SRaise(ValueError("arg is an empty sequence"))
        best = xs[0]
        for x in xs[1:]:
            a, b = (x, best) if key is None else (I.call(key, [x], {}), I.call(key, [best], {}))
            if I.truth(I.lt(op, a, b)):
                best = x
        return best
    return h


def b_abs(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, SInt):
        return SInt(z3.If(v.e >= 0, v.e, -v.e))
    if isinstance(v, STD):
        return dt.mk_td(I, z3.If(v.us >= 0, v.us, -v.us))
    if isinstance(v, SReal):
        return SReal(z3.If(v.n >= 0, v.n, -v.n), v.d)
    return I.call_native(abs, [v], kw)


def b_divmod(I, args, kw):
    a, b = I.resolve(args[0]), I.resolve(args[1])
    return (binop(I, ast.FloorDiv(), a, b), binop(I, ast.Mod(), a, b))


def b_sum(I, args, kw):
    acc = args[1] if len(args) > 1 else 0
    for x in I.to_elems(args[0]):
        acc = binop(I, ast.Add(), I.resolve(acc), I.resolve(x))
    return acc


def b_repr(I, args, kw):
    v = I.concretize_arg(I.resolve(args[0]))
    from .interp import is_conc
    if is_conc(v):
        try:
            return repr(v)
        except Exception as e:
            raise SRaise(e)
    return dt.opaque_str(I, "repr")


def b_id(I, args, kw):
    return id(I.resolve(args[0]))


def b_ord(I, args, kw):
    v = I.resolve(args[0])
    c = st.is_single(v)
    if isinstance(c, Ch):
        return SInt(c.e)
    return I.call_native(ord, [v], kw)


def b_chr(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, SInt):
        return SStr([Ch(v.e)])
    return I.call_native(chr, [v], kw)


def b_hash(I, args, kw):
    v = I.resolve(args[0])
    from .interp import is_conc
    if is_conc(v):
        return I.call_native(hash, [v], kw)
    if isinstance(v, SOpaque) and v.pytype is _dt.timezone:
        return SInt(z3.Function("Fixed.hash", z3.IntSort(), z3.IntSort())(fixed_offset(v)))
    raise Unsupported("hash of a symbolic value")


# ---------------------------------------------------------------- fixed offsets (datetime.timezone)
def fixed_offset(v):
    """us"""
    return td_us(v.utcoffset(None)) if isinstance(v, _dt.timezone) else z3.Function("Fixed.offset", z3.IntSort(), z3.IntSort())(v.e)


def fixed_name(v):
    return z3.Function("Fixed.name", z3.IntSort(), z3.IntSort())(v.e)


def fixed_facts(v):
    return z3.And(fixed_offset(v) > -dt.DAY, fixed_offset(v) < dt.DAY)


def fixed_eq(I, s, o):
    """datetime.timezone.__eq__: the same offset"""
    if isinstance(o, SOpaque) and o.pytype is _dt.timezone or isinstance(o, _dt.timezone):
        return dt.mkbool(fixed_offset(s) == fixed_offset(o))
    return False


def fixed_method(name):
    def method(I, v, args, kw):
        if len(args) != 1 or kw:
            raise_type(f"timezone.{name}() takes exactly one argument ({len(args)} given)")
        d = I.resolve(args[0])
        if not (d is None or isinstance(d, (SDT, _dt.datetime))):
            raise_type(f"{name}(dt) argument must be a datetime instance or None")
        return {"utcoffset": lambda: STD(fixed_offset(v)), "dst": lambda: None, "tzname": lambda: SStr([Atom(fixed_name(v))])}[name]()
    return method


def m_fixed(I, args, kw):
    """datetime.timezone(offset, name=...)"""
    args = [I.resolve(a) for a in args] + ([I.resolve(kw["offset"])] if "offset" in kw else [])
    if not args or len(args) > 2 or not isinstance(args[0], (STD, _dt.timedelta)):
        raise_type("timezone() argument 1 must be datetime.timedelta")
    off = args[0]
    name = args[1] if len(args) > 1 else I.resolve(kw["name"]) if "name" in kw else None
    if isinstance(off, _dt.timedelta) and (name is None or isinstance(name, str)):
        try:
            return _dt.timezone(off) if name is None else _dt.timezone(off, name)
        except ValueError as e:
            raise SRaise(e)
    us = dt.us(off) if hasattr(dt, "us") else (td_us(off) if isinstance(off, _dt.timedelta) else off.us)
    if not I.truth(dt.mkbool(z3.And(us > -dt.DAY, us < dt.DAY))):
        raise SRaise(ValueError("offset must be a timedelta strictly between -24h and 24h"))
    v = SOpaque(I.e.fresh_int("timezone"), _dt.timezone, True)
    I.e.add(fixed_offset(v) == us)
    if name is None:
        # "UTC" or "UTC" with the offset; determined by the offset
        n = z3.Function("Fixed.default-name", z3.IntSort(), z3.IntSort())(us)
        I.e.add(fixed_name(v) == n)
        I.e.add(z3.If(us == 0, n == st.lit_id("UTC"), z3.And(case_fn(I, n, "upper") == n, *[n != st.lit_id(x) for x in ("UTC", "ETC/UTC", "")])))
    elif isinstance(name, SStr) and len(name.parts) == 1 and isinstance(name.parts[0], Atom):
        I.e.add(fixed_name(v) == name.parts[0].e)
    elif isinstance(name, str):
        I.e.add(fixed_name(v) == st.lit_id(name))
    elif not isinstance(name, SStr):
        raise_type("timezone() argument 2 must be str")
    return v


def operator_models():
    def cmp(name):
        return lambda I, a, k: I.lt(name, a[0], a[1])
    def arith(node):
        return lambda I, a, k: I.binop(node(), a[0], a[1])
    return {
        operator.lt: cmp("Lt"), operator.le: cmp("LtE"), operator.gt: cmp("Gt"), operator.ge: cmp("GtE"),
        operator.eq: lambda I, a, k: I.eq(a[0], a[1]), operator.ne: lambda I, a, k: I.ne(a[0], a[1]),
        operator.is_: lambda I, a, k: I.is_(a[0], a[1]), operator.is_not: lambda I, a, k: I.not_(I.is_(a[0], a[1])),
        operator.not_: lambda I, a, k: I.not_(a[0]), operator.truth: lambda I, a, k: as_pybool(I, a[0]),
        operator.contains: lambda I, a, k: I.contains(a[0], a[1]), operator.getitem: lambda I, a, k: I.getitem(a[0], a[1]),
        operator.add: arith(ast.Add), operator.sub: arith(ast.Sub), operator.mul: arith(ast.Mult), operator.mod: arith(ast.Mod),
        operator.floordiv: arith(ast.FloorDiv), operator.truediv: arith(ast.Div), operator.concat: arith(ast.Add),
        operator.and_: arith(ast.BitAnd), operator.or_: arith(ast.BitOr),
    }


def call_getter(I, f, args):
    """operator.attrgetter and operator.itemgetter objects"""
    names = f.__reduce__()[1]
    if isinstance(f, operator.attrgetter):
        def get(n):
            v = args[0]
            for part in n.split("."):
                v = I.getattr(v, part)
            return v
    else:
        def get(n):
            return I.getitem(args[0], n)
    return get(names[0]) if len(names) == 1 else tuple(get(n) for n in names)


def m_reduce(I, args, kw):
    it = get_iter(I, I.resolve(args[1]))
    acc = args[2] if len(args) > 2 else MISSING
    while True:
        x = loops.iter_next(I, it)
        if x is loops.END:
            break
        acc = x if acc is MISSING else I.call(args[0], [acc, x], {})
    if acc is MISSING:
        raise_type("reduce() of empty iterable with no initial value")
    return acc


def m_chain_from(I, args, kw):
    out = []
    for p in get_iter_consume(I, args[0]):
        if isinstance(p, Many):
            raise Unsupported("flattening an unbounded sequence")
        out.extend(get_iter_consume(I, p))
    return I.new_iter(out)


def b_print(I, args, kw):
    return None


def m_warn(I, args, kw):
    I.e.set_store("warnings", I.e.store.get("warnings", 0) + 1)
    return None


def m_heapify(I, args, kw):
    l = I.resolve(args[0])
    I.set_parts(l, sort_parts(I, I.resolve_parts(l.parts), None, False), "sort")
    I.e.set_store(("heap", id(l)), (l, l.ver))
    return None


def m_heappop(I, args, kw):
    """(the list is kept sorted by heapify, so the smallest item is the first one; ties are unspecified)"""
    l = I.resolve(args[0])
    if I.e.store.get(("heap", id(l)), (None, None))[1] != l.ver:
        raise Unsupported("heappop of a list that is not a heap")
    r = list_pop_first(I, l)
    I.e.set_store(("heap", id(l)), (l, l.ver))
    return r


def m_heappush(I, args, kw):
    raise Unsupported("heappush")


def m_zip_longest(I, args, kw):
    return b_zip_longest(I, args, kw)


def m_wraps(I, args, kw):
    return I.interp_identity


def m_uuid4(I, args, kw):
    return SOpaque(I.e.fresh_int("uuid"), uuid.UUID)


def m_urlparse(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, str) and len(args) == 1 and not kw:
        return urllib.parse.urlparse(v)
    if not (isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Atom) and len(args) == 1 and not kw):
        raise Unsupported("urlparse of structured text")
    e = z3.simplify(v.parts[0].e)
    if z3.is_app(e) and e.decl().name() == "Url.text":
        return SOpaque(e.arg(0), urllib.parse.ParseResult, True)
    return SOpaque(z3.Function("Url.parsed", z3.IntSort(), z3.IntSort())(e), urllib.parse.ParseResult, True)


def lru_cached_call(*args):
    raise NotImplementedError


def lru_decorate(*args):
    raise NotImplementedError


def m_lru_cache(I, args, kw):
    """functools.lru_cache: the decorated function"""
    a = args[0] if args else kw.get("maxsize", 128)
    a = I.resolve(a)
    if a is None or isinstance(a, (int, SInt)):
        return SBound(lru_decorate, None)
    return SBound(lru_cached_call, a)


def m_lru_decorate(I, args, kw):
    return SBound(lru_cached_call, args[1])


def m_lru_cached_call(I, args, kw):
    """a call gives what some call, now or earlier, with equal arguments gave: the body is verified for arbitrary equal
    arguments (the order of calls, and what is in the cache, do not matter then)"""
    I.e.contracts_used.add("functools.lru_cache: the result of a call with equal arguments (assumed)")
    def equal_to(v):
        v = I.resolve(v)
        if isinstance(v, _dt.datetime) or isinstance(v, SDT):
            v = dt.lift(I, v)
            if dt.tz_of(I, v) is not None:
                raise Unsupported("aware datetimes as keys of a cache")
            return SDT(v.wall, v.tz, I.e.fresh_int("cached.fold", 0, 1), v._day, v._tod)
        if v is None or isinstance(v, (int, SInt, SBool, str, SStr, STD, SOpaque, STz)) or isinstance(v, (type, _dt.timedelta)):
            return v
        if isinstance(v, tuple):
            return tuple(equal_to(x) for x in v)
        raise Unsupported(f"{v!r} as key of a cache")
    return I.call(args[0], [equal_to(a) for a in args[1:]], {k: equal_to(a) for k, a in kw.items()})


def m_before(I, args, kw):
    """rruleset.before"""
    rule = args[0]
    d = I.resolve(args[1] if len(args) > 1 else kw["dt"])
    inc = I.resolve(args[2] if len(args) > 2 else kw.get("inc", False))
    if not isinstance(inc, bool):
        inc = I.truth(inc)
    if not isinstance(d, (SDT, _dt.datetime)):
        raise Unsupported("rrule.before of something else")
    d = dt.lift(I, d)
    if dt.tz_of(I, d) is not None:
        raise_type("can't compare offset-naive and offset-aware datetimes")
    I.e.contracts_used.add("dateutil rruleset.before: the last time at or before a naive time (assumed)")
    n = "Rule.before" + ("" if inc else ".strictly")
    has = z3.Function(n + ".some", z3.IntSort(), z3.IntSort(), z3.BoolSort())(rule.e, z3.simplify(d.wall))
    w = z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort())(rule.e, z3.simplify(d.wall))
    I.e.add(z3.And(w >= 0, w <= d.wall if inc else w < d.wall))
    return SChoice([(has, SDT(w, None, 0)), (True, None)])


def m_geturl(I, args, kw):
    v = I.resolve(args[0])
    if not isinstance(v, SOpaque):
        return v.geturl()
    I.e.contracts_used.add("urllib.parse.urlparse(u.geturl()) == u (assumed)")
    return SStr([Atom(z3.Function("Url.text", z3.IntSort(), z3.IntSort())(v.e))])


def m_fields_dict(I, args, kw):
    import attr
    return attr.fields_dict(args[0])


def m_cast(I, args, kw):
    return args[1]


def m_import_pass(I, args, kw):
    return None


# ================================================================ operators
OPN = {ast.Add: "Add", ast.Sub: "Sub", ast.Mult: "Mult", ast.FloorDiv: "FloorDiv", ast.Mod: "Mod", ast.Div: "Div", ast.BitOr: "BitOr", ast.BitAnd: "BitAnd",
       ast.BitXor: "BitXor", ast.LShift: "LShift", ast.RShift: "RShift", ast.Pow: "Pow"}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "FloorDiv": "floordiv", "Mod": "mod", "Div": "truediv", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
          "Pow": "pow", "LShift": "lshift", "RShift": "rshift"}


def binop(I, opnode, a, b):
    op = OPN.get(type(opnode))
    if op is None:
        raise Unsupported(f"operator {type(opnode).__name__}")
    if op == "Mod" and is_str(a):
        return str_percent(I, a, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        from .interp import is_conc
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return tuple(a) + tuple(b)
        if is_conc(a) and is_conc(b):
            try:
                return I.from_native(NATOP[op](a, b))
            except Exception as e:
                raise SRaise(e)
    if isinstance(a, DTV) or isinstance(b, DTV):
        r = dt.binop(I, op, a, b)
        if r is not NotImplemented:
            return r
        raise_type(f"unsupported operand types for {op}")
    if isinstance(a, SReal) or isinstance(b, SReal):
        return real_binop(I, op, a, b)
    if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
        return int_binop(I, op, a, b)
    if is_str(a) and is_str(b) and op == "Add":
        return st.str_concat(I, [a, b])
    if op == "Mult" and is_str(a) and isinstance(b, int):
        return st.str_concat(I, [a] * b)
    if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)) and op == "Add":
        return I.new_tuple(list(get_iter(I, a).parts) + list(get_iter(I, b).parts))
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)) and op == "Add":
        if isinstance(a, STuple) or isinstance(b, STuple):
            raise_type("can only concatenate list to list")
        return I.new_list(list(get_iter(I, a).parts) + list(get_iter(I, b).parts))
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)) and op == "BitOr":
        d = dict_copy(I, a)
        dict_update(I, d, b)
        return d
    if isinstance(a, SObj):
        f = I.class_lookup(a.cls, f"__{DUNDER[op]}__")
        if isinstance(f, types.FunctionType):
            r = I.call(f, [a, b], {})
            if r is not NotImplemented:
                return r
    if isinstance(b, SObj):
        f = I.class_lookup(b.cls, f"__r{DUNDER[op]}__")
        if isinstance(f, types.FunctionType):
            r = I.call(f, [b, a], {})
            if r is not NotImplemented:
                return r
    ta = a.pytype.__name__ if isinstance(a, Sym) else type(a).__name__
    tb = b.pytype.__name__ if isinstance(b, Sym) else type(b).__name__
    if isinstance(a, (SOpaque, SSet)) or isinstance(b, (SOpaque, SSet)):
        raise Unsupported(f"{op} of {ta} and {tb}")
    raise_type(f"unsupported operand type(s) for {op}: {ta} and {tb}")


import operator as _o
NATOP = {"Add": _o.add, "Sub": _o.sub, "Mult": _o.mul, "FloorDiv": _o.floordiv, "Mod": _o.mod, "Div": _o.truediv, "BitOr": _o.or_, "BitAnd": _o.and_,
         "BitXor": _o.xor, "Pow": _o.pow, "LShift": _o.lshift, "RShift": _o.rshift}


def num(v):
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    return z(v)


def int_binop(I, op, a, b):
    if isinstance(a, SBool) and isinstance(b, (SBool, bool)) and op in ("BitAnd", "BitOr"):
        x, y = z(a), z(b)
        return dt.mkbool(z3.And(x, y) if op == "BitAnd" else z3.Or(x, y))
    if isinstance(b, SBool) and isinstance(a, bool) and op in ("BitAnd", "BitOr"):
        return int_binop(I, op, b, a)
    x, y = num(a), num(b)
    if op == "Add": return dt.sint(x + y)
    if op == "Sub": return dt.sint(x - y)
    if op == "Mult":
        xs, ys = z3.simplify(x), z3.simplify(y)
        return dt.sint(xs * ys)
    if op in ("FloorDiv", "Mod"):
        ys = z3.simplify(y)
        if z3.is_int_value(ys):
            k = ys.as_long()
            if k == 0:
                raise SRaise(ZeroDivisionError("integer division or modulo by zero"))
            return dt.sint(dt.pyfloordiv(x, k) if op == "FloorDiv" else dt.pymod(x, k))
        if I.e.decide(y == 0):
            raise SRaise(ZeroDivisionError("integer division or modulo by zero"))
        if I.e.entails(y > 0):
            return dt.sint(x / y if op == "FloorDiv" else x % y)
    if op == "Div":
        ys = z3.simplify(y)
        if z3.is_int_value(ys) and ys.as_long() > 0:
            return SReal(x, ys.as_long())
    raise Unsupported(f"integer operation {op}")


def real_parts(v):
    if isinstance(v, SReal):
        return v.n, v.d
    if isinstance(v, (int, SInt, bool, SBool)):
        return num(v), 1
    if isinstance(v, float):
        n, d = v.as_integer_ratio()
        return z3.IntVal(n), d
    raise Unsupported("real arithmetic")


def real_binop(I, op, a, b):
    n1, d1 = real_parts(a)
    n2, d2 = real_parts(b)
    if op in ("Add", "Sub"):
        if d1 == d2:
            return SReal(n1 + n2 if op == "Add" else n1 - n2, d1)
        return SReal(n1 * d2 + n2 * d1 if op == "Add" else n1 * d2 - n2 * d1, d1 * d2)
    if op == "Mult":
        return SReal(n1 * n2, d1 * d2)
    n2s = z3.simplify(n2)
    if op in ("FloorDiv", "Mod", "Div") and z3.is_int_value(n2s):
        k = n2s.as_long()
        if k == 0:
            raise SRaise(ZeroDivisionError("float floor division by zero"))
        if k > 0:
            if op == "FloorDiv":
                return SReal(dt.fdiv(n1 * d2, d1 * k), 1)
            if op == "Mod":
                # a - floor(a/b)*b
                q = dt.fdiv(n1 * d2, d1 * k)
                if d2 == 1:
                    return SReal(n1 - q * (k * d1), d1)
            if op == "Div":
                return SReal(n1 * d2, d1 * k)
    raise Unsupported(f"float operation {op}")


def unary(I, op, v):
    if isinstance(op, ast.USub):
        if isinstance(v, SInt):
            return SInt(-v.e)
        if isinstance(v, SReal):
            return SReal(-v.n, v.d)
        if isinstance(v, STD):
            return dt.mk_td(I, -v.us)
        if isinstance(v, SBool):
            return SInt(-num(v))
    if isinstance(op, ast.UAdd) and isinstance(v, (SInt, SReal, STD)):
        return v
    if isinstance(op, ast.Invert) and isinstance(v, SInt):
        return SInt(-v.e - 1)
    if isinstance(v, Sym):
        raise_type("bad operand type for unary operator")
    f = {ast.USub: _o.neg, ast.UAdd: _o.pos, ast.Invert: _o.invert}[type(op)]
    try:
        return f(v)
    except Exception as e:
        raise SRaise(e)


# ---------------------------------------------------------------- equality
def bool_and(I, xs):
    """conjunction of lazily produced truth values"""
    conds = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if isinstance(x, SBool):
            conds.append(x.e)
        elif not I.truth(x):
            return False
    if not conds:
        return True
    return dt.mkbool(z3.And(conds) if len(conds) > 1 else conds[0])


def eq(I, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if a is b and not isinstance(a, (SDT, float)):
        return True
    if isinstance(a, SObj) or isinstance(b, SObj):
        return obj_eq(I, a, b)
    if is_str(a) and is_str(b):
        return streq(I, a, b)
    if isinstance(a, DTV) or isinstance(b, DTV):
        if isinstance(a, DTV + NATDT) and isinstance(b, DTV + NATDT):
            return dt.compare(I, "Eq", a, b)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return bool_and(I, (eq(I, x, y) for x, y in zip(a, b)))
    if isinstance(a, (SList, list, tuple)) and isinstance(b, (SList, list, tuple)):
        if isinstance(a, (STuple, tuple)) != isinstance(b, (STuple, tuple)):
            return False
        return list_eq(I, a, b)
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        return dict_eq(I, a, b)
    if isinstance(a, (SSet, set, frozenset)) and isinstance(b, (SSet, set, frozenset)):
        xa = a.items if isinstance(a, SSet) else list(a)
        xb = b.items if isinstance(b, SSet) else list(b)
        return all(I.truth(contains(I, b, x)) for x in xa) and all(I.truth(contains(I, a, x)) for x in xb)
    if isinstance(a, STz) or isinstance(b, STz):
        return tz_eq(I, a, b)
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        f = getattr(I, "opaque_eq", {}).get(a.pytype)
        if f is not None:
            return f(I, a, b)
        if a.e.sort() != b.e.sort() or a.pytype is not b.pytype:
            return False
        if a.pytype.__name__ == "rruleset":
            return dt.mkbool(z3.Or(a.e == b.e, z3.Function("Rule.equal", z3.IntSort(), z3.IntSort(), z3.BoolSort())(a.e, b.e)))
        return dt.mkbool(a.e == b.e)
    if isinstance(a, SReal) or isinstance(b, SReal):
        if is_num(a) and is_num(b):
            n1, d1 = real_parts(a); n2, d2 = real_parts(b)
            return dt.mkbool(n1 * d2 == n2 * d1)
        return False
    if is_num(a) and is_num(b):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and (isinstance(a, Sym) or isinstance(b, Sym)):
            return dt.mkbool(z(a) == z(b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, float) or isinstance(b, float):
                n1, d1 = real_parts(a); n2, d2 = real_parts(b)
                return dt.mkbool(n1 * d2 == n2 * d1)
            return dt.mkbool(num(a) == num(b))
        return a == b
    if isinstance(a, (SBound, SMethod)) and isinstance(b, (SBound, SMethod)):
        return type(a) is type(b) and getattr(a, "func", None) is getattr(b, "func", None) and a.self_ is b.self_ and getattr(a, "name", None) == getattr(b, "name", None)
    if isinstance(a, Sym) or isinstance(b, Sym):
        s, o = (a, b) if isinstance(a, Sym) else (b, a)
        if isinstance(o, Sym):
            return False
        if isinstance(s, SOpaque):
            f = getattr(I, "opaque_eq", {}).get(s.pytype)
            if f is not None:
                return f(I, s, o)
        if isinstance(s, SOpaque) and o is not None and isinstance(o, s.pytype if s.pytype is not object else tuple()):
            if s.pytype.__name__ == "rruleset":
                return SBool(z3.Function(f"Rule.equals.{id(o)}", z3.IntSort(), z3.BoolSort())(s.e))     # whatever it says
            raise Unsupported(f"equality of {s!r} and {o!r}")
        f = getattr(type(o), "__eq__", None)
        if isinstance(f, types.FunctionType) and I.is_repo(f):
            r = I.call(f, [o, s], {})
            return False if r is NotImplemented else r
        return False
    f = getattr(type(a), "__eq__", None)
    if isinstance(f, types.FunctionType) and I.can_interpret(f):
        r = I.call(f, [a, b], {})
        if r is not NotImplemented:
            return r
        f = getattr(type(b), "__eq__", None)
        if isinstance(f, types.FunctionType) and I.can_interpret(f):
            r = I.call(f, [b, a], {})
            if r is not NotImplemented:
                return r
        return a is b
    try:
        return bool(a == b)
    except Exception as e:
        raise SRaise(e)


def tz_eq(I, a, b):
    """equality of tzinfo objects is identity in this model (classes may define coarser equalities)"""
    ok = (STz, _dt.tzinfo)
    if not (isinstance(a, ok) and isinstance(b, ok)):
        return False
    ia, _ = dt.zone_term(I, a)
    ib, _ = dt.zone_term(I, b)
    f = getattr(I, "tz_equality", None)
    if f is not None:
        return f(I, a, b)
    return dt.mkbool(ia == ib)


def obj_eq(I, a, b):
    if not isinstance(a, SObj):
        # type(b) may be a subclass of type(a): reflected operand first; only SObj define methods here
        f = I.class_lookup(b.cls, "__eq__")
        if isinstance(f, types.FunctionType):
            r = I.call(f, [b, a], {})
            if r is not NotImplemented:
                return r
        return a is b
    order = [(a, b)]
    if isinstance(b, SObj):
        order.append((b, a))
        if b.cls is not a.cls and issubclass(b.cls, a.cls):
            order.reverse()
    for x, y in order:
        f = I.class_lookup(x.cls, "__eq__")
        if isinstance(f, types.FunctionType):
            r = I.call(f, [x, y], {})
            if r is not NotImplemented:
                return r
    return a is b


def list_eq(I, a, b):
    pa = I.resolve_parts(get_iter(I, a).parts)
    pb = I.resolve_parts(get_iter(I, b).parts)
    return parts_eq(I, pa, pb)


def parts_eq(I, pa, pb):
    if not any(isinstance(p, Many) for p in pa + pb):
        if len(pa) != len(pb):
            return False
        return bool_and(I, (eq(I, x, y) for x, y in zip(pa, pb)))
    pa, pb = loops.drop_empty(I, pa), loops.drop_empty(I, pb)
    conds = []
    i = 0
    while i < len(pa) and i < len(pb):
        x, y = pa[i], pb[i]
        if isinstance(x, Many) and isinstance(y, Many):
            if loops.many_equal(I, x, y):
                i += 1
                continue
            break
        if isinstance(x, Many) or isinstance(y, Many):
            break
        r = eq(I, x, y)
        if r is False:
            return False
        conds.append(r)
        i += 1
    ra, rb = pa[i:], pb[i:]
    if not ra and not rb:
        return bool_and(I, conds)
    # equal only if the remaining parts are; decide emptiness of the first unmatched segment
    raise Unsupported(f"equality of unbounded sequences {pa!r} and {pb!r}")


def dict_eq(I, a, b):
    if a is b:
        return True
    ka = dict_parts_now(I, a)
    kb = dict_parts_now(I, b)
    if any(isinstance(p, Many) for p in ka + kb):
        ka, kb = loops.drop_empty(I, ka), loops.drop_empty(I, kb)
    if any(isinstance(p, Many) for p in ka + kb):
        # equal if they are equal in order, different if a key of one is not in the other
        def lacking():
            for x, y in ((ka, b), (kb, a)):
                for p in x:
                    if not isinstance(p, Many) and not I.truth(contains(I, y, p[0])):
                        return True
            return False
        conds = []
        for x, y in zip(ka, kb):
            if isinstance(x, Many) and isinstance(y, Many):
                if not loops.many_equal(I, x, y):
                    if lacking():
                        return False
                    raise Unsupported("equality of unknown mappings (1)")
            elif isinstance(x, Many) or isinstance(y, Many) or not loops._certainly_equal(I, [x[0]], [y[0]]):
                if lacking():
                    return False
                raise Unsupported("equality of unknown mappings (2)" + repr((x, y)))
            else:
                conds.append(eq(I, x[1], y[1]))
        if len(ka) != len(kb):
            if lacking():
                return False
            raise Unsupported("equality of unknown mappings (3)" + repr((ka, kb)))
        return bool_and(I, conds)
    if len(ka) != len(kb):
        return False
    def gen():
        for k, v in ka:
            for k2, v2 in kb:
                if I.truth(eq(I, k, k2)):
                    yield eq(I, v, v2)
                    break
            else:
                yield False
    return bool_and(I, gen())


# ---------------------------------------------------------------- ordering
SWAP = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
DU = {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}
STRLT = z3.Function("text.lt", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def order(I, op, a, b):
    if isinstance(a, SObj) or isinstance(b, SObj):
        tries = []
        if isinstance(a, SObj):
            tries.append((a, DU[op], b))
        if isinstance(b, SObj):
            t = (b, DU[SWAP[op]], a)
            if isinstance(a, SObj) and b.cls is not a.cls and issubclass(b.cls, a.cls):
                tries.insert(0, t)
            else:
                tries.append(t)
        for x, n, y in tries:
            f = I.class_lookup(x.cls, n)
            if isinstance(f, types.FunctionType):
                r = I.call(f, [x, y], {})
                if r is not NotImplemented:
                    return r
        raise_type(f"'{op}' not supported between instances")
    if isinstance(a, DTV + NATDT) and isinstance(b, DTV + NATDT) and (isinstance(a, Sym) or isinstance(b, Sym)):
        return dt.compare(I, op, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not I.truth(eq_ident(I, x, y)):
                return order(I, op, I.resolve(x), I.resolve(y))
        return {"Lt": len(a) < len(b), "LtE": len(a) <= len(b), "Gt": len(a) > len(b), "GtE": len(a) >= len(b)}[op]
    if is_num(a) and is_num(b) and (isinstance(a, Sym) or isinstance(b, Sym)):
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            n1, d1 = real_parts(a); n2, d2 = real_parts(b)
            return dt.rel(op, n1 * d2, n2 * d1)
        return dt.rel(op, num(a), num(b))
    if is_str(a) and is_str(b) and (isinstance(a, Sym) or isinstance(b, Sym)):
        return str_order(I, op, a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            raise Unsupported("ordering of opaque values")
        raise_type(f"'{op}' not supported between instances of {getattr(a, 'pytype', type(a)).__name__!r} and {getattr(b, 'pytype', type(b)).__name__!r}")
    for x, n, y in ((a, DU[op], b), (b, DU[SWAP[op]], a)):
        f = getattr(type(x), n, None)
        if isinstance(f, types.FunctionType) and I.can_interpret(f):
            r = I.call(f, [x, y], {})
            if r is not NotImplemented:
                return r
    try:
        return {"Lt": _o.lt, "LtE": _o.le, "Gt": _o.gt, "GtE": _o.ge}[op](a, b)
    except Exception as e:
        raise SRaise(e)


def eq_ident(I, x, y):
    x, y = I.resolve(x), I.resolve(y)
    return True if x is y else eq(I, x, y)


def str_order(I, op, a, b):
    """texts are totally ordered; only order axioms are available for opaque ones"""
    ca, cb = st.is_single(a), st.is_single(b)
    if ca is not None and cb is not None:
        return dt.rel(op, st.code(ca), st.code(cb))
    ia, ib = text_id(I, a), text_id(I, b)
    return dt.rel(op, RANK(ia), RANK(ib)) if True else None


RANK = z3.Function("text.rank", z3.IntSort(), z3.RealSort())


def text_id(I, s):
    if isinstance(s, str):
        e = st.lit_id(s)
    elif len(s.parts) == 1 and isinstance(s.parts[0], Atom):
        e = s.parts[0].e
    else:
        raise Unsupported("ordering of composed texts")
    seen = I.e.store.get("ranked", [])
    if not any(z3.eq(e, x) for x in seen):
        empty = st.lit_id("")
        I.e.add(RANK(e) >= RANK(empty))
        for x in seen + [empty]:
            I.e.add((RANK(e) == RANK(x)) == (e == x))
        I.e.set_store("ranked", seen + [e])
    return e


# ---------------------------------------------------------------- membership
def contains(I, c, item):
    if isinstance(c, SObj):
        f = I.class_lookup(c.cls, "__contains__")
        from .interp import _MISSING
        if f is not _MISSING:
            return I.call(f, [c, item], {})
        return contains(I, I.new_list(get_iter(I, c).parts), item)
    if is_str(c):
        if not is_str(item):
            raise_type("'in <string>' requires string as left operand")
        return str_contains(I, c, item)
    if isinstance(c, (SDict, dict)):
        return dict_has(I, c, item)
    if isinstance(c, range) and isinstance(item, (SInt, SBool)):
        if c.step == 1:
            x = num(item)
            return dt.mkbool(z3.And(x >= c.start, x < c.stop))
    if isinstance(c, (tuple, list, SList, SIter, set, frozenset, SSet, range)) or type(c) in (type({}.keys()), type({}.values())):
        parts = c.items if isinstance(c, SSet) else (list(c) if not isinstance(c, (SList, SIter)) else I.resolve_parts(c.parts))
        conds = []
        for p in parts:
            if isinstance(p, Many):
                gs = []
                for g, vs in p.cases:
                    for x in vs:
                        gs.append(loops.gand(g, I.as_bool(eq(I, item, x))))
                conds.append(loops.exists_elem(I, p.seq, gs))
                continue
            if isinstance(p, Raise):
                raise SRaise(p.exc)
            r = eq_ident(I, p, item)
            if r is True:
                return True
            if r is False:
                continue
            if isinstance(r, SBool):
                conds.append(r.e)
            elif I.truth(r):
                return True
        if not conds:
            return False
        return dt.mkbool(z3.Or([x if not isinstance(x, bool) else z3.BoolVal(x) for x in conds]))
    if isinstance(c, Sym):
        raise_type("argument is not a container or iterable")
    f = getattr(type(c), "__contains__", None)
    if isinstance(f, types.FunctionType) and I.can_interpret(f):
        return I.call(f, [c, item], {})
    it = I.concretize_arg(item)
    from .interp import is_conc
    if is_conc(it):
        try:
            return it in c
        except Exception as e:
            raise SRaise(e)
    raise Unsupported(f"membership in {type(c).__name__}")


def str_contains(I, c, item):
    if isinstance(c, str) and isinstance(item, str):
        return item in c
    ch = st.is_single(item)
    if isinstance(c, str) and ch is not None:
        return dt.mkbool(z3.Or([ch.e == ord(x) for x in c])) if c else False
    if ch is not None:
        conds = []
        for p in parts_of(st.resolved(I, c)):
            r = item_has_char(I, p, ch)
            if r is True:
                return True
            if r is not False:
                conds.append(r)
        return dt.mkbool(z3.Or(conds)) if conds else False
    if isinstance(item, str) and item == "":
        return True
    raise Unsupported("substring test")


def item_has_char(I, p, ch):
    return item_any_char(I, p, lambda e: e == st.code(ch))


def item_any_char(I, p, pred):
    """does some character (code e) of the rope item satisfy pred? bool or formula"""
    if isinstance(p, str):
        fs = [z3.simplify(pred(z3.IntVal(ord(c)))) for c in sorted(set(p))]
        if any(z3.is_true(f) for f in fs):
            return True
        fs = [f for f in fs if not z3.is_false(f)]
        return z3.Or(fs) if fs else False
    if isinstance(p, Ch):
        return pred(p.e)
    if isinstance(p, Dec):
        f = z3.Or([pred(z3.IntVal(48 + i)) for i in range(10)])
        f = z3.simplify(f)
        if z3.is_false(f):
            return False
        return z3.Or([pred(c.e) for c in st.expand_dec(I, p)])
    if isinstance(p, Many):
        gs = []
        for g, vs in p.cases:
            for v in vs:
                for q in parts_of(v):
                    r = item_any_char(I, q, pred)
                    if r is not False:
                        gs.append(loops.gand(g, r))
        return loops.exists_elem(I, p.seq, gs)
    if isinstance(p, Atom):
        if p.cls is not None:
            c = z3.Int("char!any")
            if I.e.check(pred(c), c >= 0, *[c != ord(x) for x in p.cls]) == z3.unsat:
                return False
        f = getattr(I, "atom_any_char", None)
        if f is not None:
            r = f(I, p, pred)
            if r is not None:
                return r
    raise Unsupported("characters of an opaque text")


def any_char(I, s, pred):
    conds = []
    for p in parts_of(st.resolved(I, s)):
        r = item_any_char(I, p, pred)
        if r is True:
            return True
        if r is not False:
            conds.append(r)
    return z3.Or(conds) if conds else False


# ================================================================ subscripts
def getitem(I, o, k):
    if isinstance(o, SObj):
        f = I.class_lookup(o.cls, "__getitem__")
        from .interp import _MISSING
        if f is _MISSING:
            raise_type("object is not subscriptable")
        return I.call(f, [o, k], {})
    if isinstance(o, (SDict, dict)):
        return dict_getitem(I, o, k)
    if is_str(o) and (isinstance(o, SStr) or isinstance(k, Sym) or isinstance(k, slice) and not all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))):
        return str_getitem(I, o, k)
    if isinstance(o, (SList, list, tuple)):
        if isinstance(k, slice):
            return list_slice(I, o, k)
        return list_getitem(I, o, k)
    if isinstance(o, RGroup):
        return match_method(I, o, "group", [k], {})
    if isinstance(o, Sym):
        raise_type(f"{o.pytype.__name__!r} object is not subscriptable")
    if isinstance(o, type) and not hasattr(type(o), "__getitem__"):
        try:
            return o[k]
        except Exception as e:
            raise SRaise(e)
    f = getattr(type(o), "__getitem__", None)
    if isinstance(f, types.FunctionType) and I.can_interpret(f):
        return I.call(f, [o, k], {})
    kk = I.concretize_arg(k)
    from .interp import is_conc
    if not is_conc(kk):
        raise Unsupported(f"symbolic subscript of {type(o).__name__}")
    try:
        return o[kk]
    except Exception as e:
        raise SRaise(e)


def list_getitem(I, o, k):
    k = I.concretize_arg(k)
    parts = I.resolve_parts(o.parts) if isinstance(o, SList) else list(o)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, SObj):
        raise_type("list indices must be integers or slices")
    if isinstance(k, int):
        if not any(isinstance(p, Many) for p in parts):
            try:
                return I.resolve(parts[k])
            except IndexError as e:
                raise SRaise(e)
        if k >= 0:
            head = parts[:k + 1]
            if len(head) == k + 1 and not any(isinstance(p, Many) for p in head):
                return I.resolve(head[k])
            if k == 0 and isinstance(o, SList):
                if not I.truth(o):
                    raise SRaise(IndexError("list index out of range"))
                I.set_parts(o, loops.split_first_parts(I, I.resolve_parts(o.parts)), "refine")
                return list_getitem(I, o, 0) if not isinstance(I.resolve_parts(o.parts)[0], Many) else unsup("first element")
        else:
            tail = parts[k:]
            if len(tail) == -k and not any(isinstance(p, Many) for p in tail):
                return I.resolve(tail[0])
        if isinstance(o, SList):
            return I.resolve(loops.index_many(I, o, k))
    if isinstance(k, SInt):
        if any(isinstance(p, Many) for p in parts):
            return I.resolve(loops.index_many(I, o, k))
        n = len(parts)
        if not I.e.decide(z3.And(k.e >= -n, k.e < n)):
            raise SRaise(IndexError("list index out of range"))
        for i in range(n):
            if i == n - 1 or I.e.decide(z3.Or(k.e == i, k.e == i - n)):
                return I.resolve(parts[i])
    if isinstance(k, (int, SInt)):
        raise Unsupported("index into an unbounded sequence")
    raise_type("list indices must be integers or slices")


def unsup(msg):
    raise Unsupported(msg)


def list_slice(I, o, k):
    parts = I.resolve_parts(o.parts) if isinstance(o, SList) else list(o)
    if any(isinstance(p, Many) for p in parts):
        if k.start in (None, 0) and k.stop is None and k.step in (None, 1):
            return I.new_tuple(parts) if isinstance(o, STuple) else I.new_list(parts)
        if isinstance(o, STuple):
            raise Unsupported("slice of a tuple of unknown length")
        if k.step in (None, 1) and k.stop is None and isinstance(k.start, int) and k.start > 0 and not any(isinstance(p, Many) for p in parts[:k.start]) and len(parts) >= k.start:
            return I.new_list(parts[k.start:])
        return loops.slice_many(I, o, k)
    if isinstance(o, STuple):
        o = tuple(parts)
    ks = [I.concretize_arg(x) for x in (k.start, k.stop, k.step)]
    if any(isinstance(x, Sym) for x in ks):
        return loops.slice_many(I, o, k)
    try:
        res = parts[slice(*ks)]
    except Exception as e:
        raise SRaise(e)
    return tuple(res) if isinstance(o, tuple) else I.new_list(res)


def setitem(I, o, k, v):
    if isinstance(o, STuple):
        raise_type("'tuple' object does not support item assignment")
    if isinstance(o, SObj):
        f = I.class_lookup(o.cls, "__setitem__")
        from .interp import _MISSING
        if f is _MISSING:
            raise_type("object does not support item assignment")
        I.call(f, [o, k, v], {})
        return
    if isinstance(o, SDict):
        if isinstance(o, SInstDict):
            I.raw_setattr(o.owner, k, v)
        dict_setitem(I, o, k, v)
        return
    if isinstance(o, SList):
        parts = I.resolve_parts(o.parts)
        if isinstance(k, slice):
            new = list(get_iter_consume(I, v))
            loops.set_slice(I, o, parts, k, new)
            return
        k = I.concretize_arg(k)
        if isinstance(k, int) and not any(isinstance(p, Many) for p in parts):
            if not -len(parts) <= k < len(parts):
                raise SRaise(IndexError("list assignment index out of range"))
            parts = list(parts)
            parts[k] = v
            I.set_parts(o, parts)
            return
        if isinstance(k, (int, SInt)):
            loops.set_index_many(I, o, parts, k, v)
            return
        raise_type("list indices must be integers or slices")
    if isinstance(o, dict):
        f = getattr(I, "native_dict_set", None)
        raise Unsupported("assignment to an item of a global dict")
    if isinstance(o, Sym) or isinstance(o, (tuple, str)):
        raise_type("object does not support item assignment")
    f = getattr(type(o), "__setitem__", None)
    if isinstance(f, types.FunctionType) and I.can_interpret(f):
        I.call(f, [o, k, v], {})
        return
    raise Unsupported(f"item assignment on a native {type(o).__name__}")


def delitem(I, o, k):
    if isinstance(o, STuple):
        raise_type("'tuple' object doesn't support item deletion")
    if isinstance(o, SObj):
        f = I.class_lookup(o.cls, "__delitem__")
        from .interp import _MISSING
        if f is _MISSING:
            raise_type("object doesn't support item deletion")
        I.call(f, [o, k], {})
        return
    if isinstance(o, SDict):
        dict_delitem(I, o, k)
        return
    if isinstance(o, SList):
        parts = I.resolve_parts(o.parts)
        if isinstance(k, slice):
            loops.set_slice(I, o, parts, k, [])
            return
        k = I.concretize_arg(k)
        if isinstance(k, int) and not any(isinstance(p, Many) for p in parts):
            if not -len(parts) <= k < len(parts):
                raise SRaise(IndexError("list assignment index out of range"))
            parts = list(parts)
            del parts[k]
            I.set_parts(o, parts)
            return
        loops.del_index_many(I, o, parts, k)
        return
    f = getattr(type(o), "__delitem__", None)
    if isinstance(f, types.FunctionType) and I.can_interpret(f):
        I.call(f, [o, k], {})
        return
    raise Unsupported("item deletion")


# ================================================================ lists, tuples
def list_pop_first(I, l):
    parts = I.resolve_parts(l.parts)
    if not parts:
        raise SRaise(IndexError("pop from empty list"))
    if isinstance(parts[0], Many):
        if not I.truth(l):
            raise SRaise(IndexError("pop from empty list"))
        parts = I.resolve_parts(l.parts)
        if isinstance(parts[0], Many):
            raise Unsupported("first element of a filtered sequence")
    I.set_parts(l, parts[1:], "pop", parts[0])
    return parts[0]


def list_method(I, l, name, args, kw):
    if isinstance(l, list):
        if name in MUTATORS:
            raise Unsupported("mutation of a global list")
        l = I.new_list(list(l))
    if name == "append":
        I.list_append(l, args[0])
        return None
    if name == "extend" or name == "__iadd__":
        new = get_iter_consume(I, args[0])
        for p in new:
            if isinstance(p, Many):
                I.set_parts(l, l.parts + [p], "append", p)
            else:
                I.list_append(l, p)
        return l if name == "__iadd__" else None
    if name == "__iter__":
        return get_iter(I, l)
    if name == "__len__":
        return b_len(I, [l], {})
    if name == "__contains__":
        return contains(I, l, I.resolve(args[0]))
    if name == "__getitem__":
        return getitem(I, l, args[0])
    if name == "__setitem__":
        setitem(I, l, args[0] if isinstance(args[0], slice) else I.resolve(args[0]), args[1])
        return None
    if name == "__delitem__":
        delitem(I, l, args[0])
        return None
    if name == "__eq__":
        o = I.resolve(args[0])
        return eq(I, l, o) if isinstance(o, (SList, list)) else NotImplemented
    if name == "__reversed__":
        return b_reversed(I, [l], {})
    if name == "copy":
        return I.new_list(I.resolve_parts(l.parts))
    if name == "clear":
        I.set_parts(l, [])
        return None
    parts = I.resolve_parts(l.parts)
    if name == "sort":
        I.set_parts(l, sort_parts(I, parts, kw.get("key"), kw.get("reverse", False)), "sort")
        return None
    if name == "insert":
        k = I.concretize_arg(args[0])
        if isinstance(k, int) and (not any(isinstance(p, Many) for p in parts) or k == 0):
            parts = list(parts)
            parts.insert(k, args[1])
            I.set_parts(l, parts)
            return None
        loops.insert_many(I, l, parts, k, args[1])
        return None
    if name == "pop":
        k = I.concretize_arg(args[0]) if args else -1
        if k == 0:
            return list_pop_first(I, l)
        if isinstance(k, int) and (not any(isinstance(p, Many) for p in parts)):
            if not -len(parts) <= k < len(parts):
                raise SRaise(IndexError("pop from empty list" if not parts else "pop index out of range"))
            v = parts[k]
            parts = list(parts)
            del parts[k]
            I.set_parts(l, parts)
            return v
        return loops.del_index_many(I, l, parts, k)
    if name == "reverse":
        if not any(isinstance(p, Many) for p in parts):
            I.set_parts(l, list(reversed(parts)))
            return None
    if name in ("index", "count", "remove") and not any(isinstance(p, Many) for p in parts):
        n = 0
        for i, p in enumerate(parts):
            if I.truth(eq_ident(I, p, args[0])):
                if name == "index":
                    return i
                if name == "remove":
                    I.set_parts(l, parts[:i] + parts[i + 1:])
                    return None
                n += 1
        if name == "count":
            return n
        raise SRaise(ValueError("list.remove(x): x not in list"))
    if name == "__repr__" or name == "__str__":
        return dt.opaque_str(I, "repr")
    raise Unsupported(f"list.{name}")


def tuple_method(I, t, name, args, kw):
    if name == "__iter__":
        return get_iter(I, t)
    if name == "__len__":
        return len(t)
    if name == "_replace":
        vals = [kw.get(f, x) for f, x in zip(t._fields, t)]
        return tuple.__new__(type(t), vals)
    if name == "_asdict":
        return I.new_dict([[f, x] for f, x in zip(t._fields, t)])
    if name in ("index", "count"):
        return list_method(I, I.new_list(list(t)), name, args, kw)
    if name == "__contains__":
        return contains(I, t, args[0])
    if name == "__getitem__":
        return getitem(I, t, args[0])
    if name == "__eq__":
        return eq(I, t, args[0]) if isinstance(args[0], tuple) else NotImplemented
    if name in ("__lt__", "__le__", "__gt__", "__ge__"):
        return order(I, {v: k for k, v in DU.items()}[name], t, args[0])
    if name in ("__str__", "__repr__"):
        return dt.opaque_str(I, "repr")
    if name == "geturl":
        return SStr([Atom(I.e.fresh_int("url"))])
    raise Unsupported(f"tuple.{name}")


# ================================================================ dicts
def dict_entries(I, d):
    """(key, value) pairs of a dict of known size"""
    parts = dict_parts_now(I, d)
    if any(isinstance(p, Many) for p in parts):
        raise Unsupported("unknown mapping")
    return parts


def dict_parts_now(I, d):
    if isinstance(d, SDict):
        return [p if isinstance(p, Many) else tuple(p) for p in I.resolve_parts([p if isinstance(p, Many) else tuple(p) for p in d.entries])]
    return list(d.items())


def as_entries(parts):
    return [p if isinstance(p, Many) else list(p) for p in parts]


def set_entries(I, d, entries, kind="mutate", *data):
    old, ver = d.entries, d.ver
    def undo():
        d.entries, d.ver = old, ver
    I.e.log(undo)
    I.effect(kind, d, *data)
    d.entries = entries
    if kind != "refine" and len(entries) != len(old):
        d.ver += 1


def dict_find(I, d, k):
    """index of the entry for key k or None (forks on symbolic keys); exposes the entry of an unbounded segment"""
    parts = dict_parts_now(I, d)
    if not any(isinstance(p, Many) for p in parts):
        for i, (kk, v) in enumerate(parts):
            if I.truth(key_eq(I, kk, k)):
                if isinstance(d, SDict) and len(parts) != len(d.entries):
                    set_entries(I, d, as_entries(parts), "refine")
                return i
        return None
    for i, p in enumerate(parts):
        if not isinstance(p, Many) and I.truth(key_eq(I, p[0], k)):
            set_entries(I, d, as_entries(parts), "refine")
            return i
    guards = []
    for p in parts:
        guards.append(key_guard(I, p, k) if isinstance(p, Many) else False)
    for i, p in enumerate(parts):
        g = guards[i]
        if g is False:
            continue
        if I.e.decide(loops.exists_elem(I, p.seq, [g])):
            pre, w, post = loops.split_witness(I, p.seq, loops.gnot(g), g)
            # keys are distinct: no other entry has this one
            loops.add_fact(I, post, loops.gnot(g))
            for j, q in enumerate(parts):
                if j != i and guards[j] is not False:
                    loops.add_fact(I, q.seq, loops.gnot(guards[j]))
            pair = I.instantiate(p, w)
            if len(pair) != 1:
                raise Unsupported("entries of an unknown mapping")
            new = parts[:i] + [Many(pre, p.cases), pair[0], Many(post, p.cases)] + parts[i + 1:]
            set_entries(I, d, as_entries(new), "refine")
            return i + 1
        loops.add_fact(I, p.seq, loops.gnot(g))
    set_entries(I, d, as_entries(parts), "refine")
    return None


def key_guard(I, many, k):
    """formula over the canonical element of a segment: its key equals k"""
    if getattr(many.seq, "earlier_of", None) is not None:
        key = keyed(I, many.seq.earlier_of)
        if key is not None and loops._certainly_equal(I, [key], [k]):
            return False        # other elements have other keys
        raise Unsupported("loop body looks up what earlier iterations put into a dict")

    def block(vals):
        for kk, v in vals:
            if I.truth(key_eq(I, kk, k)):
                raise loops.Abnormal("found", None)
    outs = loops.element_outcomes(I, many, block)
    if any(o.kind not in ("normal", "found") for o in outs):
        raise Unsupported("key comparison raises")
    g = loops.gor([o.guard for o in outs if o.kind == "found"])
    return g


def keyed(I, seq):
    """the key of the canonical element if different elements of the sequence have different keys"""
    return I.e.store.get(("keyed", seq.prefix))


def pair_keys_ok(I, many):
    key = keyed(I, many.seq)
    if key is None:
        return False
    for g, vs in many.cases:
        if not vs:
            continue
        if len(vs) != 1 or len(I.to_elems(vs[0])) != 2:
            return False
        k = I.to_elems(vs[0])[0]
        if k is not key and not loops._certainly_equal(I, [k], [key]):
            return False
    return True


def disjoint_seqs(I, a, b):
    """are two sequences different pieces of one sequence?"""
    def pieces(name):      # (named by where they were split)
        out = {}
        while "~" in name:
            here, name = name.split("~", 1)
            n, _, side = here.rpartition(".")
            out[n] = side
        return out
    pa, pb = pieces(a.name), pieces(b.name)
    if any(n in pb and pb[n] != side for n, side in pa.items()):
        return True

    def leaves(name):
        sp = I.e.store.get(("split", name))
        if sp is None:
            return {name}
        out = {name}
        for q in sp:
            if isinstance(q, SeqVar):
                out |= leaves(q.name)
        return out
    for key, sp in list(I.e.store.items()):
        if isinstance(key, tuple) and key[0] == "split":
            subs = [leaves(q.name) for q in sp if isinstance(q, SeqVar)]
            if any(a.name in x for x in subs) and any(b.name in x for x in subs) and not any(a.name in x and b.name in x for x in subs):
                return True
    return False


def key_eq(I, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if a is b:
        return True
    ta = isinstance(a, Sym)
    tb = isinstance(b, Sym)
    if not ta and not tb:
        from .interp import is_conc
        if is_conc(a) and is_conc(b):
            try:
                return a == b
            except Exception as e:
                raise SRaise(e)
    return eq(I, a, b)


def check_hashable(I, k):
    if isinstance(k, (SList, SDict, SSet, list, dict, set)):
        raise_type("unhashable type")


def conc_key(I, k):
    return I.concretize_arg(k)


def dict_getitem(I, d, k, default=MISSING):
    check_hashable(I, k)
    k = conc_key(I, k)
    i = dict_find(I, d, k)
    if i is not None:
        return I.resolve(dict_parts_now(I, d)[i][1])
    if isinstance(d, SDict):
        if default is MISSING and d.default is not None:
            v = I.call(d.default, [], {})
            dict_setitem(I, d, k, v)
            return v
    elif default is MISSING and isinstance(d, collections.defaultdict):
        raise Unsupported("native defaultdict")
    if default is not MISSING:
        return default
    raise SRaise(KeyError(I.opaque_for_exc(k)))


def dict_has(I, d, k):
    check_hashable(I, k)
    k = conc_key(I, k)
    return dict_find(I, d, k) is not None


def dict_setitem(I, d, k, v):
    check_hashable(I, k)
    if not isinstance(d, SDict):
        raise Unsupported("assignment to an item of a global dict")
    k = conc_key(I, k)
    i = dict_find(I, d, k)
    if i is not None:
        e = list(d.entries)
        e[i] = [e[i][0], v]
        set_entries(I, d, e, "dictset", k, v)
        return
    set_entries(I, d, d.entries + [[k, v]], "dictset", k, v)


def dict_delitem(I, d, k):
    k = conc_key(I, k)
    i = dict_find(I, d, k)
    if i is None:
        raise SRaise(KeyError(I.opaque_for_exc(k)))
    set_entries(I, d, d.entries[:i] + d.entries[i + 1:], "dictdel", k)


def dict_copy(I, d):
    if isinstance(d, SDict):
        return I.new_dict(as_entries(dict_parts_now(I, d)), d.default, d.cls)
    return I.new_dict([[k, v] for k, v in d.items()])


def dict_update(I, d, src):
    src = I.resolve(src)
    if isinstance(src, (SDict, dict)):
        for p in dict_parts_now(I, src):
            if isinstance(p, Many):
                dict_add_many(I, d, p)
            else:
                dict_setitem(I, d, p[0], p[1])
        return
    if isinstance(src, SObj):
        keys = I.getattr(src, "keys", None)
        if keys is not None:
            for k in I.to_elems(I.call(keys, [], {})):
                dict_setitem(I, d, k, I.getitem(src, k))
            return
    for p in I.resolve_parts(get_iter(I, src).parts):
        if isinstance(p, Many):
            dict_add_many(I, d, p)
        else:
            k, v = I.to_elems(p)
            dict_setitem(I, d, k, v)


def dict_add_many(I, d, many):
    """add the (key, value) pairs of an unbounded sequence whose keys are known to be distinct"""
    many = Many(many.seq, [(g, [tuple(I.to_elems(v)) for v in vs]) for g, vs in many.cases])
    if not pair_keys_ok(I, many):
        raise Unsupported("dict of an unbounded sequence")
    parts = dict_parts_now(I, d)
    for i, p in enumerate(parts):
        if isinstance(p, Many):
            if p.seq.name == many.seq.name and keyed(I, p.seq) is not None and pair_keys_ok(I, p):
                # the same keys again: their values are replaced, keys only in the new segment cannot be placed
                if all(len(vs) == 1 for _, vs in p.cases) and all(len(vs) == 1 for _, vs in many.cases):
                    set_entries(I, d, as_entries(parts[:i] + [many] + parts[i + 1:]), "mutate")
                    return
                raise Unsupported("merging unknown mappings")
            if not (disjoint_seqs(I, p.seq, many.seq) and pair_keys_ok(I, p)):
                raise Unsupported("merging unknown mappings")
        elif loops.exists_elem(I, many.seq, [key_guard(I, many, p[0])]) is not False and not I.e.entails(z3.Not(loops.exists_elem(I, many.seq, [key_guard(I, many, p[0])]))):
            raise Unsupported("merging unknown mappings")
    set_entries(I, d, as_entries(parts + [many]), "mutate")


def dict_parts(I, d, what):
    pick = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: (k, v)}[what]
    out = []
    for p in dict_parts_now(I, d):
        if isinstance(p, Many):
            out.append(Many(p.seq, [(g, [pick(*v) if what != "items" else v for v in vs]) for g, vs in p.cases]))
        else:
            out.append(pick(*p))
    return out


def dict_method(I, d, name, args, kw):
    if name == "get":
        return dict_getitem(I, d, args[0], args[1] if len(args) > 1 else None)
    if name == "setdefault":
        k = args[0]
        r = dict_getitem(I, d, k, MISSING2)
        if r is not MISSING2:
            return r
        v = args[1] if len(args) > 1 else None
        dict_setitem(I, d, k, v)
        return v
    if name == "pop":
        k = conc_key(I, args[0])
        i = dict_find(I, d, k)
        if i is not None:
            v = d.entries[i][1]
            set_entries(I, d, d.entries[:i] + d.entries[i + 1:], "dictdel", k)
            return I.resolve(v)
        if len(args) > 1:
            return args[1]
        raise SRaise(KeyError(I.opaque_for_exc(k)))
    if name in ("keys", "values", "items"):
        r = I.new_list(dict_parts(I, d, name))
        if isinstance(d, SDict):
            r.view = d
        return r
    if name == "__iter__":
        return get_iter(I, d)
    if name == "update":
        if args:
            dict_update(I, d, args[0])
        for k, v in kw.items():
            dict_setitem(I, d, k, v)
        return None
    if name == "copy":
        return dict_copy(I, d)
    if name == "clear":
        set_entries(I, d, [])
        return None
    if name == "__contains__":
        return dict_has(I, d, args[0])
    if name == "__getitem__":
        return dict_getitem(I, d, args[0])
    if name == "__setitem__":
        dict_setitem(I, d, args[0], args[1])
        return None
    if name == "__delitem__":
        dict_delitem(I, d, args[0])
        return None
    if name == "__len__":
        return b_len(I, [d], {})
    if name == "__eq__":
        return eq(I, d, args[0])
    if name == "translate":
        raise Unsupported("dict.translate")
    raise Unsupported(f"dict.{name}")


MISSING2 = object()


def set_method(I, s, name, args, kw):
    if name == "add":
        if not isinstance(s, SSet):
            raise Unsupported("mutation of a global set")
        if not I.truth(contains(I, s, I.resolve(args[0]))):
            old, ver = s.items, s.ver
            def undo():
                s.items, s.ver = old, ver
            I.e.log(undo)
            I.effect("mutate", s)
            s.items = old + [args[0]]
            s.ver += 1
        return None
    if name == "__contains__":
        return contains(I, s, I.resolve(args[0]))
    if name == "__iter__":
        return get_iter(I, s)
    if name in ("union", "difference", "intersection"):
        items = list(s.items) if isinstance(s, SSet) else list(s)
        I.e.stamp += 1
        out = SSet([], I.e.stamp)
        other = args[0]
        if name == "union":
            for x in items + I.to_elems(other):
                set_method(I, out, "add", [x], {})
        else:
            for x in items:
                if I.truth(contains(I, other, x)) == (name == "intersection"):
                    out.items.append(x)
        return out
    raise Unsupported(f"set.{name}")


# ================================================================ strings
def str_getitem(I, s, k):
    s = st.resolved(I, s)
    if isinstance(k, slice):
        return str_slice(I, s, k)
    k = I.concretize_arg(k)
    if isinstance(k, SInt):
        kv = z3.simplify(k.e)
        raise Unsupported("symbolic index into a text")
    if not isinstance(k, int):
        raise_type("string indices must be integers")
    if isinstance(s, str):
        try:
            return s[k]
        except IndexError as e:
            raise SRaise(e)
    if k >= 0:
        items = list(s.parts)
        n = k + 1
        got = take_front(I, items, n)
        if got is None:
            raise SRaise(IndexError("string index out of range"))
        return mkstr([got[-1]])
    items = list(s.parts)
    got = take_back(I, items, -k)
    if got is None:
        raise SRaise(IndexError("string index out of range"))
    return mkstr([got[0]])


def take_front(I, items, n):
    out = []
    while len(out) < n:
        if not items:
            return None
        p = items[0]
        if isinstance(p, str):
            k = n - len(out)
            out.extend(p[:k])
            if len(p) > k:
                items[0] = p[k:]
            else:
                items.pop(0)
        elif isinstance(p, Ch):
            out.append(p); items.pop(0)
        elif isinstance(p, Dec):
            items[0:1] = st.expand_dec(I, p)
        elif isinstance(p, Many):
            items[0:1] = loops.split_first_text(I, p)
        else:
            raise Unsupported("characters of an opaque text")
    return out


def take_back(I, items, n):
    out = []
    while len(out) < n:
        if not items:
            return None
        p = items[-1]
        if isinstance(p, str):
            k = n - len(out)
            out[0:0] = list(p[-k:])
            if len(p) > k:
                items[-1] = p[:-k]
            else:
                items.pop()
        elif isinstance(p, Ch):
            out.insert(0, p); items.pop()
        elif isinstance(p, Dec):
            items[-1:] = st.expand_dec(I, p)
        elif isinstance(p, Many):
            items[-1:] = loops.split_last_text(I, p)
        else:
            raise Unsupported("characters of an opaque text")
    return out


def str_slice(I, s, k):
    a, b, c = (I.concretize_arg(x) for x in (k.start, k.stop, k.step))
    if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (a, b, c)):
        return s[slice(a, b, c)]
    if c not in (None, 1):
        raise Unsupported("slice step")
    items = list(parts_of(s))
    if any(isinstance(p, Atom) for p in items):
        # slice of an opaque text: an uninterpreted function of the text
        f = z3.Function(f"str.slice[{a}:{b}]", z3.IntSort(), z3.IntSort())
        if len(items) == 1 and all(x is None or isinstance(x, int) for x in (a, b)):
            return SStr([Atom(f(items[0].e))])
    if all(x is None or isinstance(x, int) for x in (a, b)):
        a = a or 0
        if a >= 0 and b is None:
            try:
                if take_front(I, items, a) is None:
                    return ""
            except Unsupported:
                raise
            return mkstr(items)
        if a >= 0 and b is not None and b < 0:
            if take_back(I, items, -b) is None:
                return ""
            if take_front(I, items, a) is None:
                return ""
            return mkstr(items)
        if a >= 0 and b is not None and b >= a:
            pre = list(items)
            take_front(I, pre, a)
            got = []
            for _ in range(b - a):
                x = take_front(I, pre, 1)
                if x is None:
                    break
                got.extend(x)
            return mkstr(got)
        if a < 0 and b is None:
            got = take_back(I, items, -a)
            return mkstr(got if got is not None else parts_of(s))
    raise Unsupported("slice of a text with symbolic bounds")


def upper_lower(I, s, name):
    """s.upper() / s.lower(); only ASCII letters are known to change for composed texts"""
    if isinstance(s, str):
        return getattr(s, name)()
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(getattr(p, name)())
        elif isinstance(p, Dec):
            out.append(p)
        elif isinstance(p, Ch):
            lo, d = (97, -32) if name == "upper" else (65, 32)
            if I.e.entails(z3.And(p.e >= 0, p.e < 128)):
                out.append(Ch(z3.If(z3.And(p.e >= lo, p.e < lo + 26), p.e + d, p.e)))
            else:
                raise Unsupported(f"{name} of an arbitrary character")
        elif isinstance(p, Atom):
            if len(s.parts) > 1 and name != "upper":    # upper() maps characters independently, lower() does not
                raise Unsupported(f"{name} of a composed text")
            out.append(Atom(case_fn(I, p.e, name)))
        else:
            raise Unsupported(f"{name} of an unbounded text")
    return mkstr(out)


def case_fn(I, e, name):
    f = st._upper if name == "upper" else st._lower
    r = f(e)
    I.e.add(z3.And(f(r) == r, (r == st.lit_id("")) == (e == st.lit_id(""))))
    # the function agrees with Python on the literals that occur
    for lit in list(st._LITS):
        u = getattr(lit, name)()
        I.e.add(z3.Implies(e == st.lit_id(lit), r == st.lit_id(u)))
    return r


def str_method(I, s, name, args, kw):
    args = [I.resolve(a) for a in args]
    if isinstance(s, str):
        ca = [I.concretize_arg(a) for a in args]
        if I.all_conc(ca, kw) and name != "join":
            try:
                return I.from_native(getattr(s, name)(*ca, **kw))
            except Exception as e:
                raise SRaise(e)
    s = st.resolved(I, s)
    if name == "format":
        return str_format(I, s, args, kw)
    if name == "join":
        return str_join(I, s, args[0])
    if name in ("__str__",):
        return mkstr(parts_of(s))
    if name == "__eq__":
        return streq(I, s, args[0]) if is_str(args[0]) else NotImplemented
    if name == "__len__":
        return st.length(I, s)
    if name == "__contains__":
        return contains(I, s, args[0])
    if name == "__iter__":
        return get_iter(I, s)
    if name == "__getitem__":
        return getitem(I, s, args[0])
    if name == "__add__":
        return st.str_concat(I, [s, args[0]])
    if isinstance(s, SStr) and s.cls is not None:
        s = SStr(s.parts)
    if name in ("upper", "lower"):
        return upper_lower(I, s, name)
    if name == "casefold":
        return upper_lower(I, s, "lower")
    if name == "translate":
        return str_translate(I, s, args[0])
    if name == "replace":
        return str_replace(I, s, args)
    if name in ("startswith", "endswith"):
        return str_startswith(I, s, args, name)
    if name in ("isdigit", "isdecimal", "isnumeric"):
        return str_isdigit(I, s)
    if name == "isupper":
        return str_isupper(I, s)
    if name == "encode":
        raise Unsupported("str.encode of a symbolic text")
    if name in ("strip", "rstrip", "lstrip"):
        return str_strip(I, s, name, args)
    if name == "split":
        return str_split(I, s, args, kw)
    if name == "partition":
        return str_partition(I, s, args[0])
    if name == "rpartition":
        raise Unsupported("rpartition")
    if name in ("index", "find"):
        return str_index(I, s, name, args)
    if name == "zfill":
        return str_zfill(I, s, args[0])
    if name in ("__repr__", "__format__"):
        return dt.opaque_str(I, "repr")
    raise Unsupported(f"str.{name}")


def str_zfill(I, s, w):
    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Dec) and s.parts[0].width is None and isinstance(w, int):
        e = s.parts[0].e
        if I.e.decide(e < 10 ** w):
            return SStr([Dec(e, w)])
        return s
    raise Unsupported("zfill")


def str_format(I, s, args, kw):
    if not isinstance(s, str):
        raise Unsupported("format of a symbolic format string")
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        name, rest = re.match(r"([^.\[]*)(.*)", field).groups()
        if name == "":
            v = args[auto] if auto < len(args) else raise_(IndexError("Replacement index out of range"))
            auto += 1
        elif name.isdigit():
            v = args[int(name)] if int(name) < len(args) else raise_(IndexError("Replacement index out of range"))
        else:
            if name not in kw:
                raise SRaise(KeyError(name))
            v = kw[name]
        for acc in re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
            v = I.getattr(v, acc[0]) if acc[0] else I.getitem(v, int(acc[1]) if acc[1].isdigit() else acc[1])
        out.append(format_value(I, I.resolve(v), ord(conv) if conv else -1, spec))
    return st.str_concat(I, out)


def raise_(e):
    raise SRaise(e)


def format_value(I, v, conversion, spec):
    if conversion == ord("r") or conversion == ord("a"):
        v = b_repr(I, [v], {})
    elif conversion == ord("s"):
        v = b_str(I, [v], {})
    if not spec:
        return b_str(I, [v], {})
    if isinstance(spec, SStr):
        raise Unsupported("computed format specification")
    return apply_spec(I, v, spec)


def apply_spec(I, v, spec):
    from .interp import is_conc
    if is_conc(v):
        try:
            return format(v, spec)
        except Exception as e:
            raise SRaise(e)
    m = re.fullmatch(r"0?(\d*)d?", spec)
    if m and isinstance(v, SInt) and spec.startswith("0") and m.group(1):
        return pad_int(I, v.e, int(m.group(1)))
    if spec == "d" and isinstance(v, SInt):
        return int_str(I, v.e)
    if isinstance(v, DTV):
        if isinstance(v, STD):
            raise_type("unsupported format string passed to timedelta")
        return dt.strftime(I, v, spec)
    raise Unsupported(f"format specification {spec!r}")


def pad_int(I, e, w):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return f"{e.as_long():0{w}d}"
    if I.e.decide(e >= 0):
        if I.e.decide(e < 10 ** w):
            return SStr([Dec(e, w)])
        return SStr([Dec(e)])
    if w >= 2 and I.e.decide(-e < 10 ** (w - 1)):
        return SStr(["-", Dec(-e, w - 1)])
    return SStr(["-", Dec(-e)])


def str_percent(I, s, arg):
    from .interp import is_conc
    a = I.concretize_arg(arg)
    if isinstance(s, str) and is_conc(a):
        try:
            return s % a
        except Exception as e:
            raise SRaise(e)
    if not isinstance(s, str):
        raise Unsupported("% of a symbolic format string")
    if isinstance(a, (dict, SDict)):
        raise Unsupported("% with a mapping")
    vals = list(a) if isinstance(a, tuple) else [a]
    out = []
    pos = 0
    for m in re.finditer(r"%(%|([0 +-]*)(\d*)(?:\.(\d+))?([a-zA-Z]))", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out.append("%")
            continue
        if not vals:
            raise SRaise(TypeError("not enough arguments for format string"))
        v = I.resolve(vals.pop(0))
        c = m.group(5)
        if c in "sr" and not m.group(3):
            out.append(b_str(I, [v], {}) if c == "s" else b_repr(I, [v], {}))
        elif c in "di":
            if isinstance(v, SReal):
                v = b_int(I, [v], {})
            if isinstance(v, SBool):
                v = SInt(num(v))
            if isinstance(v, SInt):
                if m.group(3) and "0" in m.group(2):
                    out.append(pad_int(I, v.e, int(m.group(3))))
                elif not m.group(3):
                    out.append(int_str(I, v.e))
                else:
                    raise Unsupported("padded %d")
            elif is_num(v):
                out.append(("%" + m.group(0)[1:]) % v)
            else:
                raise_type("%d format: a real number is required")
        else:
            if is_conc(v):
                out.append(m.group(0) % v)
            else:
                out.append(dt.opaque_str(I, "percent"))
    out.append(s[pos:])
    if vals:
        raise SRaise(TypeError("not all arguments converted during string formatting"))
    return st.str_concat(I, out)


def str_join(I, sep, it):
    parts = I.resolve_parts(get_iter_consume(I, it))
    for p in parts:
        if isinstance(p, Many):
            for _, vs in p.cases:
                for v in vs:
                    if not is_str(v):
                        raise_type("sequence item: expected str instance")
        elif not is_str(I.resolve(p)):
            raise_type("sequence item: expected str instance")
    if isinstance(sep, str) and sep == "":
        return mkstr([Many(p.seq, [(g, list(vs)) for g, vs in p.cases]) if isinstance(p, Many) else SStr(list(parts_of(I.resolve(p)))) for p in parts])
    out = []
    first = True
    work = list(parts)
    while work:
        p = work.pop(0)
        if isinstance(p, Many):
            if first:
                work[0:0] = loops.split_first(I, p)
                continue
            out.append(Many(p.seq, [(g, [y for x in vs for y in (sep, x)]) for g, vs in p.cases]))
            continue
        if not first:
            out.append(sep)
        out.append(I.resolve(p))
        first = False
    return mkstr([SStr(list(parts_of(x))) if not isinstance(x, Many) else x for x in out])


def str_translate(I, s, table):
    t = I.concretize_arg(table)
    if not isinstance(t, dict):
        raise Unsupported("translate with a computed table")
    t = {(ord(k) if isinstance(k, str) else k): ("" if v is None else chr(v) if isinstance(v, int) else v) for k, v in t.items()}
    return mkstr([translate_item(I, p, t) for p in parts_of(s)])


def translate_item(I, p, t):
    if isinstance(p, str):
        return p.translate(t)
    if isinstance(p, Ch):
        for k, v in t.items():
            if I.e.decide(p.e == k):
                return v
        return p
    if isinstance(p, Dec):
        if any(48 <= k <= 57 for k in t):
            return mkstr([translate_item(I, c, t) for c in st.expand_dec(I, p)])
        return p
    if isinstance(p, Many):
        return loops.text_image(I, p, lambda q: mkstr([translate_item(I, q, t)]))
    if isinstance(p, Atom) and p.cls is not None and all(isinstance(k, int) and chr(k) in p.cls for k in t):
        return SStr([p])
    raise Unsupported("translate of an opaque text")


def str_replace(I, s, args):
    a, b = args[0], args[1]
    if len(args) > 2 or not isinstance(a, str) or a == "":
        raise Unsupported("str.replace with these arguments")
    if len(a) == 1:
        def rep(p):
            if isinstance(p, str):
                bits = p.split(a)
                out = [bits[0]]
                for x in bits[1:]:
                    out += [b, x]
                return mkstr([SStr(list(parts_of(x))) for x in out])
            if isinstance(p, Ch):
                return b if I.e.decide(p.e == ord(a)) else p
            if isinstance(p, Dec):
                if a in "0123456789":
                    return mkstr([rep(c) for c in st.expand_dec(I, p)])
                return p
            if isinstance(p, Many):
                return loops.text_image(I, p, lambda q: mkstr([rep(q)]))
            raise Unsupported("replace in an opaque text")
        return mkstr([rep(p) for p in parts_of(s)])
    # longer patterns: only if they lie within the literal parts and can't overlap the others
    if isinstance(s, str):
        bits = s.split(a)
        out = [bits[0]]
        for x in bits[1:]:
            out += [b, x]
        return mkstr([SStr(list(parts_of(x))) for x in out])
    raise Unsupported("replacement of a substring")


def str_startswith(I, s, args, name):
    pre = I.concretize_arg(args[0])
    if isinstance(pre, tuple):
        return bool_or(I, [str_startswith(I, s, [x], name) for x in pre])
    if len(args) > 1:
        raise Unsupported("startswith with bounds")
    if not isinstance(pre, str):
        raise Unsupported("startswith of a symbolic prefix")
    if pre == "":
        return True
    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Atom):
        f = z3.Function(f"text.{name}[{pre}]", z3.IntSort(), z3.BoolSort())
        e = s.parts[0].e
        for lit in list(st._LITS):
            I.e.add(z3.Implies(e == st.lit_id(lit), f(e) == getattr(lit, name)(pre)))
        return dt.mkbool(f(e))
    items = list(parts_of(s))
    got = take_front(I, items, len(pre)) if name == "startswith" else take_back(I, items, len(pre))
    if got is None:
        return False
    return bool_and(I, [dt.mkbool(st.code(c) == ord(x)) for c, x in zip(got, pre)])


def bool_or(I, xs):
    conds = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        conds.append(x.e)
    return dt.mkbool(z3.Or(conds)) if conds else False


DIGITS = z3.Function("char.isdigit", z3.IntSort(), z3.BoolSort())


def str_isdigit(I, s):
    s = st.resolved(I, s)
    if isinstance(s, str):
        return s.isdigit()
    conds = []
    for p in s.parts:
        if isinstance(p, str):
            if not p.isdigit():
                return False
        elif isinstance(p, Dec):
            continue
        elif isinstance(p, Ch):
            if I.e.entails(p.e < 128):
                conds.append(SBool(z3.And(p.e >= 48, p.e <= 57)))
            else:
                I.e.add(z3.Implies(p.e < 128, DIGITS(p.e) == z3.And(p.e >= 48, p.e <= 57)))
                conds.append(SBool(DIGITS(p.e)))
        else:
            raise Unsupported("isdigit of an unbounded text")
    return bool_and(I, conds)


def str_isupper(I, s):
    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Atom):
        return dt.mkbool(z3.Function("text.isupper", z3.IntSort(), z3.BoolSort())(s.parts[0].e))
    raise Unsupported("isupper")


def str_strip(I, s, name, args):
    def free(p):
        """an opaque text that contains none of the characters to strip"""
        return isinstance(p, Atom) and p.cls is not None and args and isinstance(args[0], str) and set(args[0]) <= set(p.cls)

    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], Atom) and not free(s.parts[0]):
        f = z3.Function(f"text.{name}[{args[0] if args else ''}]", z3.IntSort(), z3.IntSort())
        e = s.parts[0].e
        for lit in list(st._LITS):
            v = getattr(lit, name)(*args)
            I.e.add(z3.Implies(e == st.lit_id(lit), f(e) == st.lit_id(v)))
        return SStr([Atom(f(e))])
    h = getattr(I, "strip_hook", None)
    if h is not None:
        r = h(I, s, name, args)
        if r is not None:
            return r
    chars = args[0] if args else " \t\n\r\x0b\x0c"
    if args and isinstance(args[0], str):
        items = list(parts_of(s))
        if name in ("rstrip", "strip"):
            while items:
                if free(items[-1]):
                    if I.e.decide(items[-1].e != st.lit_id("")):
                        break
                    items.pop()
                    continue
                got = take_back(I, items, 1)
                if got is None:
                    break
                c = got[0]
                if I.e.decide(z3.Or([st.code(c) == ord(x) for x in chars])):
                    continue
                items.append(c)
                break
        if name in ("lstrip", "strip"):
            raise Unsupported(name)
        return mkstr(items)
    raise Unsupported(f"str.{name}")


def str_split(I, s, args, kw):
    sep = args[0] if args else None
    if not isinstance(sep, str) or len(sep) != 1 or len(args) > 1:
        raise Unsupported("split with these arguments")
    cur = []
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for x in bits[1:]:
                out.append(mkstr(cur)); cur = [x]
        elif isinstance(p, Ch):
            if I.e.decide(p.e == ord(sep)):
                out.append(mkstr(cur)); cur = []
            else:
                cur.append(p)
        elif isinstance(p, Dec) and not sep.isdigit():
            cur.append(p)
        elif isinstance(p, Many):
            r = loops.split_many(I, p, sep, cur)
            if r is None:
                cur.append(p)
            else:
                out.extend(r[0]); cur = r[1]
        else:
            raise Unsupported("split of an opaque text")
    out.append(mkstr(cur))
    return I.new_list(out)


def str_partition(I, s, sep):
    if not isinstance(sep, str) or len(sep) != 1:
        raise Unsupported("partition")
    pre = []
    items = list(parts_of(s))
    while items:
        p = items.pop(0)
        if isinstance(p, str):
            if sep in p:
                a, _, b = p.partition(sep)
                return (mkstr(pre + [a]), sep, mkstr([b] + items))
        elif isinstance(p, Ch):
            if I.e.decide(p.e == ord(sep)):
                return (mkstr(pre), sep, mkstr(items))
        elif isinstance(p, Dec):
            if sep.isdigit():
                raise Unsupported("partition at a digit")
        elif isinstance(p, Many):
            if I.e.decide(as_formula(item_has_char(I, p, sep))):
                raise Unsupported("partition inside an unbounded text")
        elif isinstance(p, Atom):
            r = item_has_char(I, p, sep)
            if I.e.decide(as_formula(r)):
                raise Unsupported("partition inside an opaque text")
        pre.append(p)
    return (mkstr(pre), "", "")


def as_formula(x):
    return z3.BoolVal(x) if isinstance(x, bool) else (x.e if isinstance(x, SBool) else x)


def str_index(I, s, name, args):
    h = getattr(I, "str_index_hook", None)
    if h is not None:
        return h(I, s, name, args)
    raise Unsupported(f"str.{name} of a symbolic text")


# ================================================================ regular expressions (see regex.py)
class RGroup(Sym):
    """a match object"""
    pytype = re.Match
    def __init__(self, groups, named=None, span=None):
        self.groups, self.named, self.span = groups, named or {}, span


def match_method(I, m, name, args, kw):
    if name == "group":
        if not args:
            return m.groups[0]
        k = args[0]
        return m.groups[k] if isinstance(k, int) else m.named[k]
    if name == "groups":
        return tuple(m.groups[1:])
    if name == "groupdict":
        return I.new_dict([[k, v] for k, v in m.named.items()])
    if name in ("start", "end", "span") and m.span is not None:
        return m.span[0] if name == "start" else m.span[1] if name == "end" else tuple(m.span)
    if name in ("__str__", "__repr__"):
        return dt.opaque_str(I, "match")
    raise Unsupported(f"Match.{name}")


# ================================================================ context managers
class GenCM(Sym):
    """object returned by a @contextmanager function"""
    pytype = contextlib._GeneratorContextManager
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


def with_statement(I, cm, target, body, frame):
    from .interp import _Return, _Break, _Continue
    cm = I.resolve(cm)
    if isinstance(cm, GenCM):
        run_gen_cm(I, cm, target, body, frame)
        return
    enter = I.getattr(cm, "__enter__", None)
    exit_ = I.getattr(cm, "__exit__", None)
    if enter is None or exit_ is None:
        raise_type("object does not support the context manager protocol")
    v = I.call(enter, [], {})
    if target is not None:
        I.assign(target, v, frame)
    try:
        body()
    except SRaise as e:
        r = I.call(exit_, [type(e.exc), e.exc, None], {})
        if not I.truth(r):
            raise
    except (_Return, _Break, _Continue):
        I.call(exit_, [None, None, None], {})
        raise
    else:
        I.call(exit_, [None, None, None], {})


def run_gen_cm(I, cm, target, body, frame):
    """the body of the with statement runs where the generator yields"""
    from . import source
    from .interp import Frame, _Return, _Break, _Continue
    fn = cm.fn
    state = {"yielded": 0, "exit": None}

    def at_yield(v):
        state["yielded"] += 1
        if state["yielded"] > 1:
            raise SRaise(RuntimeError("generator didn't stop"))
        if target is not None:
            I.assign(target, v, frame)
        try:
            body()
        except SRaise as e:
            state["exit"] = ("raise", e.exc)
            raise            # gen.throw(exc)
        except (_Return, _Break, _Continue) as e:
            state["exit"] = ("flow", e)
        return None

    node = source.node_of(fn) if isinstance(fn, types.FunctionType) else fn.node
    cells = dict(zip(fn.__code__.co_freevars, fn.__closure__)) if isinstance(fn, types.FunctionType) and fn.__closure__ else {}
    if isinstance(fn, types.FunctionType):
        I.e.functions_inlined.add(f"{fn.__module__}:{fn.__qualname__}")
        f = Frame({}, fn.__globals__, source.class_of(fn), cells, None, fn, node)
        I.bind(f, node.args, cm.args, cm.kw, list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), fn.__qualname__)
    else:
        f = Frame({}, fn.glob, fn.clsname, {}, fn.env, fn.fn, node)
        I.bind(f, node.args, cm.args, cm.kw, fn.defaults, fn.kwdefaults, fn.name)
    f.hook = at_yield
    try:
        I.exec_block(node.body, f)
    except _Return:
        pass
    if not state["yielded"]:
        raise SRaise(RuntimeError("generator didn't yield"))
    if state["exit"] is not None:
        kind, e = state["exit"]
        if kind == "flow":
            raise e
        # the generator swallowed the exception: the with statement completes normally


def make_contextmanager_helper(I, fn):
    return lambda I_, args, kw: GenCM(fn, args, kw)


def m_contextmanager(I, args, kw):
    fn = args[0]
    return I.native_closure(lambda a, k: GenCM(fn, a, k))


class NativeClosure(Sym):
    pytype = types.FunctionType
    def __init__(self, f): self.f = f


# ================================================================ registration
def install(I):
    m = I.models
    m[_dt.timezone] = m_fixed
    I.opaque_eq = {_dt.timezone: fixed_eq}
    I.opaque_method = {(_dt.timezone, n): fixed_method(n) for n in ("utcoffset", "dst", "tzname")}
    I.opaque_method[_dt.timezone, "__str__"] = lambda I, v, args, kw: SStr([Atom(fixed_name(v))])
    m.update({
        builtins.isinstance: b_isinstance, builtins.issubclass: b_issubclass, builtins.getattr: b_getattr, builtins.hasattr: b_hasattr,
        builtins.setattr: b_setattr, builtins.delattr: b_delattr, builtins.len: b_len, builtins.callable: b_callable, builtins.iter: b_iter,
        builtins.next: b_next, builtins.sorted: b_sorted, builtins.any: b_any, builtins.all: b_all, builtins.min: minmax("Lt"), builtins.max: minmax("Gt"),
        builtins.abs: b_abs, builtins.divmod: b_divmod, builtins.sum: b_sum, builtins.repr: b_repr, builtins.id: b_id, builtins.ord: b_ord, builtins.chr: b_chr,
        builtins.hash: b_hash, builtins.print: b_print, builtins.format: lambda I, a, k: format_value(I, I.resolve(a[0]), -1, a[1] if len(a) > 1 else ""),
        warnings.warn: m_warn, heapq.heapify: m_heapify, heapq.heappop: m_heappop, heapq.heappush: m_heappush,
        typing.cast: m_cast, urllib.parse.urlparse: m_urlparse, urllib.parse.ParseResult.geturl: m_geturl, uuid.uuid4: m_uuid4, functools.lru_cache: m_lru_cache, functools.cache: lambda I, args, kw: SBound(lru_cached_call, args[0]), lru_decorate: m_lru_decorate, lru_cached_call: m_lru_cached_call, functools.reduce: m_reduce, itertools.chain.from_iterable: m_chain_from,
    })
    m.update(operator_models())
    from . import regex
    regex.install(I)
    from . import folding
    folding.install(I)
    import dateutil.tz
    import ics.contentline.container as cc
    import ics.event as ev
    # @contextmanager functions of the code under verification
    import sys
    for modname, mod in list(sys.modules.items()):
        if modname.split(".")[0] in I.repo_prefixes:
            for k, v in list(vars(mod).items()):
                w = getattr(v, "__wrapped__", None)
                if isinstance(v, types.FunctionType) and w is not None and v.__code__.co_filename == contextlib.__file__:
                    m[v] = make_contextmanager_helper(I, w)
    import attr
    m[attr.fields_dict] = m_fields_dict
    # attrs' validators and converters are plain Python and are interpreted
