"""Finds the AST of the code that actually runs (the code object of the imported function)."""
import ast
import linecache
import sys
import types
from functools import lru_cache
from .values import Unsupported

_trees = {}


def tree_of(filename):
    t = _trees.get(filename)
    if t is None:
        if filename.startswith("<frozen "):
            lines = linecache.getlines(sys.modules[filename[8:-1]].__file__)
        else:
            lines = linecache.getlines(filename)
        if not lines:
            raise Unsupported(f"no source for {filename}")
        t = ast.parse("".join(lines), filename)
        index = {}
        for node in ast.walk(t):
            if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min(line, min(d.lineno for d in node.decorator_list))
                name = node.name if isinstance(node, ast.FunctionDef) else "<lambda>"
                index.setdefault((line, name), []).append(node)
        _trees[filename] = t = (t, index)
    return t


@lru_cache(maxsize=None)
def node_of_code(code):
    tree, index = tree_of(code.co_filename)
    nodes = index.get((code.co_firstlineno, code.co_name), [])
    if not nodes:
        raise Unsupported(f"no AST for {code.co_qualname} in {code.co_filename}")
    if len(nodes) > 1:
        cols = set()
        for pos in code.co_positions():
            if pos[0] is not None and pos[2] is not None:
                cols.add((pos[0], pos[2]))
        for n in nodes:
            inner = {(m.lineno, m.col_offset) for m in ast.walk(n.body if isinstance(n, ast.Lambda) else n) if hasattr(m, "lineno")}
            want = {c for c in cols}
            body = n.body
            if isinstance(n, ast.Lambda) and (body.lineno, body.col_offset) in want:
                return n
        raise Unsupported(f"ambiguous AST for {code.co_qualname}")
    return nodes[0]


def node_of(fn):
    if not isinstance(fn, types.FunctionType):
        raise Unsupported(f"not a Python function: {fn!r}")
    return node_of_code(fn.__code__)


def class_of(fn):
    """name of the class whose body contains the function (for private name mangling)"""
    if fn.__code__.co_filename.startswith("<attrs"):
        return None
    parts = fn.__qualname__.split(".")
    for i in range(len(parts) - 2, -1, -1):
        if parts[i] == "<locals>":
            continue
        if parts[i + 1] == "<locals>":
            return None if i == 0 else (parts[i - 1] if parts[i - 1] != "<locals>" else None)
        return parts[i]
    return None


@lru_cache(maxsize=None)
def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


@lru_cache(maxsize=None)
def assigned_names(node):
    """names bound in a statement (list) of one scope"""
    out = set()
    stack = list(node.body) + list(getattr(node, "orelse", [])) if not isinstance(node, list) else list(node)
    if isinstance(node, (ast.For,)):
        stack.append(node.target)
    if isinstance(node, ast.While):
        stack.append(node.test)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets are local to it, but walrus targets are not
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        stack.extend(ast.iter_child_nodes(n))
    return frozenset(out)
