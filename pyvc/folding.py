"""Folding and line splitting of symbolic texts: the assumed contract of textwrap.TextWrapper.wrap and re.split at line breaks."""
import re
import textwrap
import z3
from .values import *
from .seqs import *
from . import strings as st
from .strings import SStr, Atom, Ch, parts_of, mkstr, lit_id

OPTIONS = ("width", "initial_indent", "subsequent_indent", "expand_tabs", "replace_whitespace", "fix_sentence_endings", "break_long_words", "drop_whitespace", "break_on_hyphens", "tabsize", "max_lines", "placeholder")
NEEDED = {"initial_indent": "", "subsequent_indent": " ", "expand_tabs": False, "replace_whitespace": False, "fix_sentence_endings": False, "break_long_words": True, "drop_whitespace": False, "max_lines": None}
LINEBREAKS = ("\r?\n|\r", "\r\n|\r|\n", "\r\n|\n|\r", "\r\n?|\n", "\n|\r\n?", "\r?\n|\r\n?", "\n|\r\n|\r", "\r\n|[\r\n]", "\r\n|[\n\r]", "(?:\r\n|\r|\n)", "(?:\r\n|\n|\r)", "(?:\r?\n|\r)")


def pieces(I, wrapper, text):
    """(first, seq): the pieces a text is wrapped into without the indentation of the later ones. The contract of wrap for
    a wrapper with the options NEEDED and a width of at least 2: the pieces are not empty, together they are the text, the
    first has at most width characters and the others have less than that."""
    from . import models
    opt = {o: I.resolve(I.getattr(wrapper, o)) for o in OPTIONS}
    for o, v in NEEDED.items():
        x = opt[o]
        if isinstance(x, Sym) or type(x) is not type(v) or x != v:
            raise Unsupported(f"TextWrapper.wrap with {o}={x!r}")
    w = opt["width"]
    w = w.e if isinstance(w, SInt) else z3.IntVal(w)
    if not I.e.entails(w >= 2):
        raise Unsupported("TextWrapper.wrap with a width below 2")
    text = st.resolved(I, text)
    ps = parts_of(text)
    if not ps or not isinstance(ps[0], (str, Ch)):
        raise Unsupported("TextWrapper.wrap of a text whose first character is not known")
    f = models.any_char(I, text, lambda c: z3.Or(c == 10, c == 13))
    if f is not False and not I.e.entails(z3.Not(models.as_formula(f))):
        raise Unsupported("TextWrapper.wrap of a text with line breaks")
    for t, w2, first, seq in I.e.store.get("wrapped", ()):
        if I.e.entails(w == w2):
            r = st.streq(I, t, text)
            if r is True or r is not False and I.e.entails(models.as_formula(I.as_bool(r))):
                return first, seq
    I.e.contracts_used.add("textwrap.TextWrapper.wrap: pieces of at most width characters which make up the text (assumed)")
    head = ps[0][0] if isinstance(ps[0], str) else ps[0]
    name = I.e.fresh_name("piece")
    x = z3.Int(name + ".0")
    size = z3.Function("str.len", z3.IntSort(), z3.IntSort())
    I.e.add(z3.And(size(x) >= 0, (size(x) == 0) == (x == lit_id("")), size(x) + 1 <= w))
    first = [head, Atom(x, "\r\n")]

    def make(I2, p):
        return SStr([Atom(z3.Int(p + ".p"), "\r\n")])
    elem = make(I, name)
    e = z3.Int(name + ".p")
    seq = SeqVar(name, elem, name, make, facts=[size(e) > 0, e != lit_id(""), size(e) + 1 <= w])
    if sum(st._minlen(p) for p in ps) >= 2:
        I.e.add(z3.And(seq.len >= 0, z3.Or(x != lit_id(""), seq.len > 0)))
    I.e.set_store("wrapped", I.e.store.get("wrapped", []) + [(text, w, first, seq)])
    return first, seq


def wrap(I, args, kw):
    wrapper = I.resolve(args[0])
    text = I.resolve(args[1] if len(args) > 1 else kw["text"])
    if type(wrapper) is not textwrap.TextWrapper:
        return NotImplemented
    if isinstance(text, str):
        opt = {o: I.resolve(I.getattr(wrapper, o)) for o in OPTIONS}
        if I.all_conc(list(opt.values()), {}):
            w = textwrap.TextWrapper()
            for o, v in opt.items():
                setattr(w, o, v)
            return I.new_list(w.wrap(text))
    if not isinstance(text, (str, SStr)):
        raise Unsupported("TextWrapper.wrap of something that is no text")
    first, seq = pieces(I, wrapper, text)
    return I.new_list([mkstr(first), Many(seq, [(True, [mkstr([" ", seq.elem])])])])


def _same(a, b):
    if isinstance(a, Many) and isinstance(b, Many):
        return a.seq.name == b.seq.name and len(a.cases) == len(b.cases) == 1 and a.cases[0][0] is True and b.cases[0][0] is True \
            and _same_parts(*(st.norm_parts([q for v in m.cases[0][1] for q in parts_of(v)]) for m in (a, b)))
    if isinstance(a, (Atom, Ch)) and type(a) is type(b):
        return a.e.eq(b.e)
    return isinstance(a, str) and a == b


def _same_parts(a, b):
    return len(a) == len(b) and all(map(_same, a, b))


def unwrapped(I, parts):
    """replace the pieces of a wrapped text, joined, by the text"""
    from . import loops
    for text, w, first, seq in I.e.store.get("wrapped", ()):
        whole = st.norm_parts(loops.drop_empty(I, I.resolve_parts([first[1], Many(seq, [(True, [seq.elem])])])))
        whole = [q for p in whole for q in ([p] if isinstance(p, Many) else parts_of(p) if isinstance(p, SStr) else [p])]
        if isinstance(whole[0], Atom) and I.e.entails(whole[0].e == lit_id("")):
            whole = whole[1:]
            parts = [p for p in parts if not (isinstance(p, Atom) and p.e.eq(first[1].e))]
        parts = st.norm_parts(loops.drop_empty(I, parts))
        h = first[0]
        text = list(parts_of(text))
        for i in range(len(parts) - len(whole), 0, -1) if whole else ():
            p = parts[i - 1]
            if not _same_parts(parts[i:i + len(whole)], whole):
                continue
            if isinstance(h, str) and isinstance(p, str) and p.endswith(h):
                parts[i - 1:i + len(whole)] = [p[:-1]] + text
            elif isinstance(h, Ch) and _same(p, h):
                parts[i - 1:i + len(whole)] = text
        parts = st.norm_parts(parts)
    return parts


def _free(I, p):
    from . import models
    r = models.item_any_char(I, p, lambda c: z3.Or(c == 10, c == 13))
    return r is False or not isinstance(r, bool) and I.e.entails(z3.Not(r))


def split_lines(I, text):
    """re.split at CR LF, CR or LF"""
    from . import loops
    parts = st.norm_parts(loops.drop_empty(I, list(parts_of(st.resolved(I, text)))))
    out, cur = [], []           # cur None: the last piece ended with the part before, a line break has to follow
    for n, p in enumerate(parts):
        if isinstance(p, str):
            if p.endswith("\r") and n + 1 < len(parts):
                raise Unsupported("split between CR and an unknown text")
            ls = re.split(LINEBREAKS[0], p)
            if cur is None:
                if ls[0]:
                    raise Unsupported("split of an unknown number of lines followed by text")
            else:
                cur.append(ls[0])
                if len(ls) > 1:
                    out.append(mkstr(cur))
            if len(ls) > 1:
                out.extend(ls[1:-1])
                cur = [ls[-1]]
        elif isinstance(p, Many) and not _free(I, p):
            cases = []
            form = None
            for g, vs in p.cases:
                b = list(parts_of(st.str_concat(I, vs)))
                def br(x, k):
                    return isinstance(x, str) and (x.startswith(("\r", "\n")) if k == 0 else x.endswith(("\r", "\n")))
                if b and br(b[0], 0):
                    f, m = "first", re.match("\r\n|\r|\n", b[0])
                    b[0] = b[0][m.end():]
                    if len(b) > 1 and not b[0] and m.group() == "\r":
                        raise Unsupported("split between CR and an unknown text")
                elif b and br(b[-1], 1):
                    f, m = "last", re.search("(\r\n|\r|\n)$", b[-1])
                    b[-1] = b[-1][:m.start()]
                else:
                    raise Unsupported("split of a text whose unknown parts contain line breaks")
                if form not in (None, f) or not all(_free(I, x) for x in b):
                    raise Unsupported("split of a text whose unknown parts contain line breaks")
                form = f
                cases.append((g, [mkstr(b)]))
            if form == "first":
                if cur is not None:
                    out.append(mkstr(cur))
                cur = None
            elif cur is None or st.norm_parts(cur):
                raise Unsupported("split of an unknown number of lines after text")
            out.append(Many(p.seq, cases))
        else:
            if not _free(I, p):
                raise Unsupported("split of a text with unknown characters")
            if cur is None:
                raise Unsupported("split of an unknown number of lines followed by text")
            cur.append(p)
    if cur is not None:
        out.append(mkstr(cur))
    return I.new_list(out)


def install(I):
    I.models[textwrap.TextWrapper.wrap] = wrap
    for p in LINEBREAKS:
        I.regex_hooks["split", p] = split_lines
