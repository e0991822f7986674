"""C05: folded output respects the width and unfolds to the original lines"""
import re
from specs.lines import *
from ics.contentline.container import contentline_set_wrap, DEFAULT_LINE_WRAP

ASSUMPTIONS = ["textwrap.TextWrapper.wrap (standard library): a text without line breaks is cut into non-empty pieces that make it up, each fitting the width with its indentation; the options of the wrapper in use are checked on every run",
               "re.split at the pattern of line breaks cuts at every CR LF, CR and LF",
               "three logical lines stand for any number: the state between logical lines is the last one and its number"]
NOTE = "proof for the folding of property lines (name from a list, parameters of three shapes, any value, any width) and for unfolding any physical lines; containers of lines, all names and parameters sampled"

CTRL = "".join(map(chr, [*range(0, 9), *range(10, 32), 127]))
PLAIN = Plain("\r\n")
FIRST = Char(exclude=" \t\r\n")
SPACE = Choice(" ", "\t")
NL = Choice("", "\r", "\n", "\r\n")
MORE = ListOf(Tup(Bool(), SPACE, PLAIN))


def rejected(lines):
    try:
        list(Parser.unfold_lines(lines))
    except ParseError:
        return True
    return False


def physical(c, p, more, nl):
    """a logical line starting with c, with continuations and empty lines"""
    return [c + p + nl] + [nl if empty else s + x + nl for empty, s, x in more]


def logical(c, p, more):
    return c + p + "".join(["" if empty else x for empty, s, x in more])


@lemma("C05", blanks=ListOf(NL), a=FIRST, x=PLAIN, xs=MORE, b=FIRST, y=PLAIN, ys=MORE, c=FIRST, z=PLAIN, zs=MORE, nl=NL)
def unfolding(blanks, a, x, xs, b, y, ys, c, z, zs, nl):
    """any number of empty lines and of continuation lines"""
    out = list(Parser.unfold_lines(blanks + physical(a, x, xs, nl) + physical(b, y, ys, nl) + physical(c, z, zs, nl)))
    prove(len(out) == 3, "every line that is no continuation starts a logical line")
    prove(out[0][1] == logical(a, x, xs), "the first logical line is its physical lines without the leading space")
    prove(out[1][1] == logical(b, y, ys), "the next logical line is its physical lines without the leading space")
    prove(out[2][1] == logical(c, z, zs), "the last logical line is its physical lines without the leading space")
    n = len(blanks)
    prove(out[0][0] == n, "the line number is that of the first physical line")
    prove(out[1][0] == n + 1 + len(xs), "the next line number is that of its first physical line")
    prove(out[2][0] == n + 2 + len(xs) + len(ys), "the last line number is that of its first physical line")


@lemma("C05", blanks=ListOf(NL), s=SPACE, p=PLAIN, nl=NL, rest=ListOf(PLAIN))
def continuation_first(blanks, s, p, nl, rest):
    prove(list(Parser.unfold_lines(blanks)) == [], "empty lines are no logical lines")
    prove(rejected(blanks + [s + p + nl] + rest), "a continuation without a preceding line is rejected")


@lemma("C05", blanks=ListOf(NL), first=Bool(), c=FIRST, p=PLAIN, ps=ListOf(PLAIN), x=PLAIN, brk=Choice("\r", "\n", "\r\n"), y=Char(exclude="\r\n"), z=PLAIN, rest=ListOf(PLAIN))
def embedded_line_break(blanks, first, c, p, ps, x, brk, y, z, rest):
    before = [] if first else [c + p] + [" " + i for i in ps]
    prove(rejected(blanks + before + [x + brk + y + z] + rest), "a line with an embedded line break is rejected")


def folds(cl, width):
    logical = cl.serialize(wrap=None)
    first, rest = wrapped_pieces(logical)
    text = cl.serialize()
    prove(text == first + "".join(["\r\n " + p for p in rest]), "the text is the pieces, continuations start with one space")
    prove("".join(cl.serialize_iter()) == text, "iterating gives the same text")
    prove("".join(cl.serialize_iter(newline=True)) == text + "\r\n", "iterating with a line end gives the same text and a line end")
    prove(cl.serialize(newline=True, wrap=None) == logical + "\r\n", "without folding the logical line is written")
    lines = Parser.string_to_lines(text)
    prove(all([len(l) <= width for l in lines]), "no physical line is longer than the width")
    prove(list(Parser.unfold_lines(lines)) == [(0, logical)], "unfolding gives the logical line")


def some_line(name, params, value, pv):
    return ContentLine(name, {} if params == 0 else {"X-P": [pv]} if params == 1 else {"X-P": ["a,b", pv], "Y": [QuotedParamValue("q")]}, value)


@lemma("C05", cases={"params": [0, 1, 2]}, name=Choice("SUMMARY", "X-A", "b"), value=Plain(CTRL), pv=Plain(CTRL + "\",:;^\n\r"), width=Int(2, 10**6))
def folding_to_any_width(params, name, value, pv, width):
    cl = some_line(name, params, value, pv)
    with contentline_set_wrap(width):
        folds(cl, width)
    prove(DEFAULT_LINE_WRAP.width == 75, "the default width is back afterwards")


@lemma("C05", cases={"params": [0, 1, 2]}, name=Choice("SUMMARY", "X-A", "b"), value=Plain(CTRL), pv=Plain(CTRL + "\",:;^\n\r"))
def folding_by_default(params, name, value, pv):
    folds(some_line(name, params, value, pv), 75)


def _rand_width(r):
    return r.choice([2, 3, 4, 5, 10, 20, 40, 74, 75, 76, 100, 200]) if r.random() < .7 else r.randint(2, 120)


def check_folding(lines, cls, text, width):
    phys = text.split("\r\n")
    for p in phys:
        prove(len(p) <= width, "no physical line is longer than the width", p)
        prove("\n" not in p and "\r" not in p, "physical lines contain no line breaks")
    got, first = [], 0
    for p in phys:
        if p.startswith(" "):
            prove(first > 0, "a line does not start with a space")
            got[-1] += p[1:]
        else:
            got.append(p)
            first += 1
    logical = [c.serialize(wrap=None) for c in cls]
    prove(got == logical, "removing line breaks with one following space gives the logical lines")
    un = [l for _, l in Parser.unfold_lines(Parser.string_to_lines(text))]
    prove(un == logical, "unfolding gives the logical lines in order")


@lemma("C05", mode="bounded", weight=3, line=Native(rand_line), width=Native(_rand_width))
def line_folding(line, width):
    cl = mkline(line)
    with contentline_set_wrap(width):
        text = cl.serialize()
        prove("".join(cl.serialize_iter()) == text, "iterating gives the same text")
    check_folding([line], [cl], text, width)


@lemma("C05", mode="bounded", line=Native(rand_line))
def default_width(line):
    cl = mkline(line)
    check_folding([line], [cl], cl.serialize(), 75)


@lemma("C05", mode="bounded", lines=Native(lambda r: [rand_line(r) for _ in range(r.choice([1, 2, 5]))]), width=Native(_rand_width))
def container_folding(lines, width):
    cls = [mkline(l) for l in lines]
    c = Container("X", cls)
    assume(width >= 7)
    with contentline_set_wrap(width):
        text = c.serialize()
    check_folding(lines, [ContentLine("BEGIN", value="X")] + cls + [ContentLine("END", value="X")], text, width)


@lemma("C05", mode="bounded", weight=2, lines=Native(lambda r: [mkline(rand_line(r)).serialize(wrap=None) for _ in range(r.choice([0, 1, 2, 5]))]), seed=Int(0, 10**6))
def any_folding_unfolds(lines, seed):
    """however the lines are folded (with spaces or tabs, empty lines in between, any line ends)"""
    import random
    r = random.Random(seed)
    text = ""
    for l in lines:
        if l[0] in " \t":
            assume(False)
        for i, ch in enumerate(l):
            if i and r.random() < .1:
                text += r.choice(["\r\n", "\n"]) + r.choice([" ", "\t"])
            text += ch
        text += r.choice(["\r\n", "\n", "\r\n\r\n", "\n\n"])
    un = list(Parser.unfold_lines(Parser.string_to_lines(text)))
    prove([l for _, l in un] == lines, "unfolding gives the logical lines in order")
    prove([l for _, l in Parser.unfold_lines(re.split("\r\n|\n", text))] == lines, "unfolding a list of lines too")


@lemma("C05", mode="bounded", lines=Native(lambda r: [mkline(rand_line(r)).serialize(wrap=None) for _ in range(r.choice([1, 2, 5]))]), pos=Int(0, 4), nl=Choice("\n", "\r", "\r\n"), sp=Choice(" ", "\t"), empty=Bool())
def ill_formed_input_is_rejected(lines, pos, nl, sp, empty):
    bad = ([""] if empty else []) + [sp + lines[0]] + lines[1:]
    try:
        list(Parser.unfold_lines(bad))
    except ParseError:
        ok = True
    else:
        ok = False
    prove(ok, "a continuation without a preceding line is rejected")
    i = pos % len(lines)
    l = lines[i]
    bad = lines[:i] + [l[:len(l) // 2 + 1] + nl + "x" + l[len(l) // 2 + 1:]] + lines[i + 1:]
    try:
        list(Parser.unfold_lines(bad))
    except ParseError:
        ok = True
    else:
        ok = False
    prove(ok, "a line with an embedded line break is rejected")
