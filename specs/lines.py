"""Random content lines and containers (shared by several specifications)."""
import string
from specs.common import *
from ics.contentline import Container, ContentLine, ParseError, QuotedParamValue, Parser, string_to_containers, string_to_container, lines_to_containers, lines_to_container
from pyvc.sorts import rand_text, SPECIAL_CHARS, WORDS

ID = string.ascii_letters + string.digits + "-"
NOCTRL = [c for c in SPECIAL_CHARS if ord(c) >= 32 and c != "\x7f"]


def rand_name(r):
    if r.random() < .5:
        return r.choice(["SUMMARY", "DESCRIPTION", "X-FOO", "x-foo", "dtstart", "A", "X-LONG-NAME-0123456789", "Begin-x", "ATTENDEE", "URL"])
    n = "".join(r.choice(ID) for _ in range(r.choice([1, 2, 5, 12])))
    return n if n.upper() not in ("BEGIN", "END") else "X"


def rand_value(r, maxlong=300):
    """value without line breaks"""
    k = r.random()
    if k < .3:
        s = r.choice(WORDS)
    elif k < .75:
        s = rand_text(r, NOCTRL + ["\t", "\x0b", "\x0c", "\x85", "\u2028", " ", " ", "-"])
    else:
        s = "".join(r.choice(NOCTRL + ["a", "b", " ", " ", "-", "word", "long-word"]) for _ in range(r.randint(1, maxlong)))
    return s.replace("\n", "").replace("\r", "")


def rand_pvalue(r):
    """parameter value without control characters other than line feed"""
    k = r.random()
    s = r.choice(["a", "x,y", "a:b", "a;b", "^", "^n", "\"", "'", "\n", "a\nb", "mailto:a@b.c", "\"q\"", " lead", "=", "a=b", "TRUE", "^^n", "\u00fc", ""]) if k < .4 else rand_text(r, NOCTRL + ["\n"], words=False)
    return s


def rand_pvalues(r, n):
    return [rand_pvalue(r) if r.random() < .8 else QuotedParamValue(rand_pvalue(r)) for _ in range(n)]


def rand_params(r):
    p = {}
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        name = "".join(r.choice(ID) for _ in range(r.choice([1, 2, 5]))) if r.random() < .4 else r.choice(["TZID", "VALUE", "X-P", "x-p", "CN", "ROLE"])
        p[name] = rand_pvalues(r, r.choice([1, 1, 2, 3]))
    return p


def rand_line(r):
    return (rand_name(r), rand_params(r), rand_value(r))


def mkline(t):
    n, p, v = t
    return ContentLine(n, {k: list(x) for k, x in p.items()}, v)


def rand_tree(r, depth=3):
    """('C', name, items) or ('L', line)"""
    if depth == 0 or r.random() < .5:
        return ("L", rand_line(r))
    return ("C", r.choice(["VEVENT", "VTODO", "X-COMP", "A", "vevent", "Foo"]), [rand_tree(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3]))])


def rand_container(r, depth=3):
    t = rand_tree(r, depth)
    while t[0] != "C":
        t = rand_tree(r, depth)
    return t


def mktree(t):
    if t[0] == "L":
        return mkline(t[1])
    return Container(t[1], [mktree(x) for x in t[2]])


def plain(x):
    """structure of a line or container, independent of its equality methods"""
    if isinstance(x, ContentLine):
        return ("L", str(x.name), [(str(k), [str(v) for v in vs]) for k, vs in x.params.items()], x.value)
    return ("C", str(x.name), [plain(y) for y in x])


def plain_spec(t):
    if t[0] == "L":
        n, p, v = t[1]
        return ("L", n.upper(), [(k, [str(x) for x in vs]) for k, vs in p.items()], v)
    return ("C", t[1].upper(), [plain_spec(x) for x in t[2]])


def depth_of(t):
    return 0 if t[0] == "L" else 1 + max([depth_of(x) for x in t[2]] or [0])
