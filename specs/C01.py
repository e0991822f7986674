"""C01: TEXT escaping is lossless and ill-formed TEXT is rejected"""
from specs.common import *
from ics.valuetype.text import TextConverter

ASSUMPTIONS = ["strings are sequences of Unicode scalar values",
               "every string is a sequence of units, each a character other than a backslash or a backslash with the following character, possibly followed by a single backslash"]
UNITS = ListOf(Tup(Bool(), Char()))       # (escaped, character); a backslash always counts as escaped


@lemma("C01", s=Chars())
def unescape_inverts_escape(s):
    e = TextConverter.escape_text(s)
    prove(TextConverter.unescape_text(e) == s, "un-escaping the escaped form gives the same string")
    prove(TextConverter.parse(TextConverter.serialize(s)) == s, "parsing the serialized value gives the same string")


@lemma("C01", s=Chars())
def escaped_form_is_safe(s):
    e = TextConverter.escape_text(s)
    prove("\n" not in e, "no newline in the escaped form")
    prove("\r" not in e, "no carriage return in the escaped form")


@lemma("C01", s=Chars())
def escaped_form_has_no_bare_separator(s):
    """the escaped form is a sequence of characters other than separators, and of escape pairs"""
    e = TextConverter.escape_text(s)
    prove(e == "".join(UNIT[c] if c in UNIT else c for c in s), "escape pairs for special characters, other characters as they are")


UNIT = {"\\": "\\\\", ";": "\\;", ",": "\\,", "\n": "\\n", "\r": "\\r"}
PAIRS = {"\\": "\\", ";": ";", ",": ",", "n": "\n", "N": "\n", "r": "\r", "R": "\r"}


def text_of(units, tail):
    return "".join("\\" + c if esc or c == "\\" else c for esc, c in units) + ("\\" if tail else "")


@lemma("C01", units=UNITS, tail=Bool())
def unescape_rejects_exactly_ill_formed(units, tail):
    s = text_of(units, tail)
    bad = any(c not in PAIRS if esc or c == "\\" else c in ";,\n\r" for esc, c in units)
    try:
        r = TextConverter.unescape_text(s)
    except ValueError:
        prove(bad or tail, "only ill-formed values are rejected")
    else:
        prove(not bad and not tail, "ill-formed values are rejected")
        prove(r == "".join(PAIRS[c] if esc or c == "\\" else c for esc, c in units), "escape pairs are decoded, other characters kept")
