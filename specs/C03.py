"""C03: parameter value ^-encoding is lossless and injection-free"""
from specs.common import *
from ics.contentline.container import escape_param, unescape_param, QuotedParamValue
from ics.contentline import ParseError

ASSUMPTIONS = ["strings are sequences of Unicode scalar values",
               "every string is a sequence of units, each a character other than a caret or a caret with the following character, possibly followed by a single caret"]
UNITS = ListOf(Tup(Bool(), Char()))       # (escaped, character); a caret always counts as escaped
PAIRS = {"n": "\n", "^": "^", "'": '"'}
ENC = {'"': "^'", "^": "^^", "\n": "^n"}


@lemma("C03", s=Chars(exclude="\r"))
def decoding_inverts_encoding(s):
    prove(unescape_param(escape_param(s)) == s, "decoding the encoded form gives the same string")


@lemma("C03", s=Chars())
def encoding_is_injection_free(s):
    e = escape_param(s)
    prove('"' not in e, "no double quote in the encoded form")
    prove("\n" not in e, "no line feed in the encoded form")
    prove("\r" not in e, "no carriage return in the encoded form")


@lemma("C03", s=Chars(exclude="\r"))
def encoding_is_exact(s):
    prove(escape_param(s) == "".join(ENC[c] if c in ENC else c for c in s), "special characters become caret pairs, others are kept")


def text_of(units, tail):
    return "".join("^" + c if esc or c == "^" else c for esc, c in units) + ("^" if tail else "")


@lemma("C03", units=UNITS, tail=Bool())
def decoding_rejects_exactly_bad_carets(units, tail):
    s = text_of(units, tail)
    bad = any((esc or c == "^") and c not in PAIRS for esc, c in units)
    try:
        r = unescape_param(s)
    except ParseError:
        prove(bad or tail, "only bad carets are rejected")
    else:
        prove(not bad and not tail, "bad carets are rejected")
        prove(r == "".join(PAIRS[c] if esc or c == "^" else c for esc, c in units), "caret pairs are decoded, other characters kept")


@lemma("C03", mode="bounded", s=Chars(exclude="\r"))
def quoted_values_encode_alike(s):
    prove(escape_param(QuotedParamValue(s)) == escape_param(s), "a quoted value is encoded like a plain one")
