"""C08: UTC offsets survive serialization and parsing"""
import datetime as _dt
import re
from specs.common import *
from ics.types import UTCOffset
from ics.valuetype.datetime import UTCOffsetConverter

ASSUMPTIONS = ["timedelta.total_seconds() and float arithmetic on it are exact for whole seconds (below 2**53)"]
LIMIT = _dt.timedelta(hours=100) - SEC
OFFSET = TD(whole=True, lo=-LIMIT, hi=LIMIT)


@lemma("C08", v=OFFSET)
def parsing_inverts_serializing(v):
    prove(UTCOffsetConverter.parse(UTCOffsetConverter.serialize(v)) == v, "parsing the serialization yields the same offset")


@lemma("C08", v=OFFSET)
def serialized_form(v):
    n = us(v) // 10**6
    total = n if n >= 0 else -n
    t = "-" if n < 0 else "+"
    t += "%02d" % (total // 3600) + "%02d" % (total // 60 % 60)
    if total % 60:
        t += "%02d" % (total % 60)
    prove(UTCOffsetConverter.serialize(v) == t, "a sign, two-digit hours and minutes, and non-zero two-digit seconds")


@lemma("C08", cases={"with_seconds": [False, True]}, sign=Choice("", "+", "-"), h=Int(0, 99), m=Int(0, 99), s=Int(0, 99))
def well_formed_offsets_are_summed(with_seconds, sign, h, m, s):
    t = sign + "%02d" % h + "%02d" % m
    total = h * 3600 + m * 60
    if with_seconds:
        t += "%02d" % s
        total += s
    prove(us(UTCOffsetConverter.parse(t)) == (-total if sign == "-" else total) * 10**6, "the signed sum of the parts")


def parsed(t):
    try:
        return UTCOffsetConverter.parse(t)
    except ValueError:
        return None


DIGITS = "0123456789"


@lemma("C08", cases={"n": [0, 1, 2, 3, 4, 5, 6, 7, 8]}, a=Char(alphabet="+-01 \u0661\n5"), b=Char(alphabet="01 -\u0661\n5"), c=Char(alphabet="0159"), d=Char(alphabet="0159"), e=Char(alphabet="0159\n"), f=Char(alphabet="0159:"), g=Char(alphabet="0159\n"), h=Char(alphabet="0159\n"))
def accepts_exactly_well_formed_offsets(n, a, b, c, d, e, f, g, h):
    """every text of up to eight characters"""
    cs = [a, b, c, d, e, f, g, h][:n]
    t = "".join(cs)
    digits = cs[1:] if n > 0 and (a == "+" or a == "-") else cs
    ok = len(digits) in (4, 6) and all(x in DIGITS for x in digits)
    prove((parsed(t) is not None) == ok, "accepts exactly an optional sign followed by four or six digits")


@lemma("C08", first=Chars(alphabet="0123456789+-: \n"), more=Tup(*[Char(alphabet="0123456789+-\n") for _ in range(8)]))
def longer_texts_are_rejected(first, more):
    """every text of more than seven characters"""
    prove(parsed("".join(more) + first) is None, "other texts are rejected")


@lemma("C08", mode="bounded", t=Native(lambda r: "".join(r.choice("0123456789" * 3 + "+-:Zz \n\u0661\u0662") for _ in range(r.choice([3, 4, 4, 5, 5, 6, 6, 7, 7, 8])))))
def any_text(t):
    v = parsed(t)
    m = re.fullmatch(r"[+-]?[0-9]{4}([0-9]{2})?", t)
    prove((v is not None) == (m is not None), "accepts exactly an optional sign followed by four or six digits")
    if m:
        d = t.lstrip("+-")
        total = int(d[:2]) * 3600 + int(d[2:4]) * 60 + int(d[4:] or 0)
        prove(us(v) == (-total if t[0] == "-" else total) * 10**6, "the signed sum of the parts")
