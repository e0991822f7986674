"""C26: simple values survive serialization and parsing"""
import math
from specs.common import *
from ics.geo import Geo, make_geo
from ics.valuetype.generic import BooleanConverter, IntegerConverter, BinaryConverter
from ics.valuetype.special import GeoConverter

ASSUMPTIONS = ["base64 of the standard library, float parsing and %f formatting are only sampled (bounded lemmas)"]


@lemma("C26", b=Bool())
def booleans(b):
    s = BooleanConverter.serialize(b)
    prove(s == ("TRUE" if b else "FALSE"), "booleans are written as TRUE or FALSE")
    prove(BooleanConverter.parse(s) is (True if b else False), "booleans survive")


@lemma("C26", cases={"word": ["TRUE", "T", "Y", "YES", "ON", "1", "FALSE", "F", "N", "NO", "OFF", "0"]}, bits=Tup(*[Bool() for _ in range(5)]))
def accepted_booleans(word, bits):
    """in every combination of letter cases"""
    t = ""
    for i in range(len(word)):
        t += word[i].lower() if bits[i] else word[i]
    prove(BooleanConverter.parse(t) is (word in ("TRUE", "T", "Y", "YES", "ON", "1")), "accepted in any letter case")
    prove(BooleanConverter.serialize(t) == ("TRUE" if word in ("TRUE", "T", "Y", "YES", "ON", "1") else "FALSE"), "texts are serialized by their meaning")


WORDS_TRUE = ["TRUE", "T", "Y", "YES", "ON", "1"]
WORDS_FALSE = ["FALSE", "F", "N", "NO", "OFF", "0"]
BOOLCHARS = "TRUEYSONFALtrueysonfal10 \n2\u0131\u017f\ufb00"


def parsed(t):
    try:
        return BooleanConverter.parse(t)
    except ValueError:
        return None


@lemma("C26", cases={"n": [0, 1, 2, 3, 4, 5, 6]}, cs=Tup(*[Char(alphabet=BOOLCHARS) for _ in range(6)]))
def other_texts_are_no_booleans(n, cs):
    """every ASCII text of up to six characters"""
    t = ""
    u = ""
    for c in cs[:n]:
        assume(ord(c) < 128)
        t += c
        u += chr(ord(c) - 32) if both("a" <= c, c <= "z") else c
    want = None
    for w in WORDS_TRUE:
        if u == w:
            want = True
    for w in WORDS_FALSE:
        if u == w:
            want = False
    prove(parsed(t) is want, "accepts exactly the twelve words")


@lemma("C26", mode="bounded", t=Native(lambda r: r.choice(["", rand_text(r), "".join(r.choice(BOOLCHARS) for _ in range(r.randint(0, 6))), r.choice(WORDS_TRUE + WORDS_FALSE).swapcase() + r.choice(["", " ", "x", "\n", "E"])])))
def any_text_as_boolean(t):
    want = True if t.upper() in WORDS_TRUE else False if t.upper() in WORDS_FALSE else None
    prove(parsed(t) is want, "accepts exactly the twelve words")


@lemma("C26", n=Int())
def integers(n):
    prove(IntegerConverter.parse(IntegerConverter.serialize(n)) == n, "integers survive")


@lemma("C26", mode="bounded", n=Native(lambda r: r.choice([0, 1, -1, r.randint(-10**6, 10**6), 2**53 + 1, -2**63 - 1, 10**r.randint(1, 60) + r.randint(-9, 9), r.getrandbits(200)])))
def integers_sampled(n):
    s = IntegerConverter.serialize(n)
    prove(s == str(n), "written in decimal digits")
    prove(IntegerConverter.parse(s) == n and IntegerConverter.parse("0" + s if n >= 0 else s) == n, "integers survive")


@lemma("C26", mode="bounded", b=Native(lambda r: bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 57, 58, 76, 200])))))
def binary_data(b):
    s = BinaryConverter.serialize(b)
    prove(BinaryConverter.parse(s) == b, "binary data survives")
    prove(set(s) <= set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="), "binary data is written as base64")


def _coord(r, lim):
    return round(r.choice([0, 1, -1, .5, -.000001, .000001, lim, -lim, r.uniform(-lim, lim), r.randint(-lim, lim), r.uniform(-1, 1)]), r.choice([0, 1, 2, 4, 5, 6, 6, 6]))


@lemma("C26", mode="bounded", a=Native(lambda r: _coord(r, 90)), b=Native(lambda r: _coord(r, 180)))
def coordinates(a, b):
    s = GeoConverter.serialize(Geo(a, b))
    prove(GeoConverter.parse(s) == (a, b), "coordinates survive")
    prove(s.count(";") == 1 and isinstance(GeoConverter.parse(s), Geo), "two numbers separated by a semicolon")
    prove(make_geo((a, b)) == Geo(a, b) and make_geo({"latitude": a, "longitude": b}) == Geo(a, b) and make_geo(Geo(a, b)) == Geo(a, b), "from tuples and dicts")


@lemma("C26", t=Chars(exclude=";", alphabet="0123456789.,-+e \n:"))
def coordinates_need_two_parts(t):
    try:
        GeoConverter.parse(t)
        ok = False
    except ValueError:
        ok = True
    prove(ok, "a single part is rejected")


@lemma("C26", mode="bounded", parts=Native(lambda r: [r.choice(["1.5", "-2", "", "x", "1,5", "0"]) for _ in range(r.choice([1, 2, 3]))]))
def malformed_coordinates(parts):
    def num(x):
        try:
            float(x)
            return True
        except ValueError:
            return False
    try:
        g = GeoConverter.parse(";".join(parts))
    except ValueError:
        g = None
    good = len(parts) == 2 and all(num(x) for x in parts)
    prove((g is not None) == good, "exactly two numbers are accepted")
    if good:
        prove(tuple(g) == tuple(float(x) for x in parts), "both numbers are kept in order")
