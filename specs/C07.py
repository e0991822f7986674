"""C07: durations survive serialization and parsing"""
import datetime as _dt
from specs.common import *
from ics.valuetype.datetime import DurationConverter

ASSUMPTIONS = ["timedelta.total_seconds() is exact for whole seconds (below 2**53)"]
WHOLE = TD(whole=True)


def expected_text(v):
    """specification of the serialization"""
    n = us(v) // 10**6
    total = n if n >= 0 else -n
    days, rest = total // 86400, total % 86400
    h, m, s = rest // 3600, rest // 60 % 60, rest % 60
    t = "-P" if n < 0 else "P"
    if days:
        t += str(days) + "D"
    if rest:
        t += "T"
        if h:
            t += str(h) + "H"
        if m:
            t += str(m) + "M"
        if s:
            t += str(s) + "S"
    elif not days:
        t += "T0S"
    return t


DIGITS = list(range(10))     # number of digits of the days of a timedelta


def check_roundtrip(v):
    prove(DurationConverter.parse(DurationConverter.serialize(v)) == v, "parsing the serialization yields the same timedelta")


@lemma("C07", weight=3, cases={"n": DIGITS, "neg": [False, True]}, days=Int(0, 999999998), h=Int(0, 23), m=Int(0, 59), s=Int(0, 59))
def parsing_inverts_serializing(n, neg, days, h, m, s):
    """every timedelta of whole seconds is plus or minus some days, hours, minutes and seconds"""
    assume(days == 0 if n == 0 else both(10 ** (n - 1) <= days, days < 10 ** n))
    v = _dt.timedelta(days, h * 3600 + m * 60 + s)
    check_roundtrip(-v if neg else v)


@lemma("C07", h=Int(0, 23), m=Int(0, 59), s=Int(0, 59))
def extreme_durations(h, m, s):
    """the rest: 999999999 days and more, and minus 999999999 days"""
    check_roundtrip(_dt.timedelta(999999999, h * 3600 + m * 60 + s))
    check_roundtrip(_dt.timedelta(-999999999))


@lemma("C07", v=WHOLE)
def serialized_form(v):
    prove(DurationConverter.serialize(v) == expected_text(v), "sign, P, days and a T part with each non-zero unit once, in order and in range")


UNITS = ["W", "D", "H", "M", "S"]
SECONDS = {"W": 604800, "D": 86400, "H": 3600, "M": 60, "S": 1}
SUBSETS = ["".join(u for i, u in enumerate(UNITS) if k >> i & 1) for k in range(1, 32)]


@lemma("C07", cases={"units": SUBSETS}, sign=Choice("", "+", "-"), w=Int(0, 99), d=Int(0, 99), h=Int(0, 99), m=Int(0, 99), s=Int(0, 99))
def well_formed_values_are_summed(units, sign, w, d, h, m, s):
    """every combination of units, each with a number of up to two digits"""
    vals = {"W": w, "D": d, "H": h, "M": m, "S": s}
    t = sign + "P"
    total = 0
    for u in units:
        if u in "HMS" and "T" not in t:
            t += "T"
        t += str(vals[u]) + u
        total += vals[u] * SECONDS[u]
    if sign == "-":
        total = -total
    prove(us(DurationConverter.parse(t)) == total * 10**6, "the signed sum of the parts")


@lemma("C07", cases={"unit": UNITS}, sign=Choice("", "+", "-"), n=Int(0, 10**8))
def single_unit(unit, sign, n):
    """numbers of up to eight digits"""
    t = sign + "P" + ("T" if unit in "HMS" else "") + str(n) + unit
    prove(us(DurationConverter.parse(t)) == (-n if sign == "-" else n) * SECONDS[unit] * 10**6, "the signed number of units")


def rejected(t):
    try:
        r = DurationConverter.parse(t)
    except Exception:
        return True
    return False


ORDERED = [(a, b) for i, a in enumerate(UNITS) for b in UNITS[i:]]


@lemma("C07", cases={"twice": UNITS, "between": ["", "W", "D", "H", "M", "S"]}, sign=Choice("", "+", "-"), x=Int(0, 99), y=Int(0, 99), z=Int(0, 99))
def repeated_units_are_rejected(twice, between, sign, x, y, z):
    t = sign + "P" + ("T" if twice in "HMS" else "") + str(x) + twice
    if between and between != twice:
        t += ("T" if between in "HMS" else "") + str(z) + between
    t += ("T" if twice in "HMS" else "") + str(y) + twice
    prove(rejected(t), "a repeated unit is rejected")


@lemma("C07", sign=Choice("", "+", "-"), c=Char("P", alphabet="p DTZX0-+"), n=Int(0, 99), u=Choice(*UNITS))
def leading_p_is_required(sign, c, n, u):
    if sign == "" and c in "+-":
        return
    prove(rejected(sign + c + str(n) + u), "another character instead of P is rejected")
    prove(rejected(sign + str(n) + u), "a missing P is rejected")


@lemma("C07", sign=Choice("", "+", "-"), n=Int(0, 99), c=Char("WDHMST0123456789", alphabet="wdhmsYypPtZ.:,- x"), time=Bool())
def unknown_units_are_rejected(sign, n, c, time):
    assume(not c.isdigit())
    prove(rejected(sign + "P" + ("T" if time else "") + str(n) + c), "an unknown unit is rejected")
    prove(rejected(sign + "P" + ("T" if time else "") + c), "a unit without number is rejected")


# ------------------------------------------------------------------ sampled: arbitrary numbers and leading zeros
def _wf(r):
    sub = r.choice(SUBSETS)
    t = r.choice(["", "+", "-"])
    neg = t == "-"
    t += "P"
    total = 0
    for u in sub:
        if u in "HMS" and "T" not in t:
            t += "T"
        n = r.choice([0, 1, 7, 59, 60, 61, 99, 100, r.randint(0, 10**4), r.randint(0, 10**6)])
        t += "0" * r.choice([0, 0, 0, 1, 2]) + str(n) + u
        total += n * SECONDS[u]
    return t, (-total if neg else total)


@lemma("C07", mode="bounded", wf=Native(_wf))
def any_well_formed_value(wf):
    t, total = wf
    prove(us(DurationConverter.parse(t)) == total * 10**6, "the signed sum of the parts")
