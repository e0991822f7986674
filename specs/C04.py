"""C04: a content line survives serialization and parsing"""
import re
from specs.lines import *

LEVEL = "exploration"
NOTE = "bounded: sampled lines (the index arithmetic of the line parser is out of reach of the verifier)"
ASSUMPTIONS = []


def parse_one(s):
    r = list(Parser.lines_to_contentlines([s]))
    prove(len(r) == 1, "one line")
    return r[0]


@lemma("C04", mode="bounded", weight=4, line=Native(rand_line))
def parsing_inverts_serializing(line):
    """bounded: sampled lines"""
    name, params, value = line
    cl = mkline(line)
    s = cl.serialize(wrap=None)
    prove("\n" not in s and "\r" not in s, "one physical line")
    p = parse_one(s)
    prove(plain(p) == plain_spec(("L", line)), "same name, parameters, values and order")
    prove(p == cl and p.name == name.upper() and p.value == value, "an equal line")
    prove("".join(cl.serialize_iter(wrap=None)) == s and "".join(cl.serialize_iter(newline=True, wrap=None)) == s + "\r\n", "iterating gives the same text")
    prove(plain(cl) == plain_spec(("L", line)), "serializing changes nothing")


@lemma("C04", mode="bounded", line=Native(rand_line))
def folded_lines_too(line):
    s = mkline(line).serialize()
    p = list(string_to_containers(s))
    prove(len(p) == 1 and plain(p[0]) == plain_spec(("L", line)), "same name, parameters, values and order")


# ------------------------------------------------------------------ written by others
def _rand_written(r):
    """(text, name, params, value) of a well-formed line as another program may write it"""
    name = rand_name(r)
    s = name
    params = {}
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        pn = rand_name(r)
        if pn in params:
            continue
        vals, txt = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < .5:
                v = "".join(c for c in rand_text(r, NOCTRL, words=False) if c not in '"^')
                vals.append(v)
                txt.append('"' + v + '"')
            else:
                v = "".join(c for c in rand_text(r, NOCTRL, words=False) if c not in '"^,:;')
                vals.append(v)
                txt.append(v)
        if not txt[-1]:
            vals[-1] = txt[-1] = "v"
        params[pn] = vals
        s += ";" + pn + "=" + ",".join(txt)
    value = rand_value(r)
    return s + ":" + value, name, params, value


@lemma("C04", mode="bounded", weight=3, w=Native(_rand_written))
def well_formed_lines_are_understood(w):
    text, name, params, value = w
    p = parse_one(text)
    prove(plain(p) == ("L", name.upper(), list(params.items()), value), "name, parameters and value as written")


def _rand_malformed(r):
    """a malformed line and why"""
    text, name, params, value = _rand_written(r)
    head = text[:len(text) - len(value) - 1]
    k = r.choice(["no colon", "no equals", "empty last value", "open quote", "after quote"])
    v = re.sub("[:;=\"]", "", value)
    if k == "no colon":
        return k, head + r.choice(["", ";X=y"]) + re.sub("[:\"]", "", v)
    if k == "no equals":
        return k, name + ";PARAM:" + v
    if k == "empty last value":
        return k, head + ";P=" + r.choice(["", "a,", "\"q\",", "\"q:;\",a,"]) + r.choice([":" + v, ";Q=1:" + v])
    if k == "open quote":
        return k, head + ";P=\"" + v + ":" + v
    return k, head + ";P=\"q\"x:" + v


@lemma("C04", mode="bounded", weight=3, bad=Native(_rand_malformed))
def malformed_lines_are_rejected(bad):
    why, text = bad
    try:
        r = parse_one(text)
    except ParseError:
        r = None
    prove(r is None, "malformed lines are rejected with ParseError", f"{why}: {text!r} -> {r!r}")
