"""C02: TEXT value lists survive joining and splitting"""
from specs.common import *
from ics.valuetype.text import TextConverter

LEVEL = "exploration"
NOTE = "bounded: sampled lists and values (boundary-biased over separators and backslash runs)"
ASSUMPTIONS = ["values contain no line feed (they are parts of content lines)"]
T = TextConverter


@lemma("C02", mode="bounded", weight=3, xs=ListOf(Text()))
def splitting_inverts_joining(xs):
    """bounded: sampled lists"""
    assume(len(xs) > 0)
    es = [T.serialize(x) for x in xs]
    v = T.join_value_list(es)
    prove(list(T.split_value_list(v)) == es, "the same escaped strings in the same order")
    prove([T.parse(p) for p in T.split_value_list(v)] == xs, "the same strings in the same order")


def scan(s):
    """(positions of unescaped commas, ends with an unpaired backslash)"""
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            if i + 1 == len(s):
                return out, True
            i += 2
            continue
        if s[i] == ",":
            out.append(i)
        i += 1
    return out, False


@lemma("C02", mode="bounded", weight=3, v=Chars(exclude="\n\r", alphabet=list("\\\\\\,,,;anN\"")))
def splits_exactly_at_unescaped_commas(v):
    """bounded: sampled values"""
    cuts, dangling = scan(v)
    try:
        pieces = list(T.split_value_list(v))
    except ValueError:
        prove(dangling, "only an unpaired backslash at the end is rejected")
        return
    prove(not dangling, "an unpaired backslash at the end is rejected")
    prove(",".join(pieces) == v, "re-joining the pieces yields the value")
    exp, last = [], 0
    for c in cuts:
        exp.append(v[last:c])
        last = c + 1
    prove(pieces == exp + [v[last:]], "split exactly at the unescaped commas")
