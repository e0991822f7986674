from specs.common import *

class Box:
    def __init__(self):
        self.l = []
        self.d = {}
        self.n = 0

@lemma("S01", xs=ListOf(Int()))
def bad1(xs):
    r = []
    for x in xs:
        if len(r) < 1:
            r.append(x)
    prove(len(r) == len(xs), "bad1")

@lemma("S01", xs=ListOf(Int()))
def bad2(xs):
    r = []
    for x in xs:
        if not r:
            r.append(x)
    prove(len(r) == len(xs), "bad2")

@lemma("S01", xs=ListOf(Int()))
def bad3(xs):
    r = {}
    for x in xs:
        if "a" not in r:
            r["a"] = x
    prove(not xs or r["a"] == xs[-1], "bad3")

@lemma("S01", xs=ListOf(Int()))
def bad4(xs):
    r = Box()
    for x in xs:
        if r.n == 0:
            r.n = 1
            r.l.append(x)
    prove(len(r.l) == len(xs), "bad4")

@lemma("S01", xs=ListOf(Int()))
def bad5(xs):
    r = []
    for x in xs:
        if x not in r:
            r.append(x)
    prove(len(r) == len(xs), "bad5")

@lemma("S01", xs=ListOf(Int()))
def bad6(xs):
    r = []
    for x in xs:
        for y in r:
            assert y != x
        r.append(x)
    prove(True, "good")

@lemma("S01", xs=ListOf(Int()))
def bad7(xs):
    r = set()
    for x in xs:
        if x in r:
            return
        r.add(x)
    prove(len(r) == len(xs), "good7")

@lemma("S01", xs=ListOf(Int()))
def bad8(xs):
    r = []
    ys = list(xs)
    for x in ys:
        if len(ys) > 100:
            raise ValueError
        ys.append(x)
    prove(len(r) == 0, "good8")

@lemma("S01", xs=ListOf(Int()))
def bad9(xs):
    r = {"k": []}
    for x in xs:
        prove(len(r["k"]) == 0, "p9")
        r["k"].append(x)

@lemma("S01", xs=ListOf(Int()))
def good_text(xs):
    r = ""
    for x in xs:
        r += "ab" if x > 3 else "c"
    prove(r == "".join("ab" if x > 3 else "c" for x in xs), "text")

@lemma("S01", xs=Chars())
def good_text2(xs):
    r = "<"
    for x in xs:
        if x == "\n":
            r = r + "\\n"
            continue
        r += x
    prove(r == "<" + xs.replace("\n", "\\n"), "text2")

@lemma("S01", xs=ListOf(Int()))
def good_first(xs):
    r = []
    first = True
    for x in xs:
        if first:
            r.append(-1)
        first = False
        r.append(x)
    prove(r == ([-1] if xs else []) + xs, "first")

@lemma("S01", xs=ListOf(Int()))
def bad_first(xs):
    r = []
    first = True
    for x in xs:
        if first:
            r.append(-1)
        first = False
        r.append(x)
    prove(r == [-1] + xs, "bad first")

@lemma("S01", xs=ListOf(Int()))
def good_found(xs):
    found = False
    for x in xs:
        if x == 3:
            found = True
    prove(found == any(x == 3 for x in xs), "found")

@lemma("S01", xs=ListOf(Int()))
def good_count(xs):
    n = 0
    for x in xs:
        n += 2
    prove(n == 2 * len(xs), "count")

@lemma("S01", xs=ListOf(Int()))
def bad_count(xs):
    n = 0
    for x in xs:
        if x > 2:
            n += 2
    prove(n == 2 * len(xs), "bad count")

@lemma("S01", xs=ListOf(Int()))
def bad_max(xs):
    n = 0
    for x in xs:
        if x > n:
            n = x
    prove(n == 0, "bad max")

@lemma("S01", xs=ListOf(Int()))
def good_enum(xs):
    i = 0
    r = []
    for x in xs:
        r.append((i, x))
        i += 1
    prove(r == list(enumerate(xs)), "enum")

@lemma("S01", xs=ListOf(Bool()))
def flag_per_block(xs):
    l = []
    for x in xs:
        l.append(1)
        l.append(2)
    st = False
    out = []
    for y in l:
        if st:
            out.append(y)
            st = False
        elif y == 1:
            st = True
    prove(out == [2 for x in xs], "flag")

@lemma("S01", xs=ListOf(Int()))
def bad_closure(xs):
    n = 0
    def f():
        nonlocal n
        n += 1
        return n
    r = [f() for x in xs]
    prove(all(x == 1 for x in r), "bad closure")

@lemma("S01", xs=ListOf(Int()), ys=ListOf(Int()))
def bad_iter(xs, ys):
    it = iter(ys)
    r = []
    for x in xs:
        r.append(next(it, 0))
    prove(all(y == r[0] for y in r), "bad iter")

@lemma("S01", a=Int(), b=Int(), c=Int())
def live_remove(a, b, c):
    l = [1, 2, 3]
    r = []
    for x in l:
        r.append(x)
        if x == 1:
            l.remove(x)
    prove(r == [1, 3], "live")

@lemma("S01", a=Int())
def live_dict(a):
    d = {"a": 1, "b": a}
    try:
        for k in d:
            del d[k]
    except RuntimeError:
        prove(True, "raised")
    else:
        prove(False, "not raised")
    d = {"a": 1, "b": a}
    for k in d:
        d[k] = 2
    prove(d == {"a": 2, "b": 2}, "updated")


@lemma("S01", d=DictOf(Text(), Int()))
def dict_copy(d):
    e = dict(d)
    prove(e == d and e is not d, "copy")
    f = {k: v for k, v in d.items()}
    prove(f == d, "comprehension")
    g = {}
    for k, v in d.items():
        g[k] = v
    prove(g == d, "loop")
    prove(list(d) == [k for k, v in d.items()], "keys")
    prove(len(g) == len(d), "len")

@lemma("S01", d=DictOf(Text(), Int()), k=Text())
def dict_get(d, k):
    n = len(d)
    if k in d:
        prove(d.get(k) == d[k], "get")
        prove(any(x == k for x in d), "any")
        old = d[k]
        d[k] = old + 1
        prove(d[k] == old + 1 and len(d) == n, "set")
        del d[k]
        prove(k not in d and len(d) == n - 1, "del")
    else:
        prove(all(x != k for x in d), "all")
        prove(d.get(k, 5) == 5, "default")
        d[k] = 3
        prove(d[k] == 3 and len(d) == n + 1 and list(d)[-1] == k, "new")

@lemma("S01", d=DictOf(Text(), Int()), k=Text(), j=Text())
def dict_two(d, k, j):
    d[k] = 1
    d[j] = 2
    prove(d[k] == (2 if k == j else 1), "two")

@lemma("S01", d=DictOf(Text(), Int()), k=Text(), j=Text())
def bad_dict_two(d, k, j):
    d[k] = 1
    d[j] = 2
    prove(d[k] == 1, "bad two")

@lemma("S01", d=DictOf(Text(), Int()), k=Text())
def bad_dict_len(d, k):
    n = len(d)
    d[k] = 1
    prove(len(d) == n + 1, "bad len")

@lemma("S01", d=DictOf(Text(), Int()), k=Text())
def bad_dict_loop(d, k):
    g = {}
    for x, v in d.items():
        if k not in g:
            g[x] = v
    prove(g == d, "bad loop")

@lemma("S01", d=DictOf(Text(), Int()), k=Text())
def bad_dict_loop2(d, k):
    g = {}
    for x, v in d.items():
        g[k] = v
    prove(len(g) == len(d), "bad loop2")

@lemma("S01", d=DictOf(Text(), ListOf(Text())))
def dict_lists(d):
    g = {k: list(v) for k, v in d.items()}
    prove(g == d, "deep copy")
    prove(all(v is not d[k] for k, v in g.items()), "fresh lists")

@lemma("S01", d=DictOf(Text(), ListOf(Text())), k=Text())
def dict_lists2(d, k):
    g = {k: list(v) for k, v in d.items()}
    if k in g:
        prove(g[k] == d[k], "same list")
        g[k].append("x")
        prove(len(d[k]) + 1 == len(g[k]), "other list unchanged")
    prove((k in g) == (k in d), "same keys")


@lemma("S01", ts=ListOf(Text()))
def good_identity_of_elements(ts):
    xs = [[t] for t in ts]
    ys = list(xs)
    prove(all(x is y for x, y in zip(xs, ys)), "the same objects")
    prove(all(x is not y for x, y in zip(xs, [[t] for t in ts])), "other objects")
    for x in xs:
        x.append("q")
    prove(all(len(y) == 2 and y[0] == t for y, t in zip(ys, ts)), "each is changed once")
    if ts:
        prove(xs[0] is ys[0], "the same object")
        xs[0].append("r")
        prove(len(ys[0]) == 3, "seen through both")


@lemma("S01", ts=ListOf(Text()))
def bad_shared_object(ts):
    shared = []
    xs = [shared for t in ts]
    prove(all(x is not shared for x in xs), "separate objects")


@lemma("S01", ts=ListOf(Text()))
def bad_same_objects(ts):
    xs = [[t] for t in ts]
    ys = list(xs)
    prove(all(x is not y for x, y in zip(xs, ys)), "separate objects")


@lemma("S01", ts=ListOf(ListOf(Text())))
def bad_change_through_another_name(ts):
    ys = list(ts)
    for x in ts:
        x.append("q")
    if ys:
        prove(ys[0] == [], "unchanged")


PAIRS01 = ListOf(Tup(Opt(Int()), Text()))


def best_of(xs, better):
    best = None
    name = None
    for n, t in xs:
        if n is not None and (best is None or better(n, best)):
            best, name = n, t
    return best, name


@lemma("S01", xs=PAIRS01)
def good_best_element(xs):
    best, name = best_of(xs, lambda a, b: a > b)
    prove(implies(best is None, all(n is None for n, t in xs)), "nothing to choose from")
    prove(best is None or all(n is None or n <= best for n, t in xs), "the best one")
    for n, t in xs:
        if n is not None and n == best:
            prove(t == name, "the first of the best ones")
            break


@lemma("S01", xs=PAIRS01)
def bad_best_element_ties(xs):
    best, name = best_of(xs, lambda a, b: a >= b)
    for n, t in xs:
        if n is not None and n == best:
            prove(t == name, "the first of the best ones")
            break


@lemma("S01", xs=PAIRS01)
def bad_best_element_strict(xs):
    best, name = best_of(xs, lambda a, b: a > b)
    prove(best is None or all(n is None or n < best for n, t in xs), "strictly the best one")


@lemma("S01", xs=PAIRS01)
def bad_best_element_not_transitive(xs):
    best, name = best_of(xs, lambda a, b: a != b)
    prove(best is None or all(n is None or n <= best for n, t in xs), "the best one")


@lemma("S01", xs=PAIRS01)
def bad_best_element_absent(xs):
    best, name = best_of(xs, lambda a, b: a > b)
    prove(best is not None or len(xs) == 0, "there is one")
