"""C27: containers only ever hold lines and containers"""
from specs.lines import *

ASSUMPTIONS = []
NOTE = "single operations on containers of any length are proved; sequences of operations with slices and indexes are sampled (bounded)"

ITEM = Tup(Bool(), Text(nonempty=True), Text())
ITEMS = ListOf(ITEM)
WRONG = Choice(None, 1, "BEGIN:X", ("A", "b"))


def make(t):
    is_line, name, value = t
    if is_line:
        return ContentLine(name, value=value)
    return Container(name, [])


def made(ts):
    return [make(t) for t in ts]


def refused(op):
    try:
        op()
    except TypeError:
        return True
    return False


def same_items(c, items):
    """exactly these objects, in this order"""
    return len(c.data) == len(items) and all(x is y for x, y in zip(c.data, items))


@lemma("C27", ts=ITEMS, t=ITEM)
def append_one(ts, t):
    items, x = made(ts), make(t)
    c = Container("X", items)
    prove(c.data == items and c.data is not items, "constructing keeps exactly the items")
    c.append(x)
    prove(c.data == items + [x], "appending like on a list")
    c = Container("X", items)
    c.insert(0, x)
    prove(c.data == [x] + items, "inserting like on a list")


@lemma("C27", ts=ITEMS, us=ITEMS)
def extend_by_many(ts, us):
    items, more = made(ts), made(us)
    c = Container("X", items)
    c.extend(more)
    prove(c.data == items + more, "extending like on a list")
    c = Container("X", items)
    c += iter(more)
    prove(c.data == items + more, "extending by an iterator like on a list")


@lemma("C27", ts=ITEMS, us=ITEMS, vs=ITEMS, wrong=WRONG)
def wrong_items_are_refused(ts, us, vs, wrong):
    items = made(ts)
    bad = made(us) + [wrong] + made(vs)
    c = Container("X", items)
    prove(refused(lambda: c.append(wrong)) and c.data == items, "appending something else is refused")
    prove(refused(lambda: c.insert(0, wrong)) and c.data == items, "inserting something else is refused")
    prove(refused(lambda: c.extend(bad)) and c.data == items, "extending by something else is refused")
    prove(refused(lambda: c.extend(iter(bad))) and c.data == items, "extending by an iterator over something else is refused")
    prove(refused(lambda: Container("X", bad)), "constructing with something else is refused")
    prove(refused(lambda: c.__setitem__(slice(None), bad)) and c.data == items, "assigning a slice of something else is refused")
    if ts:
        prove(refused(lambda: c.__setitem__(0, wrong)) and c.data == items, "assigning something else is refused")
        prove(refused(lambda: c.__setitem__(-1, wrong)) and c.data == items, "assigning something else is refused")


@lemma("C27", ts=ITEMS, us=ITEMS, vs=ITEMS, t=ITEM, s=ITEM)
def single_positions(ts, us, vs, t, s):
    """between two runs of items of any length"""
    before, x, y, after = made(ts), make(t), make(s), made(vs)
    more = made(us)
    n = len(before)

    def fresh():
        return Container("X", before + [x] + after)
    c = fresh()
    prove(c[n] is x and c.name == "X", "reading an index like on a list")
    c = fresh()
    c[n] = y
    prove(c.data == before + [y] + after, "setting an index like on a list")
    c = fresh()
    del c[n]
    prove(c.data == before + after, "deleting an index like on a list")
    c = fresh()
    prove(c.pop(n) is x and c.data == before + after, "popping like on a list")
    c = fresh()
    c.insert(n, y)
    prove(c.data == before + [y, x] + after, "inserting like on a list")
    c = fresh()
    c[n:] = more
    prove(c.data == before + more, "setting a slice like on a list")
    c = fresh()
    c[:n] = iter(more)
    prove(c.data == more + [x] + after, "setting a slice like on a list")
    c = fresh()
    del c[n:]
    prove(c.data == before, "deleting a slice like on a list")
    c = fresh()
    del c[:n]
    prove(c.data == [x] + after, "deleting a slice like on a list")
    c = fresh()
    d = c[n:]
    prove(type(d) is Container and d.name == "X" and d.data == [x] + after and c.data == before + [x] + after, "slicing like on a list")
    d = c[:n]
    prove(type(d) is Container and d.name == "X" and d.data == before and c.data == before + [x] + after, "slicing like on a list")
    d = c[:]
    prove(type(d) is Container and d.name == "X" and d.data == c.data and d.data is not c.data, "slicing like on a list")
    c.clear()
    prove(c.data == [], "clearing like on a list")


@lemma("C27", ts=ITEMS, t=ITEM, s=ITEM)
def ends(ts, t, s):
    some, x, y = made(ts), make(t), make(s)
    c = Container("X", some + [x])
    prove(c[-1] is x, "reading the last item like on a list")
    c[-1] = y
    prove(c.data == some + [y], "setting the last item like on a list")
    prove(c.pop() is y and c.data == some, "popping the last item like on a list")
    c = Container("X", [x] + some)
    prove(c[0] is x, "reading the first item like on a list")
    c[0] = y
    prove(c.data == [y] + some, "setting the first item like on a list")
    prove(c.pop(0) is y and c.data == some, "popping the first item like on a list")
    c = Container("X", [x] + some)
    del c[0]
    prove(c.data == some, "deleting the first item like on a list")
    c = Container("X", some + [x])
    del c[-1]
    prove(c.data == some, "deleting the last item like on a list")
    c[:0] = [x, y]
    prove(c.data == [x, y] + some, "setting a slice like on a list")
    c[0:2] = [y]
    prove(c.data == [y] + some, "setting a slice like on a list")
    c[1:1] = [x, y]
    prove(c.data == [y, x, y] + some, "setting a slice like on a list")
    prove(c[:2].data == [y, x] and c[2:].data == [y] + some, "slicing like on a list")
    del c[1:3]
    prove(c.data == [y] + some, "deleting a slice like on a list")


@lemma("C27", ts=ITEMS, key=Text())
def items_by_name(ts, key):
    items = made(ts)
    c = Container("X", items)
    prove(list(c[key]) == [x for x in items if x.name == key], "exactly the items of that name in order")
    prove(c.data == items, "looking up changes nothing")
    del c[key]
    prove(c.data == [x for x in items if x.name != key], "deleting by name keeps exactly the others in order")


# ------------------------------------------------------------------ sequences of operations, sampled
def _rand_ops(r):
    ops = []
    for _ in range(r.randint(1, 8)):
        op = r.choice(["append", "insert", "extend", "iadd", "set", "setslice", "setslice", "del", "delslice", "delname", "pop", "remove", "reverse", "clear", "getslice", "getname", "find"])
        idx = r.randint(-5, 5)
        sl = (r.choice([None, r.randint(-4, 4)]), r.choice([None, r.randint(-4, 4)]), r.choice([None, None, 1, 2, -1]))
        xs = [_rand_item(r) for _ in range(r.choice([0, 1, 2, 3]))]
        ops.append((op, idx, sl, xs, r.random() < .15, r.choice(["A", "B", "a", "C"])))
    return ops


def _rand_item(r):
    return (r.random() < .6, r.choice(["A", "B", "a"]), r.choice(["1", "2"]))


def build(x):
    return ContentLine(x[1], value=x[2]) if x[0] else Container(x[1], [ContentLine("I", value=x[2])] * (x[2] == "2"))


@lemma("C27", mode="bounded", start=Native(lambda r: [_rand_item(r) for _ in range(r.choice([0, 1, 2, 4]))]), op=Choice("append", "insert", "extend", "iadd", "set", "setslice", "slice of itself", "extended by itself"), at=Native(lambda r: r.randint(-5, 5)))
def containers_as_items(start, op, at):
    """a container is one item, also when it is added to itself"""
    ref = [build(x) for x in start]
    c = Container("X", ref)
    for n, x in enumerate([c, Container("Y", ref), Container("X", []), c]):
        if op == "append":
            c.append(x)
            ref.append(x)
        elif op == "insert":
            c.insert(at, x)
            ref.insert(at, x)
        elif op == "extend":
            c.extend([x, x])
            ref.extend([x, x])
        elif op == "iadd":
            c += [x]
            ref += [x]
        elif op == "set":
            assume(ref)
            c[at % len(ref)] = x
            ref[at % len(ref)] = x
        elif op == "setslice":
            c[at:at + 1] = [x]
            ref[at:at + 1] = [x]
        elif op == "slice of itself":
            c[:1] = c
            ref[:1] = list(ref)
        elif n == 0:
            c.extend(c)
            ref.extend(list(ref))
        prove(same_items(c, ref), "the same items as a plain list")


@lemma("C27", mode="bounded", weight=3, start=Native(lambda r: [_rand_item(r) for _ in range(r.choice([0, 1, 2, 4, 6]))]), ops=Native(_rand_ops))
def like_a_list(start, ops):
    ref = [build(x) for x in start]
    c = Container("X", ref)
    prove(c.name == "X" and same_items(c, ref) and c.data is not ref, "constructing keeps exactly the items")
    for op, idx, sl, xs, wrong, name in ops:
        xs = [build(x) for x in xs]
        s = slice(*sl)
        before = list(c.data)
        bad = [1, "A:b", None, c, ("A", "b")][abs(idx) % 3]

        def apply(l, xs):
            if op == "append":
                l.append(xs[0] if xs else build((True, "Z", "")))
            elif op == "insert":
                l.insert(idx, xs[0] if xs else build((True, "Z", "")))
            elif op == "extend":
                l.extend(iter(xs))
            elif op == "iadd":
                l += xs
            elif op == "set":
                l[idx] = xs[0] if xs else build((True, "Z", ""))
            elif op == "setslice":
                l[s] = iter(xs)
            elif op == "del":
                del l[idx]
            elif op == "delslice":
                del l[s]
            elif op == "pop":
                return l.pop(idx)
            elif op == "remove":
                l.remove(xs[0] if xs else 1)
            elif op == "reverse":
                l.reverse()
            elif op == "clear":
                l.clear()
            elif op == "find":
                return (xs[0] in l, l.count(xs[0]), l.index(xs[0]), len(l), list(reversed(l))) if xs else list(l)
            return None

        if wrong and op in ("append", "insert", "extend", "iadd", "set", "setslice"):
            ys = xs + [bad] if op in ("extend", "iadd", "setslice") else [bad]
            try:
                apply(c, ys)
                ok = False
            except TypeError:
                ok = True
            prove(ok, "something else is refused with TypeError")
            prove(same_items(c, before), "a refused operation leaves the container unchanged")
            continue
        if op == "getslice":
            got = c[s]
            prove(type(got) is Container and got.name == "X" and same_items(got, ref[s]) and got.data is not c.data, "slicing returns a container of the same name with exactly those items")
        elif op == "getname":
            got = c[name]
            want = [x for x in ref if x.name == name]
            prove(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "exactly the items of that name in order")
        elif op == "delname":
            del c[name]
            ref = [x for x in ref if x.name != name]
        else:
            xs2 = xs or [build((True, "Z", ""))]
            try:
                r1 = ("value", apply(ref, xs2))
            except (IndexError, ValueError) as e:
                r1 = ("error", type(e))
            try:
                r2 = ("value", apply(c, xs2))
            except (IndexError, ValueError) as e:
                r2 = ("error", type(e))
            prove(r1 == r2, "the same result as on a plain list")
        prove(same_items(c, ref), "the same items as a plain list")
        prove(c.name == "X", "the name is kept")
        prove(all(isinstance(x, (ContentLine, Container)) for x in c.data), "only lines and containers")
