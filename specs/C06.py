"""C06: component nesting survives and mismatched nesting is rejected"""
from specs.lines import *
from ics.contentline.container import DEFAULT_LINE_WRAP

NOTE = "for every name, number of items and depth (induction over the nesting) between trees and sequences of property lines; that lines survive being written and read is the subject of C04 and C05, the combination of both is bounded"
ASSUMPTIONS = []


LINE = Tup(Text(nonempty=True), Text("\r\n"))
ITEM = Tup(Bool(), LINE, SubContainer(lambda r: mktree(rand_container(r, 2))), Text())
USES = ["nesting", "writing"]


def item_of(t):
    """line or component, and the name its BEGIN is written with"""
    is_line, (n, v), sub, name = t
    if is_line:
        return (ContentLine(n, {}, v), None)
    return (sub, name if name.upper() == sub.name else sub.name)


def no_markers(ts):
    """no line is named BEGIN or END"""
    return all(n.upper() not in ("BEGIN", "END") for is_line, (n, v), sub, name in ts if is_line)


def marker(n, value):
    return ContentLine(n, value=value)


@lemma("C06", ts=ListOf(ITEM))
def top_level_items(ts):
    ContentLine("X").value = ""
    assume(no_markers(ts))
    items = [item_of(t) for t in ts]
    got = list(Parser.contentlines_to_containers(lines_of_items(items)))
    prove(len(got) == len(items), "as many items as written")
    prove(all(x == y for x, (y, n) in zip(got, items)), "the same items in the same order")


@lemma("C06", ts=ListOf(ITEM), name=Text(nonempty=True), end=Text(), other=Bool(), more=ListOf(Text()))
def a_component(ts, name, end, other, more):
    """for a component whose nested components are read as claimed (induction over the depth of nesting)"""
    ContentLine("X").value = ""
    assume(no_markers(ts))
    items = [item_of(t) for t in ts]
    end = end if other else name
    tail = [marker("END", end)] + [ContentLine("MORE", {}, v) for v in more]
    it = lines_of_items(items, tail)
    try:
        c = Parser.contentlines_to_container(name, it)
    except ParseError:
        prove(end.upper() != name.upper(), "matching nesting is accepted")
    else:
        prove(end.upper() == name.upper(), "an END of another component is rejected")
        prove(type(c) is Container and c.name == name.upper(), "the component with its name")
        prove(len(c) == len(items) and all(x == y for x, (y, n) in zip(c.data, items)), "the same items in the same order")
        rest = list(it)
        prove(len(rest) == len(more) and all(x.value == v for x, v in zip(rest, more)), "nothing after its END is consumed")


def rejected(f):
    try:
        f()
    except ParseError:
        return True
    return False


@lemma("C06", cases={"how": ["never ended", "nested"]}, ts=ListOf(ITEM), us=ListOf(ITEM), name=Text(nonempty=True), inner=Text(nonempty=True))
def ill_formed_components(how, ts, us, name, inner):
    ContentLine("X").value = ""
    assume(no_markers(ts))
    items = [item_of(t) for t in ts]
    if how == "nested":
        items = items + [(None, inner)] + [item_of(t) for t in us]
    prove(rejected(lambda: Parser.contentlines_to_container(name, lines_of_items(items))), "mismatched nesting is rejected")
    open_at_top = how == "never ended" or rejected(lambda: list(Parser.contentlines_to_containers(lines_of_items(items))))
    prove(open_at_top, "mismatched nesting is rejected at the top level")


@lemma("C06", ts=ListOf(ITEM), name=Text(nonempty=True), newline=Bool(), folded=Bool())
def a_component_is_written(ts, name, newline, folded):
    """enclosed in its BEGIN and END lines, with all of its items in order"""
    ContentLine("X").value = ""
    c = Container(name, [item_of(t)[0] for t in ts])
    items = list(c.data)
    if folded:
        text = c.serialize(newline=newline)
        inner = "".join(["".join(x.serialize_iter(newline=True)) for x in items])
    else:
        text = c.serialize(newline=newline, wrap=None)
        inner = "".join(["".join(x.serialize_iter(newline=True, wrap=None)) for x in items])
    prove(text == "BEGIN:" + c.name + "\r\n" + inner + "END:" + c.name + ("\r\n" if newline else ""), "BEGIN, the items in order, END")
    prove(text == "".join(c.serialize_iter(newline, DEFAULT_LINE_WRAP if folded else None)), "iterating gives the same text")
    prove(len(c) == len(items) and all(x is y for x, y in zip(c.data, items)), "serializing changes nothing")


@lemma("C06", mode="bounded", weight=3, trees=Native(lambda r: [rand_tree(r, r.choice([1, 2, 5])) for _ in range(r.choice([1, 1, 2, 3]))]))
def parsing_inverts_serializing(trees):
    xs = [mktree(t) for t in trees]
    text = "\r\n".join(x.serialize() for x in xs)
    ys = list(string_to_containers(text))
    prove([plain(y) for y in ys] == [plain_spec(t) for t in trees], "same order and nesting at every depth")
    prove(ys == xs, "equal containers")
    zs = list(lines_to_containers("".join(x.serialize(newline=True) for x in xs).splitlines(True) if not any(c in text for c in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") else text.split("\r\n")))
    prove([plain(z) for z in zs] == [plain_spec(t) for t in trees], "the same from lines")
    for x, t in zip(xs, trees):
        prove(plain(string_to_container(x.serialize())) == plain_spec(t), "the same for a single one")
        prove(plain(x) == plain_spec(t), "serializing changes nothing")


def flat(t):
    """unfolded lines of a tree"""
    if t[0] == "L":
        return [mkline(t[1]).serialize(wrap=None)]
    return ["BEGIN:" + t[1]] + [l for x in t[2] for l in flat(x)] + ["END:" + t[1]]


@lemma("C06", mode="bounded", weight=3, tree=Native(lambda r: rand_container(r, r.choice([1, 2, 4]))), pos=Int(0, 100), other=Choice("OTHER", "X", "", "{}S", " {}", "{} ", "{}\t", "\x0b{}", "X-{}", "{0}{0}", "{}:", "\\{}", "\"{}\"", "{}\u0131", None), case=Bool())
def mismatched_nesting_is_rejected(tree, pos, other, case):
    lines = flat(tree)
    ends = [i for i, l in enumerate(lines) if l.startswith("END:")]
    i = ends[pos % len(ends)]
    prove(plain(lines_to_container(lines)) == plain_spec(tree), "matching nesting is accepted")
    swapped = [l.swapcase() if case and j % 2 and l.startswith(("END:", "BEGIN:")) else l for j, l in enumerate(lines)]
    r = lines_to_container(swapped)
    prove(plain(r) == plain_spec(tree), "names match case-insensitively")
    name = lines[i][4:]
    other = name[:-1] if other is None else other.format(name)
    for bad, why in ((lines[:i] + ["END:" + other] + lines[i + 1:], "an END of another component"), (lines[:i] + lines[i + 1:], "a component that is never ended"), (lines[:i], "a truncated component")):
        if why == "a component that is never ended" and lines[i] in lines[i + 1:]:
            # another END of the same name takes its place; the outermost stays open
            pass
        try:
            r = list(lines_to_containers(bad))
        except ParseError:
            r = None
        prove(r is None, "mismatched nesting is rejected with ParseError", f"{why}: {bad!r} -> {r!r}")
