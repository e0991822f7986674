"""Reference implementations of library functions as plain Python, interpreted where the native function can't run on
symbolic arguments (trusted to agree with the library; differential tests in tools/selftest.py)."""
import re


class Match:
    """stand-in for a match object with one group"""
    def __init__(self, whole, group):
        self.whole, self.g = whole, group

    def group(self, n=0):
        return self.g if n == 1 else self.whole


def make_match(whole, group):
    return Match(whole, group)


def sub_literal_any(lit, repl, s):
    r"""re.sub(re.escape(lit) + "(.?)", repl, s) for a single character lit other than a line feed"""
    out = []
    it = iter(s)
    for c in it:
        if c == lit:
            g = ""
            rest = ""
            try:
                n = next(it)
                if n == "\n":
                    rest = n
                else:
                    g = n
            except StopIteration:
                pass
            out.append(repl(make_match(c + g, g)))
            out.append(rest)
        else:
            out.append(c)
    return "".join(out)
