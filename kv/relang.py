"""Regular-expression literals: well-formedness and equality of what they match.

A pattern is compiled to a finite automaton whose alphabet is the characters plus one
opening and one closing marker per capture group, so that two patterns are equal
exactly when they match the same strings with the same groups.  Only the common
subset (literals, classes, digits, repeats, groups, alternatives, whole-string
anchors) is handled; anything else is undecided."""
import re
import warnings

from .world import Undecided

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp

ANY = "\U0010ffff"      # stands for every character no pattern mentions


def wellformed(pat):
    """does the pattern compile (and use only what both engines share)?"""
    try:
        p = sp.parse(pat)
    except re.error:
        return False
    return not any(str(op) in ("ASSERT", "ASSERT_NOT", "GROUPREF", "GROUPREF_EXISTS") for op in ops(p))


def ops(p):
    for op, av in p:
        yield op
        n = str(op)
        if n == "SUBPATTERN":
            yield from ops(av[3])
        elif n in ("MAX_REPEAT", "MIN_REPEAT"):
            yield from ops(av[2])
        elif n == "BRANCH":
            for x in av[1]:
                yield from ops(x)


def groups(pat):
    """capture groups that take part in every match"""
    def must(p):
        out = set()
        for op, av in p:
            n = str(op)
            if n == "SUBPATTERN":
                if av[0] is not None:
                    out.add(av[0])
                out |= must(av[3])
            elif n in ("MAX_REPEAT", "MIN_REPEAT"):
                if av[0] >= 1:
                    out |= must(av[2])
            elif n == "BRANCH":
                out |= set.intersection(*[must(x) for x in av[1]])
        return out
    return must(sp.parse(pat))


class NFA:
    def __init__(self, pat):
        self.eps, self.edge = [], []
        self.marks = []
        p = sp.parse(pat)
        items = list(p)
        start, end = False, False
        if items and str(items[0][0]) == "AT" and str(items[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            start, items = True, items[1:]
        if items and str(items[-1][0]) == "AT" and str(items[-1][1]) in ("AT_END", "AT_END_STRING"):
            end, items = True, items[:-1]
        self.s = self.new()
        a = self.s
        if not start:
            self.edge[a].append((None, a))
        b = self.seq(items, a)
        if not end:
            self.edge[b].append((None, b))
        self.f = b

    def new(self):
        self.eps.append([])
        self.edge.append([])
        return len(self.eps) - 1

    def seq(self, items, a):
        for op, av in items:
            a = self.one(str(op), av, a)
        return a

    def one(self, n, av, a):
        if n == "LITERAL":
            b = self.new()
            self.edge[a].append((frozenset([chr(av)]), b))
            return b
        if n in ("NOT_LITERAL", "ANY", "IN"):
            b = self.new()
            self.edge[a].append((charset(n, av), b))
            return b
        if n == "SUBPATTERN":
            g, _, _, p = av
            if g is not None:
                b = self.new()
                self.edge[a].append((("open", g), b))
                a = b
            a = self.seq(p, a)
            if g is not None:
                b = self.new()
                self.edge[a].append((("close", g), b))
                a = b
            return a
        if n == "BRANCH":
            e = self.new()
            for x in av[1]:
                b = self.new()
                self.eps[a].append(b)
                self.eps[self.seq(x, b)].append(e)
            return e
        if n == "MAX_REPEAT":
            lo, hi, p = av
            for _ in range(lo):
                a = self.seq(p, a)
            if str(hi) == "MAXREPEAT" or hi > 1000:
                b = self.new()
                self.eps[a].append(b)
                c = self.seq(p, b)
                self.eps[c].append(b)
                return b
            e = self.new()
            self.eps[a].append(e)
            for _ in range(hi - lo):
                a = self.seq(p, a)
                self.eps[a].append(e)
            return e
        raise Undecided("regular expression construct %s" % n)

    def close(self, ss):
        out, todo = set(ss), list(ss)
        while todo:
            for y in self.eps[todo.pop()]:
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def step(self, ss, c):
        return self.close({b for a in ss for l, b in self.edge[a] if (l == c if isinstance(c, tuple) else (l is None or (not isinstance(l, tuple) and (c in l if isinstance(l, frozenset) else l(c)))))})


def charset(n, av):
    if n == "ANY":
        return lambda c: c != "\n"
    if n == "NOT_LITERAL":
        return lambda c: c != chr(av)
    neg, parts = False, []
    for op, x in av:
        o = str(op)
        if o == "NEGATE":
            neg = True
        elif o == "LITERAL":
            parts.append(lambda c, x=x: c == chr(x))
        elif o == "RANGE":
            parts.append(lambda c, x=x: x[0] <= ord(c) <= x[1])
        elif o == "CATEGORY" and str(x) in ("CATEGORY_DIGIT", "CATEGORY_SPACE", "CATEGORY_WORD", "CATEGORY_NOT_DIGIT"):
            f = {"CATEGORY_DIGIT": lambda c: c in "0123456789", "CATEGORY_NOT_DIGIT": lambda c: c not in "0123456789",
                 "CATEGORY_SPACE": lambda c: c in " \t\n\r\f\v", "CATEGORY_WORD": lambda c: c.isalnum() or c == "_"}[str(x)]
            parts.append(f)
        else:
            raise Undecided("regular expression class %s" % o)
    return lambda c: any(f(c) for f in parts) != neg


def difference(p1, p2):
    """a string (with group marks) only one of the patterns matches, or None"""
    a, b = NFA(p1), NFA(p2)
    sigma = sorted({chr(i) for i in range(9, 127)}) + [ANY]
    marks = sorted({l for n in (a, b) for es in n.edge for l, _ in es if isinstance(l, tuple)})
    s0 = (a.close({a.s}), b.close({b.s}))
    seen, todo = {s0: ""}, [s0]
    while todo:
        x = todo.pop(0)
        if (a.f in x[0]) != (b.f in x[1]):
            return seen[x]
        for c in marks + sigma:
            y = (a.step(x[0], c), b.step(x[1], c))
            if (y[0] or y[1]) and y not in seen:
                seen[y] = seen[x] + (({"open": "<", "close": ">"}[c[0]]) if isinstance(c, tuple) else "?" if c == ANY else c)
                todo.append(y)
                if len(seen) > 4000:
                    raise Undecided("regular expression too large")
    return None
