"""Texts made by formatting, and reading them back.

text(part, ...) with parts str(literal), dec(n) (an integer in decimal) and flt(x) (a float
as printed, which reads back as the same float).  format!, Display and ToString build
such texts; parsing and matching with a pattern take them apart.  Loaded only where the
property is about shown texts: elsewhere formatted text stays opaque."""
from . import terms as t
from . import world as w
from . import interp as I
from . import models
from .terms import mk, A, C, is_const, TRUE, FALSE, UNIT
from .world import Undecided, refval, mkfld, mkadt, opq, seqlen
from .models import model, deep
from .serde import text_of, text, okr, err, append

try:
    import re._parser as sp
except ImportError:
    import sre_parse as sp

FMT = "core::fmt::"


def intname(W, ty):
    x = W.types[ty]
    return x["s"] if x["k"] == "int" else None


def display(c, v, ty):
    """parts of the text Display gives for a value; Undecided when it is not modelled"""
    W, ctx = c.W, c.ctx
    while W.is_ref(ty) and W.types[ty]["k"] in ("ref", "ptr"):
        ty = W.pointee(ty)
    v = deep(ctx, v)
    if intname(W, ty):
        return [mk("str", str(v.a[0]))] if is_const(v) else [mk("dec", v)]
    s = W.types[ty]["s"]
    if s in ("f32", "f64"):
        return [mk("flt", v)]
    if s in ("str", "alloc::string::String"):
        ps = text_of(c, v)
        if ps is None:
            raise Undecided("unknown text is shown")
        return ps
    for i, f in enumerate(W.fns):
        if f.get("impl_trait") == "core::fmt::Display" and f.get("name") == "fmt" and f.get("impl_self") == s and f.get("body"):
            f_ = ctx.ref_to(mk("text"))
            c.prog.call(ctx, i, [ctx.ref_to(v), f_], None, f["body"]["locals"][0], c.site)
            ps = text_of(c, f_)
            if ps is not None:
                return ps
    raise Undecided("how %s is shown" % s)


@model(*["core::fmt::rt::Argument::<'_>::new_display"])
def _(c):
    return mk("fmtarg", c.prog.freeze(c.ctx, c.v(0)), c.m["args"][0] if c.m.get("args") else c.W.pointee(c.argtys[0]))


def template(b):
    """pieces of a format template: ('s', text) and ('a', index, options); no options for a plain {}"""
    out, i, nxt = [], 0, 0

    def num(k):
        nonlocal i
        r = int.from_bytes(bytes(b[i:i + k]), "little")
        i += k
        return r
    while i < len(b) and b[i] != 0:
        n = b[i]
        i += 1
        if n < 0x80 or n == 0x80:
            k = n if n < 0x80 else num(2)
            out.append(("s", bytes(b[i:i + k]).decode()))
            i += k
        else:
            flags = num(4) if n & 1 else 0x60000020
            width = num(2) if n & 2 else None
            prec = num(2) if n & 4 else None
            ix = num(2) if n & 8 else nxt
            nxt = ix + 1
            out.append(("a", ix, (flags, width, prec, bool(n & 0x30)) if n & 0x37 else None))
    return out


def padded(c, ps, opt):
    """parts of a shown value under formatting options"""
    flags, width, prec, indirect = opt
    if indirect or flags & 0x07800000 & ~(1 << 24) or len(ps) != 1:
        raise Undecided("formatting options")
    p = ps[0]
    if p.op == "flt" and prec is not None and width is None:
        return [mk("fltp", p.a[0], prec)]
    if p.op == "str" and p.a[0].isdigit():
        p = mk("dec", C(int(p.a[0])))
    if p.op != "dec" or c.ctx.facts.bounds(p.a[0], 3)[0] < 0:
        raise Undecided("formatting options")
    sign = "+" if flags & 1 << 21 else ""
    out = [mk("str", sign), p] if sign else [p]
    if width is None or width - len(sign) <= 1 or c.ctx.branch(t.le(C(10 ** (width - len(sign) - 1)), p.a[0])):
        return out
    # at least one fill character; how many makes no difference to a reader
    if flags & 1 << 24:
        return [mk("str", sign + "0"), p]
    fill = mk("str", chr(flags & 0x1fffff))
    align = flags >> 29 & 3
    return [fill] + out if align in (1, 3) else out + [fill] if align == 0 else [fill] + out + [fill]


@model("core::fmt::Arguments::<'a>::new")
def _(c):
    tp, args = c.v(0), c.v(1)
    n = seqlen(tp)
    if not is_const(n):
        raise Undecided("format template")
    b = []
    for i in range(n.a[0]):
        x = deep(c.ctx, w.mkat(tp, C(i)))
        if not is_const(x):
            raise Undecided("format template")
        b.append(x.a[0])
    parts = []
    for p in template(b):
        if p[0] == "s":
            parts.append(mk("str", p[1]))
            continue
        a = deep(c.ctx, w.mkat(args, C(p[1])))
        if a.op != "fmtarg":
            raise Undecided("format argument")
        ps = display(c, a.a[0], a.a[1])
        parts += padded(c, ps, p[2]) if p[2] else ps
    return text(*parts)


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def _(c):
    return c.v(0)


@model("alloc::fmt::format")
def _(c):
    ps = text_of(c, c.v(0))
    return text(*ps) if ps is not None else c.opq("fmt")


@model("core::fmt::Formatter::<'a>::write_fmt", "core::fmt::Formatter::<'a>::write_str", "core::fmt::Formatter::<'a>::pad",
       "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str", "core::fmt::Write::write_str", "core::fmt::Write::write_fmt")
def _(c):
    if not append(c, c.a[0], text_of(c, c.v(1))):
        raise Undecided("writing into an unknown text")
    return okr(c, UNIT)


def shows(c):
    return mk("text", *display(c, c.v(0), c.W.pointee(c.argtys[0])))


@model("<T as alloc::string::ToString>::to_string", "<str as alloc::string::ToString>::to_string", "<alloc::string::String as alloc::string::ToString>::to_string")
def _(c):
    return text(*display(c, c.v(0), c.m["args"][0] if c.m.get("args") else c.W.pointee(c.argtys[0])))


def fmt_num(c):
    ps = display(c, c.v(0), c.W.pointee(c.argtys[0]))
    if not append(c, c.a[1], ps):
        raise Undecided("writing into an unknown text")
    return okr(c, UNIT)


import re
models.PAT.insert(0, (re.compile(r"^core::fmt::.*<impl core::fmt::Display for (u|i)(8|16|32|64|128|size)>::fmt$|^core::fmt::float::<impl core::fmt::Display for f(32|64)>::fmt$|^<(str|alloc::string::String) as core::fmt::Display>::fmt$"), fmt_num))


# ---------------------------------------------------------------- reading
_parse_result = models.parse_result


def digits(p):
    return p.op == "dec" or p.op == "str" and p.a[0].isdigit()


def parse_result(c, s, d, okt):
    s = deep(c.ctx, s)
    if s.op not in ("text", "str"):
        return _parse_result(c, s, d, okt)
    W, ctx = c.W, c.ctx
    ps = text_of(c, s)
    bad = lambda: mkadt(d, 1, opq("app", "ParseError", s, ty=W.types[d]["args"][1]))
    nm = W.types[okt]["s"]
    if W.is_int(okt):
        if len(ps) == 2 and ps[0].op == "str" and ps[1].op == "dec" and re.fullmatch("[+]?0*", ps[0].a[0]):
            ps = ps[1:]
        if len(ps) == 1 and ps[0].op == "dec":
            x = ps[0].a[0]
            lo, hi = W.irange(okt)
            if ctx.branch(t.le(C(lo), x)) and ctx.branch(t.le(x, C(hi))):
                return mkadt(d, 0, x)
            return bad()
        if all(p.op == "str" for p in ps):
            z = "".join(p.a[0] for p in ps)
            lo, hi = W.irange(okt)
            if re.fullmatch(r"[+]?[0-9]+" if lo >= 0 else r"[+-]?[0-9]+", z, re.A) and lo <= int(z) <= hi:
                return mkadt(d, 0, C(int(z)))
            return bad()
        if any(p.op in ("flt", "fltp") for p in ps):
            raise Undecided("integer read from a float")
        lit = [p.a[0] for p in ps if p.op == "str"]
        if any(ch not in "0123456789" for z in lit for ch in z):
            first = ps[0].op == "str" and ps[0].a[0] in ("+", "-")
            if not first or len(lit) > 1:
                return bad()
        raise Undecided("number read from several parts")
    if nm in ("f32", "f64") and len(ps) == 1 and ps[0].op == "flt":
        return mkadt(d, 0, ps[0].a[0])
    if nm in ("f32", "f64"):
        lit = "".join(p.a[0] for p in ps if p.op == "str")
        if any(ch not in "0123456789.+-eEinfaNty" for ch in lit):
            return bad()
        if len(ps) == 1 and ps[0].op == "fltp" and ps[0].a[1] < 3:
            return mkadt(d, 0, mk("app", "decimals", ps[0].a[0], ps[0].a[1], ty=okt))
    raise Undecided("%s read from a formatted text" % nm)


models.parse_result = parse_result


def elements(pat):
    """a pattern as a flat list: ('lit', ch), ('digits', lo, hi), ('open', g), ('close', g); anchors (begin, end)"""
    out = []
    begin = end = False

    def isdigit(av):
        if len(av) != 1:
            return False
        k, x = av[0]
        if str(k) == "IN":
            return len(x) == 1 and (str(x[0][1]) == "CATEGORY_DIGIT" and str(x[0][0]) == "CATEGORY" or str(x[0][0]) == "RANGE" and x[0][1] == (48, 57))
        return False

    def go(p):
        nonlocal begin, end
        for op, av in p:
            n = str(op)
            if n == "AT" and str(av) in ("AT_BEGINNING", "AT_BEGINNING_STRING") and not out:
                begin = True
            elif n == "AT" and str(av) in ("AT_END", "AT_END_STRING"):
                out.append(("end",))
                end = True
            elif n == "LITERAL":
                out.append(("lit", chr(av)))
            elif n == "SUBPATTERN":
                out.append(("open", av[0]))
                go(av[3])
                out.append(("close", av[0]))
            elif n == "MAX_REPEAT" and isdigit(av[2]):
                out.append(("digits", av[0], None if str(av[1]) == "MAXREPEAT" else av[1]))
            elif n == "IN" and isdigit([(op, av)]):
                out.append(("digits", 1, 1))
            else:
                raise Undecided("pattern element " + n)
    go(sp.parse(pat))
    return out, begin


def match(c, pat, ps):
    """groups (lists of parts) of the match of a pattern at the start of a text, None when there is none"""
    els, begin = elements(pat)
    toks = []
    for p in ps:
        if p.op == "str":
            toks += [mk("str", ch) for ch in p.a[0]]
        elif p.op == "dec":
            lo, _ = c.ctx.facts.bounds(p.a[0], 3)
            if lo < 0:
                raise Undecided("sign of a shown number")
            toks.append(p)
        else:
            raise Undecided("pattern on a formatted float")
    i, groups, opened = 0, {}, {}
    for e in els:
        if e[0] == "open":
            opened[e[1]] = i
        elif e[0] == "close":
            if e[1] is not None:
                groups[e[1]] = toks[opened[e[1]]:i]
        elif e[0] == "end":
            if i != len(toks):
                return None
        elif e[0] == "lit":
            if e[1].isdigit():
                raise Undecided("digit in a pattern")
            if i < len(toks) and toks[i].op == "str" and toks[i].a[0] == e[1]:
                i += 1
            else:
                return None if begin else nomatch()
        else:
            j = i
            while j < len(toks) and digits(toks[j]):
                j += 1
            run = toks[i:j]
            lo, hi = e[1], e[2]
            while len(run) > 1 and run[0].op == "str" and run[0].a[0] == "0" and lo <= 1 and hi is None:
                run = run[1:]
            if len(run) == 1 and run[0].op == "dec":
                x = run[0].a[0]
                if lo > 1 and not c.ctx.branch(t.le(C(10 ** (lo - 1)), x)):
                    return None if begin else nomatch()
                if hi is not None and not c.ctx.branch(t.lt(x, C(10 ** hi))):
                    raise_or = els[els.index(e) + 1:]
                    rest = [y for y in raise_or if y[0] not in ("open", "close")]
                    if begin and rest and rest[0][0] in ("lit", "end"):
                        return None
                    nomatch()
            elif any(y.op == "dec" for y in run):
                raise Undecided("digits of several numbers")
            else:
                if len(run) < lo or hi is not None and len(run) > hi:
                    return None if begin else nomatch()
            i = j
    groups[0] = toks[:i]
    return groups


def nomatch():
    raise Undecided("match later in the text")


_cap = None


def wrap(rx, f):
    models.PAT.insert(0, (re.compile(rx), f))


def captures(c):
    r, s = c.v(0), c.v(1)
    if models.relit(r) is None or s.op not in ("text", "str"):
        return old(c, "captures")
    g = match(c, models.relit(r), text_of(c, s))
    if c.m["path"].endswith("is_match"):
        return TRUE if g is not None else FALSE
    if g is None:
        return c.none()
    n = max(g)
    return c.some(mk("caps", *[text(*g[k]) if k in g else t.UNDEF for k in range(n + 1)]))


def get(c):
    v, i = c.v(0), c.v(1)
    if v.op != "caps":
        return old(c, "get")
    if not is_const(i):
        raise Undecided("group number")
    k = i.a[0]
    if k < len(v.a) and v.a[k] is not t.UNDEF:
        return c.some(mk("rematch", v.a[k]))
    return c.none()


def as_str(c):
    v = c.v(0)
    if v.op != "rematch":
        return old(c, "as_str")
    return refval(v.a[0])


def old(c, what):
    for rx, g in models.PAT:
        if g not in (captures, get, as_str) and rx.search(c.m["path"]):
            return g(c)
    return NotImplemented


wrap(r"^regex::regex::string::Regex::(captures|is_match)$", captures)
wrap(r"^regex::regex::string::Captures::<'h>::get$", get)
wrap(r"^regex::regex::string::Match::<'h>::as_str$", as_str)


@model("core::str::<impl str>::is_empty", "alloc::string::String::is_empty", "core::str::<impl str>::len", "alloc::string::String::len")
def _(c):
    v = c.v(0)
    ps = text_of(c, v)
    if ps is None:
        n = seqlen(v)
        return n if c.m["path"].endswith("len") else t.le0(n)
    if all(p.op == "str" for p in ps):
        n = C(len("".join(p.a[0] for p in ps).encode()))
    else:
        n = t.A(mk("app", "text.len", *ps, ty=c.W.tyid["usize"]))
        c.ctx.facts.assume(t.le(t.ONE, n))
    return n if c.m["path"].endswith("len") else t.le0(n)
