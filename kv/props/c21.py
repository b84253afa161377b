"""C21 D.C., D.S., Fine, segno and coda are followed as written.

For bars whose marks are known one by one and whose ticks are arbitrary: the music up to
the D.C./D.S. is played with its repeats, then again from the segno (D.C.: the beginning,
or after the pickup bar) without repeats and with last endings only, skipping from the
first coda to the second, up to Fine or the end.  Conflicting or missing marks are refused
with the error naming them; warnings are compared too.  Every sequence of up to four bars
(five in the thorough tier) with at most one mark each, every one of five (six) bars whose
marks are all jump marks, and longer chosen ones."""
from .. import inv
from .repeats import *

LONG = ["F S E C", "- S F E C", "S E F C", "S E C F", "1 2 F C", "- 1 2 F C", "1 2 - F - C", "- 1 2 3 4 F C -", "G - D -", "G S E D", "S E G F D", "- G F D", "G F S E D", "S G E F D",
        "S G - E D", "- SG E F D", "G S FE - D", "- G O - D O -", "G O D O F", "G O S E D O F", "- O - C O -", "- O - C O F", "O C O", "- O F C O", "G O F D O",
        "- O C", "- G O D", "- G C", "G - F C", "- F - S E C S E", "- F C S E -", "S E D G", "G 1 2 D -", "- G 1 2 - D", "S G 1 2 - D", "S G - 1 2 F D", "S G 1 2 3 F D", "G D S 1 2 -",
        "0S E F C", "0S - E F C", "0 - F C", "0 F C -", "0G - F D", "0S 1 2 F C", "01 2 F C", "0G O - D O", "0O G D O -", "G O D FO", "S E 1", "- E C", "S EC F", "- EC", "- S ED G", "G S ED -", "- SE E C",
        "- C D", "- C C", "- D C G", "- F F C", "G G D", "O O O D G", "- C E", "- C 1 2 -", "- C SE E", "S C E", "S - D E G", "G D E", "- S E S E F C", "- S E S E G S E F D", "- S F E S E C",
        "S F 1 2 - C", "S - 1F 2 - C", "S - 1 2F - C", "S - 1O 2 D O", "G - O 1 2 D O", "S 1 2 G D F", "F C - -", "- C -", "- F C", "F - C", "G D F", "- G D F -",
        "0C -", "0C - C", "0C - D", "0C S E", "0C G -", "0C - F", "0D G", "0G D -"]


def expected(sc, q):
    """(first pass, second pass, warnings); raises Fault; None where the notation does not say"""
    pos, codas = {}, []
    for tick, ms, _ in sc.bars:
        for m in ms:
            if m == "Coda":
                codas.append(tick)
            elif m in ("Dc", "Ds"):
                pos["jump"] = (m, tick)
            else:
                pos[m] = tick
    ss = sections(sc)
    if ss is None or "jump" not in pos:
        return None
    m, jump = pos["jump"]
    first_bar = [tick for tick, _, _ in sc.bars if not (t.is_const(tick) and tick.a[0] == 0)]
    warn = []
    if m == "Dc":
        if "Segno" in pos:
            warn.append(("SegnoAndDcFound", [pos["Segno"], jump]))
            start = pos["Segno"]
        else:
            top = sc.rhythm
            b0 = sc.bars[0][2]
            if t.is_const(sc.bars[0][0]):
                rh = q.fld(b0, "rhythm")
                if q.variant(rh) == "Some":
                    top = q.payload(rh)
            full_bar, fb = q.call(RLEN, top), first_bar[0]
            if q.branch(ieq(fb, full_bar)):
                start = C(0)
            elif q.branch(ieq(pscale(fb, 2), full_bar)):
                return None
            else:
                start = fb
        if len(codas) == 1:
            warn.append(("OrphanCodaFound", [codas[0]]))
    else:
        if "Segno" not in pos:
            raise Fault("NoSegnoForDs", {"ds_tick": jump})
        start = pos["Segno"]
        if len(codas) == 1:
            raise Fault("OnlyOneCoda", {"tick": codas[0]})
    end = pos.get("Fine", C(U32))
    spans = [(start, end)]
    if len(codas) == 2:
        if "Fine" in pos and q.branch(lt(end, codas[1])):
            raise Fault("CodaAfterFine", {"coda_from": codas[0], "coda_to": codas[1], "fine": end})
        if q.branch(le(codas[1], start)):
            return None
        spans = [(start, codas[0]), (codas[1], end)]
    one, two = [], []
    for s in ss:
        if s[0] == "seq":
            a, b = s[1], s[2]
            one.append((a, b if q.branch(le(b, jump)) else jump))
        elif q.branch(le(last_tick(s), jump)):
            one += full(s)
        for a, b in once(s):
            for x, y in spans:
                two.append((t.imax(a, x), t.imin(b, y)))
    # sorted: sections are in order, and so are the spans
    return one, two, warn


def scan_faults(sc):
    """marks given once too often, as met while reading the bars"""
    seen, out = {}, []
    for tick, ms, _ in sc.bars:
        for m in sorted(ms):
            k = "DsDc" if m in ("Dc", "Ds") else m
            if k not in ("DsDc", "Fine", "Segno", "Coda"):
                continue
            seen.setdefault(k, []).append(tick)
            if len(seen[k]) == (3 if k == "Coda" else 2):
                out.append(Fault("MoreThanTwoCodas" if k == "Coda" else "Duplicated" + k, {"tick": w.mkseq([w.mk("it", x) for x in seen[k]])}))
    return out


def build(env):
    inv.install(env.W)

    def pat(words):
        def f(q):
            sc = Score(q, words)
            fs = scan_faults(sc)
            if not fs:
                first = [tick for tick, ms, _ in sc.bars if ms & {"Dc", "Ds"}]
                if not first or t.is_const(first[0]):
                    return
            r = sc.render()
            if fs:
                try:
                    sections(sc)
                except Fault as e:
                    fs.append(e)
                return expect_fault(q, r, fs)
            try:
                x = expected(sc, q)
            except Fault as e:
                return expect_fault(q, r, [e])
            if x is None:
                return
            one, two, warn = x
            if q.variant(r) != "Ok":
                q.fail("refused", "refused with %s" % t.show(error_of(q, q.payload(r))))
            reg = w.mkfld(q.payload(r), 0, 0)
            got = chunk_list(q, dyn_call(q, "crate::repeat::Region", "to_chunks", reg))
            same_play(q, "order", got, one + two)
            ws = q.ctx.whnf(w.mkfld(q.payload(r), 0, 1))
            q.eq("number of warnings", w.seqlen(ws), C(len(warn)))
            for i, (n, args) in enumerate(warn):
                e = q.ctx.whnf(w.mkat(ws, C(i)))
                if q.variant(e) != n:
                    q.fail("warning", "warning %s, expected %s" % (t.show(e), n))
                for j, a in enumerate(args):
                    q.eq("tick %d of the warning" % j, w.mkfld(e, e.a[1], j), a)
        env.forall("bars " + " ".join(words), f, RR, setup=setup())
    deep = 0 if env.tier == "quick" else 1
    for n in range(1, 6 + deep):
        for words in itertools.product("-SEFGOCD12" if n < 5 + deep else "-FGOCD", repeat=n):
            if sum(x in "CD" for x in words) == 1:
                pat(list(words))
    for s in LONG:
        pat(s.split())
