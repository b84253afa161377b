"""C20 repeat bars and endings are played as written.

For bars whose marks are known one by one (every sequence of up to five bars, six in the
thorough tier, with no mark, a repeat start, end, both or an ending number of one or
two; every sequence of up to four bars, five in the thorough tier, after a first ending with
any of the four; and longer ones with up to four endings) and whose ticks are arbitrary, the sections rendered by the crate
are compared with an independent expansion of the marks; ill-formed sequences must be
refused with the error naming the fault and its tick."""
from .. import inv
from .repeats import *

LONG = ["- 1 2 -", "- 1 1 2 -", "- 1 2 2 -", "- 1 2 3 -", "- 1 2 3 4 -", "1 2 3 4 S E", "S - 1 2 - S E -", "S 1 2 S E", "S 1 2 S 1 2 -", "1 2 3 4 1",
        "S E S E", "E S E -", "S E S 1 2 -", "S E SE", "SE SE E", "S SE E", "S SE 1 2 -", "0S - E -", "0 E", "0S E", "0S 1 2 -", "0 1 2 -", "01 2 -",
        "1 2 3 4 4 -", "1 2 2 3 3 4 4 S - E", "S - - E - - S - - E -", "1 3 -", "1 2 4 -", "1 2 3 1", "1 2 1", "S 1 2 E", "1 2 S", "S 1 2 S 2 -"]


def build(env):
    inv.install(env.W)

    def pat(words):
        def f(q):
            sc = Score(q, words)
            r = sc.render()
            try:
                ss = sections(sc)
            except Fault as e:
                return expect_fault(q, r, [e])
            if ss is None:
                return
            if q.variant(r) != "Ok":
                q.fail("refused", "refused with %s" % t.show(error_of(q, q.payload(r))))
            reg = w.mkfld(q.payload(r), 0, 0)
            got = chunk_list(q, dyn_call(q, "crate::repeat::Region", "to_chunks", reg))
            same_play(q, "order", got, [x for s in ss for x in full(s)])
        env.forall("bars " + " ".join(words), f, RR, setup=setup())
    done = set()
    for n in range(0, 6 if env.tier == "quick" else 7):
        for words in itertools.product(["-", "S", "E", "SE", "1", "2"], repeat=n):
            done.add(words)
            pat(list(words))
    # how endings may follow one another
    for n in range(0, 5 if env.tier == "quick" else 6):
        for words in itertools.product(["-", "S", "E", "1", "2", "3", "4"], repeat=n):
            if ("S", "1") + words not in done:
                pat(["S", "1"] + list(words))
    for s in LONG:
        if tuple(s.split()) not in done:
            pat(s.split())
