"""A pin-level stimulus: a list of segments, each holding the pins for a number of cycles that may be symbolic.

With constant durations everything folds to a concrete schedule; with symbolic ones the position in the list is a
symbolic counter, so all interleavings of the stretched schedule are explored at once."""
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies


class Wave:
    def __init__(self, m):
        self.m = m
        self.segs = []
        self.cur = {}

    def put(self, **kv):
        """kv: column -> term or (value, width); columns persist"""
        self.cur.update(kv)

    def hold(self, dur, jitter=0, **marks):
        """close a segment of dur..dur+jitter cycles with the present columns; marks only apply to this segment"""
        self.segs.append(dict(cols=dict(self.cur), marks=marks, dur=dur, jitter=jitter))

    def run(self, step, widths, tail=4):
        """step(get, last): one cycle; get(col) gives the column's term now; last: final cycle of the segment"""
        m = self.m
        n = len(self.segs)
        W = 12
        durs = []
        total = tail
        for i, s in enumerate(self.segs):
            d = const(s["dur"], W)
            if s["jitter"]:
                d = d + t.zext(m.range("jit%d" % i, (s["jitter"]).bit_length(), 0, s["jitter"]), W)
            durs.append(d)
            total += s["dur"] + s["jitter"]
        names = set()
        for s in self.segs:
            names |= set(s["cols"]) | set(s["marks"])
        col = {}
        for c in names:
            w = widths.get(c, 1)
            v = []
            for s in self.segs:
                x = s["marks"].get(c, s["cols"].get(c, 0))
                v.append(x if isinstance(x, t.T) else const(int(x), w))
            # after the last segment: columns stay, marks are gone
            x = self.segs[-1]["cols"].get(c, 0)
            v.append(x if isinstance(x, t.T) else const(int(x), w))
            col[c] = v
        assert n < 4096
        pos = const(0, W)
        left = durs[0]
        for k in range(total):
            last = left.eq(1)
            step(lambda c: t.select(col[c], pos), land(last, pos.ult(n)))
            npos = ite(land(last, pos.ult(n)), pos + 1, pos)
            left = ite(last, t.select(durs + [const(0, W)], npos), left - 1)
            pos = npos
        m.check("stimulus finished", pos.eq(n))
