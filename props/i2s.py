from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, I2S

Z1 = const(0, 1)
O1 = const(1, 1)


def _quiet(f):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def _len(slot, s):
    """the bit clocks of slot number s"""
    return slot if isinstance(slot, int) else slot[s % len(slot)]


def _half(hp, s, b):
    """cycles for which the bit clock is low and high; from a tuple of numbers these come irregularly"""
    return (hp, hp) if isinstance(hp, int) else (hp[(5 * s + 3 * b) % len(hp)], hp[(7 * s + 2 * b + 1) % len(hp)])


def frames(slots, slot, hp, std, phase_ws=0):
    """per cycle: (slot index, bit index in slot, sck, ws, cycle in the bit, left?)"""
    for s in range(slots):
        left = s % 2 == 1                      # starts with a right slot
        ws = int((not left) if std else left)
        for b in range(_len(slot, s)):
            lo, hi = _half(hp, s, b)
            for c in range(lo + hi):
                yield s, b, int(c >= lo), ws, c, left


@harness("C11", "I2S transmitter, both formats, from reset, enabled in any slot: up to n samples queued, "
         "then one that may come in the middle of every slot (which beats are present, their channel flags and payloads all symbolic); slots of `slot` "
         "bit clocks (a list: in turn), half period hp >= 6 cycles (a list: irregular); disabled and enabled again at the listed places (slot, bit, enable) (sending begins with the next left slot from its "
         "beginning)",
         [dict(sw=16, slot=16, hp=6, n=4, slots=6), dict(sw=16, slot=20, hp=6, n=3, slots=5), dict(sw=8, slot=(8, 9, 32, 11), hp=6, n=4, slots=8, late=True, depth=4),
          dict(sw=24, slot=24, hp=6, n=3, slots=5, fmt="LEFT_JUSTIFIED"), dict(sw=16, slot=(16, 20, 33), hp=6, n=3, slots=8, late=True, depth=4, fmt="LEFT_JUSTIFIED"),
          dict(sw=17, slot=19, hp=(7, 6, 20), n=3, slots=9, late=True, depth=3, en=((0, 5, 1), (3, 9, 0), (4, 4, 1)), fmt="LEFT_JUSTIFIED"),
          dict(sw=32, slot=32, hp=6, n=2, slots=26, late=True, depth=4, fmt="LEFT_JUSTIFIED", _plan=dict(lv="1*5,0,0,1*8,0*3,1*2,0*6", lf="0,1", v="1", f="1,0")),
          dict(sw=17, slot=17, hp=6, n=4, slots=6), dict(sw=17, slot=18, hp=6, n=4, slots=6), dict(sw=32, slot=32, hp=6, n=2, slots=5, late=True),
          dict(sw=17, slot=19, hp=6, n=4, slots=6), dict(sw=24, slot=32, hp=6, n=3, slots=5), dict(sw=18, slot=20, hp=9, n=5, slots=6),
          dict(sw=32, slot=34, hp=6, n=3, slots=4), dict(sw=31, slot=40, hp=6, n=3, slots=4), dict(sw=20, slot=22, hp=6, n=2, slots=5, depth=4),
          dict(sw=17, slot=19, hp=6, n=1, slots=8, late=True), dict(sw=24, slot=26, hp=6, n=2, slots=7, late=True, depth=2),
          dict(sw=17, slot=19, hp=6, n=3, slots=9, late=True, depth=3, en=((0, 5, 1), (3, 9, 0), (4, 4, 1))),
          dict(sw=17, slot=20, hp=6, n=5, slots=9, en=((0, 5, 1), (2, 3, 0), (4, 12, 1))), dict(sw=17, slot=32, hp=6, n=3, slots=5, en=((1, 9, 1),)),
          dict(sw=24, slot=34, hp=6, n=2, slots=7, late=True, en=((1, 13, 1),)),
          dict(sw=17, slot=(19, 23, 18, 40, 20), hp=6, n=4, slots=8, late=True, depth=4), dict(sw=18, slot=20, hp=(6, 9, 31, 7, 6), n=4, slots=6),
          dict(sw=24, slot=(32, 25, 26), hp=(6, 7), n=3, slots=26, late=True, depth=4, en=((0, 3, 1), (11, 20, 0), (14, 3, 1)), _plan=dict(lv="1*5,0,0,1*8,0*3,1*2,0*6", lf="1,0", v="1", f="1,0")),
          dict(sw=24, slot=32, hp=7, n=7, slots=10, _tier="thorough"), dict(sw=28, slot=30, hp=10, n=6, slots=8, depth=6, _tier="thorough"),
          dict(sw=24, slot=32, hp=6, n=3, slots=14, late=True, depth=4, en=((0, 3, 1), (5, 30, 0), (8, 3, 1)), _tier="thorough")])
def transmitter(m, sw, slot, hp, n, slots, depth=8, fmt="STANDARD", late=False, en=((0, 0, 1),)):
    from amlib.io.i2s import I2STransmitter, I2S_FORMAT
    d = I2STransmitter(**given(I2S, sample_width=sw, frame_format=I2S_FORMAT[fmt], fifo_depth=depth))
    h = _quiet(lambda: m.elab(d))
    st = d.stream_in
    # queue: beats present symbolically; the reference list is compacted
    N = n + (slots if late else 0)
    cnt = const(0, 5)
    q = [const(0, sw)] * N
    qf = [Z1] * N

    def offer(i, v, f, x):
        nonlocal q, qf, cnt
        h.set(st.valid, v); h.set(st.first, f); h.set(st.payload, x)
        took = land(v, h.get(st.ready))
        q = [ite(land(took, cnt.eq(j)), x, q[j]) for j in range(N)]
        qf = [ite(land(took, cnt.eq(j)), f, qf[j]) for j in range(N)]
        cnt = cnt + t.zext(took, 5)
        h.tick()
    for i in range(n):
        m.check("room in the queue", h.get(st.ready) if i < depth - 1 else O1)
        offer(i, O1 if i == 0 else m.input("v%d" % i), O1 if i == 0 else m.input("f%d" % i), m.input("x%d" % i, sw))
    h.set(st.valid, 0)
    for i in range(4):
        h.tick()
    m.check("fill level", t.zext(h.get(d.fifo_level_out), 8).eq(t.zext(cnt, 8)))
    ptr = const(0, 5)
    exp = pexp = None
    on = 0                                  # 0: disabled, 1: enabled, 2: enabled and a left slot has begun since
    su = sm = const(0, 8)
    en = {(s, b): e for s, b, e in en}
    std = fmt == "STANDARD"
    for s, b, sck, ws, c, left in frames(slots, slot, hp, std):
        lo, hi = _half(hp, s, b)
        if c == 0 and (s, b) in en:
            on = en[(s, b)]
            h.set(d.enable_in, on)
        if b == 0 and c == 0:
            if on and left:
                on = 2                      # sending begins with a left slot, seen from its beginning
            pexp, exp, eu, em = exp if s and _len(slot, s - 1) == sw else None, None, Z1, Z1
            if on == 2:
                have = ptr.ult(cnt)
                ok = land(have, t.select(qf, ptr).eq(int(left)))
                exp = ite(ok, t.select(q, ptr), const(0, sw))
                eu, em = lnot(have), land(have, lnot(ok))
                ptr = ite(ok, ptr + 1, ptr)
            su = sm = const(0, 8)
            quiet = True
        if not on:
            exp = pexp = None
            quiet = False                   # the errors of a slot that was cut short were flagged or not
        if late and b == _len(slot, s) // 2 and c == 3 and s:
            # the queue takes a sample unless it is full, it may hold one more for the moment
            rdy = h.get(st.ready)
            m.check("the queue takes a sample while it has room", implies((cnt - ptr).ult(depth), rdy))
            v, f, x = m.input("lv%d" % s), m.input("lf%d" % s), m.input("lx%d" % s, sw)
            h.set(st.valid, v); h.set(st.first, f); h.set(st.payload, x)
            took = land(v, rdy)
            q = [ite(land(took, cnt.eq(j)), x, q[j]) for j in range(N)]
            qf = [ite(land(took, cnt.eq(j)), f, qf[j]) for j in range(N)]
            cnt = cnt + t.zext(took, 5)
        else:
            h.set(st.valid, 0)
        h.set(d.serial_clock_in, sck); h.set(d.word_select_in, ws)
        u, mm = h.get(d.underflow_out), h.get(d.mismatch_out)
        if on == 2:
            su, sm = su + t.zext(u, 8), sm + t.zext(mm, 8)
        elif quiet or s == 0:
            m.check("no error while not sending", lnot(lor(u, mm)))
        sdo = h.get(d.serial_data_out)
        # in the standard format one bit after the word select edge, most significant bit first, valid from before the rising edge to the falling edge
        i = b - 1 if std else b
        if exp is not None and c in (lo - 1, lo, lo + 1, lo + hi - 1) and 0 <= i < sw:
            m.check("bit on the line", sdo.eq(exp[sw - 1 - i]))
        if std and pexp is not None and c in (lo - 1, lo, lo + 1, lo + hi - 1) and b == 0:
            m.check("last bit on the line", sdo.eq(pexp[0]))
        if b == _len(slot, s) - 1 and c == lo + hi - 1 and quiet:
            if exp is not None:
                m.check("underflow strobed exactly once when the queue is empty", su.eq(t.zext(eu, 8)))
                m.check("mismatch strobed exactly once when the next sample is for the other channel", sm.eq(t.zext(em, 8)))
            m.check("samples taken exactly once", t.zext(h.get(d.fifo_level_out), 8).eq(t.zext(cnt - ptr, 8)))
        h.tick()
    if not late:
        m.cover("all samples sent", land(ptr.eq(cnt), cnt.ugt(1)))
        m.cover("a sample for the wrong channel", land(cnt.ugt(1), lnot(t.select(qf, const(1, 5)) ^ 1)))
    else:
        m.cover("samples that came late were sent", land(ptr.eq(cnt), cnt.ugt(n)))


def drive_rx(m, h, d, words, slot, hp, std, sw, ready):
    """send words (slot order, first is a right slot); returns the beats seen"""
    cap = []
    pend = const(0, 8)
    for s, b, sck, ws, c, left in frames(len(words), slot, hp, std):
        h.set(d.serial_clock_in, sck); h.set(d.word_select_in, ws)
        i = b - 1 if std else b
        if 0 <= i < sw:
            h.set(d.serial_data_in, words[s][sw - 1 - i])
        elif i < 0 and s and _len(slot, s - 1) == sw:
            h.set(d.serial_data_in, words[s - 1][0])
        else:
            h.set(d.serial_data_in, 0)
        yield s, b, c
        h.tick()


_RX = [dict(sw=16, slot=16, hp=4, slots=9, std=True), dict(sw=16, slot=20, hp=4, slots=6, std=False), dict(sw=12, slot=(16, 12, 32), hp=4, slots=12, std=True), dict(sw=8, slot=8, hp=5, slots=8, std=False),
       dict(sw=24, slot=24, hp=4, slots=9, std=True), dict(sw=32, slot=32, hp=4, slots=6, std=True), dict(sw=18, slot=(19, 18, 20), hp=4, slots=9, std=True), dict(sw=24, slot=25, hp=4, slots=6, std=True), dict(sw=24, slot=24, hp=4, slots=6, std=False),
       dict(sw=17, slot=19, hp=4, slots=6, std=True), dict(sw=24, slot=32, hp=5, slots=6, std=True), dict(sw=18, slot=20, hp=7, slots=6, std=False),
       dict(sw=32, slot=34, hp=4, slots=5, std=True), dict(sw=24, slot=25, hp=4, slots=6, std=False), dict(sw=31, slot=36, hp=4, slots=5, std=False),
       dict(sw=20, slot=22, hp=4, slots=6, std=True, depth=2, stall=4), dict(sw=17, slot=19, hp=4, slots=6, std=False, depth=3, stall=3),
       dict(sw=17, slot=19, hp=4, slots=9, std=True, en=((0, 7, 1), (3, 9, 0), (4, 5, 1))), dict(sw=18, slot=20, hp=4, slots=9, std=False, en=((0, 7, 1), (4, 9, 0), (6, 11, 1))),
       dict(sw=24, slot=40, hp=4, slots=7, std=True, en=((1, 12, 1),)), dict(sw=20, slot=32, hp=4, slots=11, std=False, en=((1, 7, 1), (4, 5, 0), (5, 8, 1))),
       dict(sw=17, slot=(19, 23, 18, 40, 20), hp=4, slots=9, std=True), dict(sw=18, slot=(18, 25, 19), hp=4, slots=9, std=False), dict(sw=20, slot=24, hp=(4, 9, 33, 5, 4), slots=6, std=True),
       dict(sw=20, slot=(24, 22), hp=(4, 13, 5), slots=6, std=False), dict(sw=24, slot=32, hp=4, slots=60, std=True),
       dict(sw=17, slot=19, hp=50, slots=5, std=True), dict(sw=24, slot=32, hp=16, slots=14, std=True),
       dict(sw=24, slot=32, hp=6, slots=12, std=True, _tier="thorough"), dict(sw=20, slot=22, hp=4, slots=10, std=True, depth=3, stall=5, _tier="thorough")]


@harness("C12", "I2S receiver from reset, enabled in any slot, disabled and enabled again at the listed places "
         "(slot, bit, enable): all words symbolic; consumer always ready, or ready symbolically once per slot (stall) (reception begins "
         "with the next left slot from its beginning)", _RX)
def receiver(m, sw, slot, hp, slots, std, depth=8, stall=0, en=((0, 0, 1),)):
    from amlib.io.i2s import I2SReceiver, I2S_FORMAT
    d = I2SReceiver(**given(I2S, sample_width=sw, frame_format=I2S_FORMAT.STANDARD if std else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=depth))
    h = _quiet(lambda: m.elab(d))
    so = d.stream_out
    words = [m.input("w%d" % i, sw) for i in range(slots)]
    # the slots whose words are delivered: those that have ended (and the next one begun) since the first left one
    expw = []                       # (slot, word)
    on = begun = False
    at = {(s, b): e for s, b, e in en}
    for s in range(slots):
        begun = on and (begun or s % 2 == 1)        # reception begins with a left slot, seen from its beginning
        if begun:
            expw += [(s, words[s])]
        for (es, eb), e in at.items():
            if es == s and e:
                on = True
            elif es == s:
                assert eb >= 4
                on = begun = False
                expw = [w for w in expw if w[0] != s]
    expw = [w for w in expw if w[0] != slots - 1]
    sent = len(expw)
    n = const(0, 7)                 # beats delivered
    take, held = O1, Z1
    for s, b, c in drive_rx(m, h, d, words, slot, hp, std, sw, None):
        if c == 0 and (s, b) in at:
            h.set(d.enable_in, at[(s, b)])
        if b == _len(slot, s) // 2 and c == 0 and stall:
            # decides whether the consumer accepts one beat now
            take = m.input("rdy%d" % s)
        elif stall:
            take = Z1
        h.set(so.ready, take)
        v, x, f, l = h.get(so.valid), h.get(so.payload), h.get(so.first), h.get(so.last)
        if b == _len(slot, s) // 2 and c == 0:
            m.check("fill level during reception", t.zext(h.get(d.fifo_level_out), 8).eq(const(len([1 for k, w in expw if k < s]), 8) - t.zext(n, 8)))
        # the word of a slot may be delivered once the next slot has begun
        m.check("never more beats than words received", implies(v, n.ult(len([1 for k, w in expw if k < s]))))
        m.check("word intact and in order", implies(v, x.eq(t.select([w for _, w in expw] + [const(0, sw)], n))))
        left = t.select([const(ws % 2, 1) for ws, _ in expw] + [Z1], n)
        m.check("channel flags", implies(v, land(f.eq(left), l.eq(lnot(left)))))
        m.check("no flags without data", lor(v, land(lnot(f), lnot(l))))
        m.check("a word offered stays until it is taken", implies(held, v))
        held = land(v, lnot(take))
        n = ite(land(v, take), n + 1, n)
        if stall:
            # overflow is outside the property: assume the consumer keeps up on the whole
            m.assume(n.uge(max(0, s - 1 - depth)) if s - 1 - depth > 0 else O1)
    if not stall:
        m.check("every word delivered", n.eq(sent))
    else:
        m.check("every word delivered or queued", (t.zext(n, 8) + t.zext(h.get(d.fifo_level_out), 8)).eq(sent))
    m.cover("words delivered", n.ugt(1))


def _loopback(sw, depth, fmt):
    from amaranth import Elaboratable, Module, Signal
    from amlib.io.i2s import I2STransmitter, I2SReceiver, I2S_FORMAT

    kw = dict(sample_width=sw, fifo_depth=depth, frame_format=getattr(I2S_FORMAT, fmt))

    class Loop(Elaboratable):
        def __init__(self):
            self.tx = I2STransmitter(**given(I2S, **kw))
            self.rx = I2SReceiver(**given(I2S, **kw))
            self.sck, self.ws = Signal(), Signal()

        def elaborate(self, platform):
            m = Module()
            m.submodules.tx = self.tx
            m.submodules.rx = self.rx
            m.d.comb += [self.tx.serial_clock_in.eq(self.sck), self.rx.serial_clock_in.eq(self.sck),
                         self.tx.word_select_in.eq(self.ws), self.rx.word_select_in.eq(self.ws),
                         self.tx.enable_in.eq(1), self.rx.enable_in.eq(1),
                         self.rx.serial_data_in.eq(self.tx.serial_data_out)]
            return m
    return Loop()


@harness("C12", "I2S transmitter into receiver on common clocks, from reset: every symbolic sample comes out once, in order, "
         "with its channel flag; then silence", [dict(sw=16, slot=16, hp=6, n=6), dict(sw=24, slot=24, hp=6, n=4, fmt="LEFT_JUSTIFIED"), dict(sw=20, slot=(22, 27, 20), hp=(6, 8), n=4, fmt="LEFT_JUSTIFIED"), dict(sw=16, slot=32, hp=6, n=4), dict(sw=24, slot=24, hp=6, n=4), dict(sw=17, slot=19, hp=6, n=4), dict(sw=24, slot=26, hp=6, n=4), dict(sw=24, slot=32, hp=8, n=3),
                                                   dict(sw=32, slot=36, hp=6, n=3), dict(sw=20, slot=64, hp=6, n=6, _tier="thorough")])
def loopback(m, sw, slot, hp, n, fmt="STANDARD"):
    d = _loopback(sw, 8, fmt)
    h = _quiet(lambda: m.elab(d))
    xs = [m.input("x%d" % i, sw) for i in range(n)]
    st, so = d.tx.stream_in, d.rx.stream_out
    std = fmt == "STANDARD"
    h.set(d.ws, int(std))
    for i, x in enumerate(xs):
        h.set(st.valid, 1); h.set(st.first, 1 - i % 2); h.set(st.payload, x)
        h.tick()
    h.set(st.valid, 0)
    h.set(so.ready, 1)
    k = const(0, 6)
    exp = xs + [const(0, sw)] * 4
    for s, b, sck, ws, c, left in frames(n + 4, slot, hp, std):
        h.set(d.sck, sck); h.set(d.ws, ws)
        v = h.get(so.valid)
        m.check("sample sent is sample received", implies(v, h.get(so.payload).eq(t.select(exp, k))))
        m.check("channel flag", implies(v, h.get(so.first).eq(lnot(k[0]))))
        k = ite(v, k + 1, k)
        h.tick()
    m.check("all samples received", k.uge(n))
    m.cover("end", O1)
