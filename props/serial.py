from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, SERIAL

Z1 = const(0, 1)
O1 = const(1, 1)


def parity_bit(data, parity):
    """Reference parity, independent of the implementation."""
    ones = t.const(0, 8)
    for i in range(data.w):
        ones = ones + t.zext(data[i], 8)
    odd_ones = ones[0]
    return {"none": None, "mark": const(1, 1), "space": const(0, 1),
            "even": odd_ones, "odd": lnot(odd_ones)}[parity]


def frame_of(data, parity):
    bits = [const(0, 1)] + [data[i] for i in range(data.w)]
    p = parity_bit(data, parity)
    if p is not None:
        bits.append(p)
    bits.append(const(1, 1))
    return bits


def uart_pins():
    from amaranth import Record
    return Record([("rx", [("i", 1)]), ("tx", [("o", 1)])], name="uart")


class TxMonitor:
    """Line monitor: every accepted word appears as one frame, each bit for exactly `divisor` cycles, in order,
    idle high otherwise; the start bit appears within `latency` cycles."""
    W = 10

    def __init__(self, nbits, data_bits, parity, divisor, latency):
        self.nbits = nbits; self.parity = parity; self.div = divisor; self.lat = latency
        self.frame = const(0, nbits)      # being sent
        self.active = const(0, 1)
        self.pos = const(0, self.W)       # cycles into the frame
        self.pend = const(0, 1)
        self.pframe = const(0, nbits)
        self.wait = const(0, self.W)

    def step(self, m, o, accept, data):
        W = self.W
        total = const(self.nbits * self.div, W)
        # does a frame start now?
        start = land(lnot(self.active), self.pend, lnot(o))
        m.check("line idles high between frames", implies(land(lnot(self.active), lnot(self.pend)), o))
        m.check("an accepted word starts on the line in bounded time",
                implies(land(lnot(self.active), self.pend), self.wait.ult(self.lat)))
        frame = ite(start, self.pframe, self.frame)
        active = lor(self.active, start)
        pos = ite(start, const(0, W), self.pos)
        bitsel = t.select([frame[min(i // self.div, self.nbits - 1)] for i in range(self.nbits * self.div)], pos)
        m.check("each bit of the frame holds for its bit time", implies(active, o.eq(bitsel)))
        npos = pos + 1
        done = land(active, npos.eq(total))
        pend = land(self.pend, lnot(start))
        m.check("no word is accepted while another still waits", implies(accept, lnot(pend)))
        self.active = land(active, lnot(done))
        self.pos = ite(self.active, npos, const(0, W))
        self.frame = frame
        self.pframe = ite(accept, t.concat(*frame_of(data, self.parity)), self.pframe)
        self.wait = ite(accept, const(0, W), ite(lnot(self.active), self.wait + 1, self.wait))
        self.pend = lor(pend, accept)


_TX = [dict(divisor=1, data_bits=8, parity="none", frames=3), dict(divisor=2, data_bits=5, parity="even", frames=2),
       dict(divisor=3, data_bits=4, parity="odd", frames=2), dict(divisor=2, data_bits=3, parity="mark", frames=2),
       dict(divisor=2, data_bits=3, parity="space", frames=2), dict(divisor=7, data_bits=2, parity="none", frames=2),
       dict(divisor=1, data_bits=9, parity="odd", frames=2), dict(divisor=3, data_bits=3, parity="even", frames=2, pins=True),
       dict(divisor=2, data_bits=8, parity="even", frames=2), dict(divisor=1, data_bits=7, parity="space", frames=3),
       dict(divisor=5, data_bits=8, parity="even", frames=2, _tier="thorough"),
       dict(divisor=1, data_bits=8, parity="none", frames=5, _tier="thorough")]


@harness("C02", "AsyncSerialTX from reset: ack and data symbolic in every cycle, back-to-back and idle gaps, for enough cycles "
         "for the stated number of frames; divisor, width and parity as configured", _TX)
def tx_line(m, divisor, data_bits, parity, frames, pins=False):
    from amlib.io.serial import AsyncSerialTX
    io = uart_pins() if pins else None
    d = AsyncSerialTX(**given(SERIAL, divisor=divisor, data_bits=data_bits, parity=parity, **(dict(pins=io) if pins else {})))
    h = m.elab(d)
    line = io.tx.o if pins else d.o
    n = data_bits + 2 + (parity != "none")
    mon = TxMonitor(n, data_bits, parity, divisor, latency=divisor + 2)
    sent = const(0, 4)
    for k in range(frames * (n * divisor + divisor + 2) + 4):
        ack = m.input("ack%d" % k)
        data = m.input("data%d" % k, data_bits)
        h.set(d.ack, ack)
        h.set(d.data, data)
        acc = land(ack, h.get(d.rdy))
        mon.step(m, h.get(line), acc, data)
        sent = ite(acc, sent + 1, sent)
        m.cover("%d frames" % frames, sent.eq(frames))
        h.tick()


@harness("C02", "AsyncSerialTX: divisor input changed at run time to a symbolic value 1..6 before the frame; symbolic data",
         [dict(data_bits=4, parity="even")])
def tx_runtime_divisor(m, data_bits, parity):
    from amlib.io.serial import AsyncSerialTX
    d = AsyncSerialTX(**given(SERIAL, divisor=1, divisor_bits=4, data_bits=data_bits, parity=parity))
    h = m.elab(d)
    div = m.range("div", 4, 1, 6)
    data = m.input("data", data_bits)
    bits = frame_of(data, parity)
    n = len(bits)
    h.set(d.divisor, div)
    h.set(d.data, data)
    h.set(d.ack, 1)
    m.check("ready when idle", h.get(d.rdy))
    h.tick()
    h.set(d.ack, 0)
    h.set(d.data, m.input("junk", data_bits))
    started = const(0, 1)
    pos = const(0, 8)
    d8 = t.zext(div, 8)
    cnt = const(0, 8)
    bit = const(0, 4)
    for k in range(6 * n + 10):
        o = h.get(d.o)
        start = land(lnot(started), lnot(o))
        m.check("start within a bit time", implies(lnot(lor(started, start)), const(k, 8).ule(d8 + 1)))
        on = lor(started, start)
        m.check("bit value", implies(land(on, bit.ult(n)), o.eq(t.select([t.concat(b) for b in bits], bit))))
        m.check("idle high afterwards", implies(land(on, bit.uge(n)), o))
        last = (cnt + 1).eq(d8)
        cnt = ite(on, ite(last, const(0, 8), cnt + 1), cnt)
        bit = ite(land(on, last, bit.ult(n)), bit + 1, bit)
        started = on
        h.tick()
    m.check("frame completed", bit.eq(n))
    m.check("ready again", h.get(d.rdy))


_RX = [dict(divisor=5, data_bits=4, parity="none"), dict(divisor=6, data_bits=3, parity="even"),
       dict(divisor=5, data_bits=3, parity="odd"), dict(divisor=8, data_bits=2, parity="mark"),
       dict(divisor=5, data_bits=2, parity="space"), dict(divisor=5, data_bits=8, parity="none"),
       dict(divisor=5, data_bits=8, parity="even"), dict(divisor=6, data_bits=8, parity="odd"), dict(divisor=11, data_bits=7, parity="mark"),
       dict(divisor=16, data_bits=2, parity="even"), dict(divisor=9, data_bits=9, parity="odd", _tier="thorough"),
       dict(divisor=16, data_bits=8, parity="none", frames=3, _tier="thorough")]


@harness("C03", "AsyncSerialRX from reset: frames with symbolic data and parity bits, symbolic idle gap 0..3 cycles, symbolic stop bit "
         "in the last frame; each line bit lasts exactly divisor cycles, for divisor 16 the outer quarters of every bit are "
         "arbitrary (noise); consumer acknowledges at once", _RX)
def rx_frames(m, divisor, data_bits, parity, frames=2):
    """A well-timed frame is delivered exactly once with the right data and error flags."""
    from amlib.io.serial import AsyncSerialRX
    d = AsyncSerialRX(**given(SERIAL, divisor=divisor, data_bits=data_bits, parity=parity))
    h = m.elab(d)
    h.set(d.ack, 1)
    np = parity != "none"
    n = data_bits + 2 + np
    L = n * divisor
    W = 10
    noisy = 4 if divisor == 16 else 0
    words, starts = [], []
    start = const(2, W)
    for f in range(frames):
        data = m.input("d%d" % f, data_bits)
        par = m.input("p%d" % f) if np else None
        stop = m.input("s%d" % f) if f == frames - 1 else const(1, 1)
        gap = m.input("g%d" % f, 2)
        bits = [const(0, 1)] + [data[i] for i in range(data_bits)] + ([par] if np else []) + [stop]
        wave = []
        for i in range(L):
            b, o = divmod(i, divisor)
            edge = (o < noisy and b > 0) or (o >= divisor - noisy and b < n - 1)
            wave.append(m.input("n%d_%d" % (f, i)) if noisy and edge else bits[b])
        words.append((data, par, stop, wave))
        start = start + t.zext(gap, W)
        starts.append(start)
        start = start + L
    laststop = words[-1][2]
    seen = const(0, 1)
    count = const(0, 4)
    for k in range(2 + frames * (L + 3) + 3):
        line = const(1, 1)
        for (data, par, stop, wave), st in zip(words, starts):
            off = const(k, W) - st
            line = land(line, implies(off.ult(L), t.select(wave, off)))
        h.set(d.i, line)
        rdy = h.get(d.rdy)
        for f, (data, par, stop, wave) in enumerate(words):
            here = land(rdy, count.eq(f))
            m.check("data is the frame's data", implies(here, h.get(d.data).eq(data)))
            m.check("frame error iff the stop bit is low", implies(here, iff(h.get(d.err.frame), lnot(stop))))
            if np:
                m.check("parity error iff the parity bit is wrong",
                        implies(here, iff(h.get(d.err.parity), par.ne(parity_bit(data, parity)))))
            else:
                m.check("no parity error without parity", implies(here, lnot(h.get(d.err.parity))))
            m.check("no overflow when acknowledged", implies(here, lnot(h.get(d.err.overflow))))
            m.check("delivered only after the stop bit began",
                    implies(here, const(k, W).uge(starts[f] + (n - 1) * divisor)))
            m.check("delivered before the following frame could be read",
                    implies(const(k, W).eq(starts[f] + (L + 2)), count.ugt(f)))
        m.check("one delivery per frame", implies(land(rdy, laststop), count.ult(frames)))
        count = ite(land(rdy, count.ult(15)), count + 1, count)
        h.tick()
    m.check("every frame was delivered", count.uge(frames))
    m.cover("error free", laststop)
    m.cover("gapless", land(*[starts[i + 1].eq(starts[i] + L) for i in range(frames - 1)]))


@harness("C03", "AsyncSerialRX: the idle line dips for a symbolic number of cycles shorter than half a bit, then after a frame time an intact frame "
         "with symbolic data follows", [dict(divisor=10, data_bits=3, parity="none"), dict(divisor=16, data_bits=2, parity="even"), dict(divisor=7, data_bits=4, parity="odd")])
def rx_glitch(m, divisor, data_bits, parity):
    from amlib.io.serial import AsyncSerialRX
    d = AsyncSerialRX(**given(SERIAL, divisor=divisor, data_bits=data_bits, parity=parity))
    h = m.elab(d)
    h.set(d.ack, 1)
    n = data_bits + 2 + (parity != "none")
    g = m.range("dip", 8, 1, divisor // 2 - 1)
    for k in range(n * divisor + 4):
        h.set(d.i, lnot(land(const(k, 8).uge(2), const(k, 8).ult(g + 2))))
        m.check("a dip shorter than half a bit is no good frame", implies(h.get(d.rdy), h.get(d.err.frame)))
        h.tick()
    data = m.input("data", data_bits)
    bits = frame_of(data, parity)
    got = const(0, 2)
    for k in range(n * divisor + 4):
        h.set(d.i, bits[k // divisor] if k < n * divisor else 1)
        rdy = h.get(d.rdy)
        m.check("the frame after a dip arrives intact", implies(rdy, land(h.get(d.data).eq(data), h.get(d.err).eq(0))))
        got = got + t.zext(rdy, 2)
        h.tick()
    m.check("the frame after a dip arrives once", got.eq(1))


@harness("C03", "AsyncSerialRX: one frame arrives while the consumer does not acknowledge; symbolic data and acknowledge time",
         [dict(divisor=5, data_bits=3)])
def rx_overflow(m, divisor, data_bits):
    from amlib.io.serial import AsyncSerialRX
    d = AsyncSerialRX(**given(SERIAL, divisor=divisor, data_bits=data_bits))
    h = m.elab(d)
    n = data_bits + 2
    data = [m.input("d%d" % f, data_bits) for f in range(2)]
    acked = m.input("acked")               # the first frame is acknowledged or lost
    for f in range(2):
        bits = frame_of(data[f], "none")
        for k in range(n * divisor + 2):
            h.set(d.ack, acked if f == 0 else 1)
            h.set(d.i, bits[k // divisor] if k < n * divisor else const(1, 1))
            h.tick()
            if f == 0:
                m.check("nothing delivered without acknowledge", implies(lnot(acked), lnot(h.get(d.rdy))))
                if k == n * divisor + 1:
                    m.check("overflow flagged iff the frame was not acknowledged", iff(h.get(d.err.overflow), lnot(acked)))
            else:
                rdy = h.get(d.rdy)
                m.check("second frame intact after an overflow", implies(rdy, h.get(d.data).eq(data[1])))
                m.check("overflow cleared by an acknowledged frame", implies(rdy, lnot(h.get(d.err.overflow))))
                m.cover("second delivered", rdy)


@harness("C03", "AsyncSerialRX: frames one after the other, the acknowledge arbitrary in every cycle, except that around the stop bit it is released once at an "
         "arbitrary time: every frame is read exactly once, with its data, or the overflow flag says that it is lost, which happens only without acknowledge",
         [dict(divisor=5, data_bits=2, parity="none", frames=3), dict(divisor=6, data_bits=3, parity="even", frames=2),
          dict(divisor=7, data_bits=8, parity="none", frames=4, _tier="thorough")])
def rx_acknowledge(m, divisor, data_bits, parity, frames):
    from amlib.io.serial import AsyncSerialRX
    d = AsyncSerialRX(**given(SERIAL, divisor=divisor, data_bits=data_bits, parity=parity))
    h = m.elab(d)
    pending, word = const(0, 1), const(0, data_bits)
    k = 0
    for f in range(frames + 1):
        data = m.input("data%d" % f, data_bits)
        bits = frame_of(data, parity) if f < frames else [const(1, 1)] * 3
        stop = (len(bits) - 1) * divisor
        end = len(bits) * divisor + 2
        held = m.input("held%d" % f, 4)       # cycles after the start of the stop bit
        m.assume(held.ule(end - stop))
        for i in range(stop):
            ack = m.input("ack%d" % k)
            h.set(d.ack, ack)
            h.set(d.i, bits[i // divisor])
            rdy = h.get(d.rdy)
            m.check("delivered while a word waits, and only then", iff(rdy, pending))
            m.check("data", implies(rdy, h.get(d.data).eq(word)))
            pending = land(pending, lnot(ack))
            h.tick()
            k += 1
        if f == frames:
            break
        seen = const(0, 1)
        for i in range(stop, end):
            ack = const(i - stop, 4).ult(held)
            h.set(d.ack, ack)
            h.set(d.i, bits[min(i // divisor, len(bits) - 1)])
            rdy = h.get(d.rdy)
            old = land(pending, lnot(ack)) if i > stop else pending
            m.check("a waiting word stays", implies(old, land(rdy, h.get(d.data).eq(word))))
            new = land(rdy, lnot(old))
            m.check("the new word", implies(new, land(lnot(seen), h.get(d.data).eq(data), h.get(d.err).eq(0))))
            pending = land(old, lnot(ack))
            seen = lor(seen, land(new, ack))
            h.tick()
            k += 1
        lost = h.get(d.err.overflow)
        waits = h.get(d.rdy)
        m.check("lost only without acknowledge", implies(lost, held.ult(end - stop)))
        m.check("lost when there is no acknowledge at all", implies(held.eq(0), lost))
        m.check("a word that is lost is not read", implies(lost, lnot(seen)))
        m.check("a word that is not lost is read or waits", implies(lnot(lost), iff(waits, lnot(seen))))
        m.check("it waits with its data", implies(land(lnot(lost), waits), h.get(d.data).eq(data)))
        m.check("a lost word leaves the one before", implies(lost, iff(waits, pending)))
        m.cover("lost after a word that waits, frame %d" % f, land(lost, pending) if f else lost)
        m.cover("waits, frame %d" % f, land(lnot(lost), waits))
        pending, word = waits, ite(lost, word, data)
        h.set(d.i, 1)


@harness("C03", "AsyncSerial (RX and TX, one divisor) looped back: words offered with symbolic data and gaps come out in order, error free",
         [dict(divisor=5, data_bits=4, parity="none", words=3), dict(divisor=6, data_bits=3, parity="even", words=2),
          dict(divisor=5, data_bits=3, parity="odd", words=2), dict(divisor=5, data_bits=2, parity="mark", words=2),
          dict(divisor=7, data_bits=2, parity="space", words=2),
          dict(divisor=5, data_bits=3, parity="even", words=2, pins=True), dict(divisor=5, data_bits=2, parity="none", words=2, runtime=(5, 9)),
          dict(divisor=9, data_bits=2, parity="odd", words=2, runtime=(5, 12), pins=True, _weight=3),
          dict(divisor=5, data_bits=8, parity="none", words=2), dict(divisor=16, data_bits=8, parity="odd", words=2, _tier="thorough")])
def loopback(m, divisor, data_bits, parity, words, pins=False, runtime=None):
    from amlib.io.serial import AsyncSerial
    from amaranth import Module
    io = uart_pins() if pins else None
    d = AsyncSerial(**given(SERIAL, divisor=divisor, data_bits=data_bits, parity=parity, **(dict(pins=io) if pins else {}), **(dict(divisor_bits=4) if runtime else {})))
    top = Module()
    top.submodules.s = d
    top.d.comb += io.rx.i.eq(io.tx.o) if pins else d.rx.i.eq(d.tx.o)
    m.encoded.append(d)
    h = m.elab(top)
    n = data_bits + 2 + (parity != "none")
    if runtime:
        # both directions follow the divisor input
        h.set(d.divisor, m.range("divisor", 4, *runtime))
        line = io.tx.o if pins else d.tx.o
        started, fell, low = const(0, 1), const(0, 8), const(0, 1)
        divisor = runtime[1]
    q = [m.input("w%d" % i, data_bits) for i in range(words)]
    gap = [m.input("g%d" % i, 3) for i in range(words)]
    h.set(d.rx.ack, 1)
    sent = const(0, 4)
    wait = t.zext(gap[0], 4)
    count = const(0, 4)
    for k in range(words * ((n + 1) * divisor + 9) + 2 * divisor):
        offer = land(sent.ult(words), wait.eq(0))
        h.set(d.tx.ack, offer)
        h.set(d.tx.data, t.select(q, sent))
        acc = land(offer, h.get(d.tx.rdy))
        wait = ite(acc, t.zext(t.select(gap, sent + 1), 4), ite(land(h.get(d.tx.rdy), wait.ne(0)), wait + const(-1, 4), wait))
        sent = ite(acc, sent + 1, sent)
        if runtime:
            # the first frame is a zero followed by a one: its start bit lasts one bit time
            o = h.get(line)
            fell = fell + t.zext(land(lnot(o), lnot(low)), 8)
            low = lor(low, land(fell.ne(0), o))
        rdy = h.get(d.rx.rdy)
        m.check("received words are the sent words in order", implies(rdy, land(count.ult(sent), h.get(d.rx.data).eq(t.select(q, count)))))
        m.check("no error", implies(rdy, h.get(d.rx.err).eq(0)))
        count = ite(rdy, count + 1, count)
        h.tick()
    m.check("all words received", count.eq(words))
    if runtime:
        m.check("bit time is the divisor given", implies(q[0][0], fell.eq(h.get(d.divisor))))


@harness("C02", "AsyncSerialTX and AsyncSerial at usual divisors (tens to thousands), given to the constructor or through the divisor input; two words with a gap, "
         "symbolic data: the line in every cycle",
         [dict(divisor=104, given_at="init", bits=8, parity="none"), dict(divisor=300, given_at="init", bits=7, parity="even"), dict(divisor=521, given_at="run", bits=8, parity="odd"),
          dict(divisor=256, given_at="both", bits=2, parity="none"), dict(divisor=1042, given_at="both", bits=3, parity="mark"), dict(divisor=5208, given_at="run", bits=1, parity="none")])
def tx_usual_divisors(m, divisor, given_at, bits, parity):
    from amlib.io.serial import AsyncSerialTX, AsyncSerial
    kw = given(SERIAL, data_bits=bits, parity=parity)
    if given_at == "init":
        top = d = AsyncSerialTX(divisor=divisor, **kw)
    elif given_at == "run":
        top = d = AsyncSerialTX(divisor=7, divisor_bits=13, **kw)
    else:
        top = AsyncSerial(divisor=divisor, **kw)
        d = top.tx
    h = m.elab(top)
    if given_at == "run":
        h.set(d.divisor, divisor)
    data = [m.input("w%d" % i, bits) for i in range(2)]
    n = bits + 2 + (parity != "none")
    for i, w in enumerate(data):
        for k in range(i * 5):
            m.check("idle", h.get(d.o))
            h.tick()
        m.check("ready", h.get(d.rdy))
        h.set(d.ack, 1)
        h.set(d.data, w)
        h.tick()
        h.set(d.ack, 0)
        h.set(d.data, ~w)
        f = [t.concat(x) for x in frame_of(w, parity)]
        on, bit, cnt = Z1, const(0, 4), const(0, 14)
        for k in range((n + 1) * divisor + 2):
            o = h.get(d.o)
            on = lor(on, lnot(o))
            m.check("starts within a bit time", lor(on, const(k, 14).ule(divisor)))
            m.check("frame", implies(on, o.eq(t.select(f + [O1], bit))))
            m.check("not ready in the frame", implies(land(on, bit.ult(n - 1)), lnot(h.get(d.rdy))))
            last = (cnt + 1).eq(divisor)
            cnt = ite(land(on, lnot(last)), cnt + 1, const(0, 14))
            bit = ite(land(on, last, bit.ult(n)), bit + 1, bit)
            h.tick()
        m.check("complete", bit.eq(n))


@harness("C03", "AsyncSerialRX and AsyncSerial at usual divisors (tens to thousands), given to the constructor or through the divisor input; two frames, symbolic data, "
         "parity and last stop bit; the outer quarters of every bit arbitrary in the first frame",
         [dict(divisor=104, given_at="init", bits=8, parity="none"), dict(divisor=300, given_at="init", bits=4, parity="even"), dict(divisor=521, given_at="run", bits=3, parity="odd"),
          dict(divisor=256, given_at="both", bits=2, parity="none"), dict(divisor=1042, given_at="both", bits=2, parity="mark"), dict(divisor=2604, given_at="run", bits=1, parity="none")])
def rx_usual_divisors(m, divisor, given_at, bits, parity):
    from amlib.io.serial import AsyncSerialRX, AsyncSerial
    kw = given(SERIAL, data_bits=bits, parity=parity)
    if given_at == "init":
        top = d = AsyncSerialRX(divisor=divisor, **kw)
    elif given_at == "run":
        top = d = AsyncSerialRX(divisor=7, divisor_bits=12, **kw)
    else:
        top = AsyncSerial(divisor=divisor, **kw)
        d = top.rx
    h = m.elab(top)
    if given_at == "run":
        h.set(d.divisor, divisor)
    h.set(d.ack, 1)
    h.set(d.i, 1)
    h.tick()
    for f in range(2):
        w = m.input("w%d" % f, bits)
        line = frame_of(w, parity)
        wrong, stop = Z1, O1
        if parity != "none":
            wrong = m.input("wrong%d" % f)
            line[-2] = line[-2] ^ wrong
        if f:
            stop = m.input("stop")
            line[-1] = stop
        got = const(0, 2)
        n = len(line)
        noise = [m.input("noise%d_%d" % (f, i), 2) for i in range(2 * n)]
        for k in range(n * divisor + 4):
            i, o = divmod(k, divisor)
            v = line[min(i, n - 1)]
            if not f and 0 < i < n - 1:
                if o < divisor // 4:
                    v = noise[2 * i][o % 2]
                if o >= divisor - divisor // 4:
                    v = noise[2 * i + 1][o % 2]
            h.set(d.i, v if i < n else O1)
            rdy = h.get(d.rdy)
            m.check("word", implies(rdy, h.get(d.data).eq(w)))
            m.check("errors", implies(land(rdy, got.eq(0)), land(iff(h.get(d.err.frame), lnot(stop)), iff(h.get(d.err.parity), wrong), lnot(h.get(d.err.overflow)))))
            got = got + t.zext(rdy, 2)
            h.tick()
        m.check("exactly once", implies(stop, got.eq(1)))
        m.check("at least once", got.ne(0))


@harness("C02", "AsyncSerial with a divisor beyond 65536, at the constructor or through the divisor input: one frame of one symbolic bit on the line",
         [dict(divisor=66000, runtime=False, _weight=3), dict(divisor=131100, runtime=True, _tier="thorough")])
def tx_slow(m, divisor, runtime):
    from amlib.io.serial import AsyncSerial
    d = AsyncSerial(divisor=5 if runtime else divisor, data_bits=1, **(dict(divisor_bits=20) if runtime else {}))
    h = m.elab(d)
    data = m.input("data", 1)
    if runtime:
        h.set(d.divisor, divisor)
    h.set(d.tx.data, data); h.set(d.tx.ack, 1)
    h.tick()
    h.set(d.tx.ack, 0)
    f = [Z1, data, O1]
    on, bit, cnt = Z1, const(0, 3), const(0, 18)
    for k in range(4 * divisor + 2):
        o = h.get(d.tx.o)
        on = lor(on, lnot(o))
        m.check("starts within a bit time", on if k > divisor else O1)
        m.check("frame", implies(on, o.eq(t.select(f + [O1], bit))))
        last = (cnt + 1).eq(divisor)
        cnt = ite(land(on, lnot(last)), cnt + 1, const(0, 18))
        bit = ite(land(on, last, bit.ult(3)), bit + 1, bit)
        h.tick()
    m.check("complete", bit.eq(3))
    m.check("ready again", h.get(d.tx.rdy))


@harness("C03", "AsyncSerial with a divisor beyond 65536, at the constructor or through the divisor input: one frame of one symbolic bit, with the outer "
         "quarters of its bits arbitrary", [dict(divisor=66000, runtime=False, _weight=3), dict(divisor=131100, runtime=True, _tier="thorough")])
def rx_slow(m, divisor, runtime):
    from amlib.io.serial import AsyncSerial
    d = AsyncSerial(divisor=5 if runtime else divisor, data_bits=1, **(dict(divisor_bits=20) if runtime else {}))
    h = m.elab(d)
    data, noise = m.input("data", 1), [m.input("noise%d" % i) for i in range(5)]
    if runtime:
        h.set(d.divisor, divisor)
    h.set(d.rx.ack, 1)
    got = const(0, 2)
    for k in range(3 * divisor + 4):
        b, o = divmod(k, divisor)
        edge = b < 3 and (4 * o >= 3 * divisor or 4 * o < divisor and b > 0)
        h.set(d.rx.i, noise[(2 * b + (4 * o > divisor)) - 1] if edge else data if b == 1 else const(int(b > 1), 1))
        rdy = h.get(d.rx.rdy)
        got = got + t.zext(rdy, 2)
        m.check("not before the stop bit", lnot(rdy) if k < 2 * divisor else O1)
        m.check("data", implies(rdy, land(h.get(d.rx.data).eq(data), h.get(d.rx.err).eq(0))))
        h.tick()
    m.check("delivered once", got.eq(1))
