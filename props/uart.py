from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.stubs import import_with_stubs

Z1 = const(0, 1)
O1 = const(1, 1)


class Line:
    """watches a serial line: every frame must carry the next accepted octet, each bit exactly div cycles long"""
    def __init__(self, m, div, slots, latency):
        self.m, self.div, self.latency = m, div, latency
        self.q = [const(0, 8)] * slots
        self.nin = const(0, 8)
        self.nout = const(0, 8)           # frames begun
        self.left = const(0, 18)          # cycles left of the present frame, this one included
        self.wait = const(0, 6)

    def accept(self, acc, word):
        n = word.w // 8
        for i in range(n):
            p = self.nin + i
            b = word[8 * i:8 * i + 8]
            self.q = [ite(land(acc, p.eq(j)), b, x) for j, x in enumerate(self.q)]
        self.nin = self.nin + ite(acc, const(n, 8), const(0, 8))

    def look(self, tx):
        """one cycle of the line, before this cycle's accept()"""
        m, div = self.m, self.div
        F = 10 * div
        begin = land(self.left.eq(0), lnot(tx))
        m.check("a frame only for an accepted octet", implies(begin, self.nout.ult(self.nin)))
        left = ite(begin, const(F, 18), self.left)
        byte = t.select(self.q, ite(begin, self.nout, self.nout - 1))
        frame = t.concat(Z1, byte, O1)
        want = O1
        pos = const(F, 18) - left
        for i in range(10):
            inb = land(left.ne(0), pos.uge(const(i * div, 18)), pos.ult((i + 1) * div))
            want = ite(inb, frame[i], want)
        m.check("the line carries start bit, octet least significant bit first and stop bit, each of one bit time", tx.eq(want))
        self.wait = ite(land(left.eq(0), self.nout.ult(self.nin)), self.wait + 1, const(0, 6))
        m.check("no octet is left waiting", self.wait.ule(const(self.latency, 6)))
        self.nout = ite(begin, self.nout + 1, self.nout)
        self.active = left.ne(0)
        self.left = ite(left.ne(0), left - 1, left)


@harness("C22", "UART transmitter from reset: every octet and every pattern of valid over K cycles at small divisors; at: valid arbitrary in the first cycles and around the ends of the frames, asserted in between; at=0: asserted throughout, at usual divisors", 
         [dict(div=1, K=34), dict(div=2, K=44), dict(div=3, K=64), dict(div=5, K=70), dict(div=16, K=190, _tier="thorough"), dict(div=4, K=170, _tier="thorough")]
         + [dict(div=v, K=22 * v + 20, at=3) for v in (4, 7, 8, 9)] + [dict(div=v, K=22 * v + 8, at=0) for v in (16, 17, 100, 104, 217)] + [dict(div=1250, K=12600, at=0), dict(div=5208, K=11 * 5208, at=0, _tier="thorough")])
def transmitter(m, div, K, at=None):
    mod = import_with_stubs("amlib.stream.uart")
    d = mod.UARTTransmitter(divisor=div)
    h = m.elab(d)
    ln = Line(m, div, K // (10 * div) + 2, 1)
    # valid may drop again without being accepted
    prev_acc = Z1
    for k in range(K):
        free = at is None or k < at or -at < (k - 10 * div) % (10 * div) <= at
        v, x = (m.input("v%d" % k), m.input("d%d" % k, 8)) if free else (O1, const(0x35, 8))
        h.set(d.stream.valid, v); h.set(d.stream.payload, x)
        tx, r = h.get(d.tx), h.get(d.stream.ready)
        ln.look(tx)
        m.check("driving exactly while a frame is sent", iff(h.get(d.driving), ln.active))
        m.check("idle exactly while no frame is sent", iff(h.get(d.idle), lnot(ln.active)))
        m.check("ready whenever idle", implies(h.get(d.idle), r))
        m.check("back to back: the next octet is accepted in the last cycle of a frame", implies(ln.left.eq(0), r))
        m.check("not ready inside a frame", implies(ln.left.ne(0), lnot(r)))
        ln.accept(land(v, r), x)
        h.tick()
    m.cover("two frames", ln.nout.ugt(1))


@harness("C22", "multi byte transmitter from reset: every word and pattern of valid over K cycles, words of 1 to 4 octets",
         [dict(n=1, div=1, K=34), dict(n=2, div=1, K=46), dict(n=3, div=1, K=46), dict(n=2, div=2, K=56), dict(n=2, div=2, K=90, _tier="thorough"), dict(n=3, div=1, K=70, _tier="thorough"), dict(n=4, div=2, K=180, _tier="thorough"),
          dict(n=4, div=1, K=54), dict(n=3, div=9, K=600, _plan=dict(v="1*30,0*260,1*80")), dict(n=8, div=4, K=760, _plan=dict(v="1")), dict(n=5, div=16, K=1700, _plan=dict(v="0*3,1"))])
def multibyte(m, n, div, K):
    mod = import_with_stubs("amlib.stream.uart")
    d = mod.UARTMultibyteTransmitter(byte_width=n, divisor=div)
    h = m.elab(d)
    ln = Line(m, div, K // (10 * div) + 3 + 2 * n, 2)
    quiet = O1
    for k in range(K):
        v, x = m.input("v%d" % k), m.input("d%d" % k, 8 * n)
        h.set(d.stream.valid, v); h.set(d.stream.payload, x)
        tx, r = h.get(d.tx), h.get(d.stream.ready)
        ln.look(tx)
        idle = h.get(d.idle)
        m.check("idle means a word is accepted", implies(idle, r))
        m.check("not idle while octets of a word wait", implies(idle, (ln.nin - ln.nout).ule(1)))
        m.check("idle once everything is sent", implies(land(quiet, ln.left.eq(0), ln.nin.eq(ln.nout)), idle))
        quiet = land(ln.left.eq(0), ln.nin.eq(ln.nout))
        m.check("a word is only accepted when the last octet of the one before is on its way", implies(r, (ln.nin - ln.nout).ule(1)))
        ln.accept(land(v, r), x)
        h.tick()
    m.cover("two words begun", ln.nout.ugt(n))


@harness("C22", "wishbone UART transmitter: every bus signal arbitrary in every cycle; a write is sent exactly when it is acknowledged",
         [dict(div=1, K=34), dict(div=2, K=44), dict(div=7, K=150, _tier="thorough"),
          dict(div=10, K=360, _plan=dict(cyc="1", stb="1*50,0*3,1*90", we="1*120,0*1")), dict(div=104, K=2200, _plan=dict(cyc="1", stb="1", we="1"))])
def peripheral(m, div, K):
    mod = import_with_stubs("amlib.stream.uart")
    d = mod.UARTTransmitterPeripheral(divisor=div)
    h = m.elab(d)
    ln = Line(m, div, K // (10 * div) + 2, 1)
    for k in range(K):
        cyc, stb, we, x = m.input("cyc%d" % k), m.input("stb%d" % k), m.input("we%d" % k), m.input("d%d" % k, 8)
        h.set(d.bus.cyc, cyc); h.set(d.bus.stb, stb); h.set(d.bus.we, we); h.set(d.bus.dat_w, x)
        tx, ack = h.get(d.tx), h.get(d.bus.ack)
        ln.look(tx)
        m.check("acknowledged without delay when the line is free", implies(land(cyc, stb, we, lnot(ln.active)), ack))
        ln.accept(land(cyc, stb, we, ack), x)
        h.tick()
    m.cover("two frames", ln.nout.ugt(1))
