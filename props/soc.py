"""System on chip parts: C33 interrupt source, C34 Wishbone memories, C35 UART peripheral (at its registers)."""
from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, EVENT, RAM, ROM, UARTSER
from props.stubs import import_with_stubs

Z1 = const(0, 1)
O1 = const(1, 1)


# ---------------------------------------------------------------- interrupts

@harness("C33", "one to six event sources of every mode in every mixture of the listed ones; every pattern of strobes and of register writes over K cycles from reset",
         [dict(modes=("level",), K=10), dict(modes=("rise",), K=10), dict(modes=("fall",), K=10), dict(modes=("level", "rise", "fall"), K=9),
          dict(modes=("fall", "fall", "level", "rise", "rise", "level"), K=7), dict(modes=("rise", "level"), K=24, _tier="thorough"),
          dict(modes=("level", "rise", "fall", "rise") * 4, K=120, _plan=dict([("stb%d_" % i, "~%d:50:61" % i) for i in range(15)] + [("pw", "0*7,1"), ("ew", "1,0*11")]))])
def interrupts(m, modes, K):
    ev = import_with_stubs("amlib.soc.event")
    sources = [ev.EventSource(name="e%d" % i, **given(EVENT, mode=mo)) for i, mo in enumerate(modes)]
    d = ev.InterruptSource(sources, name="src")
    h = m.elab(d)
    n = len(modes)
    before = [Z1] * n
    pending, enable, status = const(0, n), const(0, n), const(0, n)
    for k in range(K):
        m.check("status shows the strobes of the cycle before", h.get(d.status.r_data).eq(status))
        m.check("pending", h.get(d.pending.r_data).eq(pending))
        m.check("enable", h.get(d.enable.r_data).eq(enable))
        m.check("interrupt exactly when an enabled event is pending", iff(h.get(d.irq), t.any_bit(pending & enable)))
        s = [m.input("stb%d_%d" % (i, k)) for i in range(n)]
        for e, v in zip(sources, s):
            h.set(e.stb, v)
        pw, ew = m.input("pw%d" % k), m.input("ew%d" % k)
        pd, ed = m.input("pd%d" % k, n), m.input("ed%d" % k, n)
        h.set(d.pending.w_stb, pw); h.set(d.pending.w_data, pd); h.set(d.enable.w_stb, ew); h.set(d.enable.w_data, ed)
        h.set(d.pending.r_stb, m.input("pr%d" % k)); h.set(d.status.r_stb, m.input("sr%d" % k)); h.set(d.enable.r_stb, m.input("er%d" % k))
        h.tick()
        fire = [{"level": v, "rise": land(v, lnot(b)), "fall": land(b, lnot(v))}[mo] for mo, v, b in zip(modes, s, before)]
        # an event in the cycle of the clearing write is not lost
        pending = ite(pw, pending & ~pd, pending) | t.concat(*fire)
        enable = ite(ew, ed, enable)
        status = t.concat(*s)
        before = s
    m.cover("pending and masked", land(t.any_bit(pending), lnot(t.any_bit(pending & enable))))
    m.cover("interrupt", t.any_bit(pending & enable))


# ---------------------------------------------------------------- memories

def _transactions(m, h, d, K, writes, granularity, words, A, W, check):
    """a master that holds a request until it is acknowledged, starts requests whenever it likes, and leaves anything on the other lines"""
    lanes = W // granularity
    bus = d.bus
    held, req = Z1, [const(0, 1), const(0, A), const(0, lanes), const(0, W)]
    acks = Z1
    waiting = Z1
    reads = Z1
    for k in range(K):
        new = [m.input("we%d" % k), m.input("adr%d" % k, A), m.input("sel%d" % k, lanes), m.input("dat%d" % k, W)]
        cyc, stb = m.input("cyc%d" % k), m.input("stb%d" % k)
        req = [ite(held, a, b) for a, b in zip(req, new)]
        active = lor(held, land(cyc, stb))
        cyc, stb = lor(held, cyc), lor(held, stb)
        we, adr, sel, dat = req
        ack = h.get(bus.ack)
        m.check("acknowledged exactly one cycle after the request", iff(ack, waiting))
        h.set(bus.cyc, cyc); h.set(bus.stb, stb); h.set(bus.we, we); h.set(bus.adr, adr); h.set(bus.sel, sel); h.set(bus.dat_w, dat)
        done = land(active, ack)
        word = t.select(words, adr)
        m.check("a read delivers the word last written there", implies(land(done, lnot(we)), h.get(bus.dat_r).eq(word)))
        reads = lor(reads, land(done, lnot(we)))
        if writes:
            merged = t.concat(*[ite(sel[i], t.extract(dat, i * granularity, granularity), t.extract(word, i * granularity, granularity)) for i in range(lanes)])
            words = [ite(land(done, we, adr.eq(i)), merged, w) for i, w in enumerate(words)]
        acks = acks | done
        # in the cycle of the acknowledgment the request ends; the next cycle may begin another
        held = land(active, lnot(done))
        waiting = land(active, lnot(done))
        h.tick()
    return acks, reads, words


@harness("C34", "memories of 2 to 8 words, 8 to 64 bit words of 8 to 32 bit lanes, initialised from numbers, octets in both orders and files; every sequence of "
         "reads and writes of any lanes over K cycles, with pauses and with arbitrary values on the lines of an idle bus",
         [dict(aw=4, dw=32, g=8, init="ints", K=7), dict(aw=3, dw=16, g=8, init="none", K=9), dict(aw=2, dw=8, g=8, init="bytes", K=10), dict(aw=4, dw=32, g=16, init="bytes", K=6),
          dict(aw=2, dw=32, g=32, init="bytes", K=8), dict(aw=4, dw=32, g=8, init="bytes", order="big", K=8), dict(aw=4, dw=64, g=8, init="file", K=6), dict(aw=3, dw=16, g=8, init="short", K=8),
          dict(aw=4, dw=32, g=8, init="bytes", ro=True, K=8), dict(aw=4, dw=32, g=8, init="bytes", rom=True, K=8), dict(aw=3, dw=32, g=16, init="bytes", rom=True, K=8),
          dict(aw=2, dw=16, g=16, init="ints", rom=True, K=8),
          dict(aw=7, dw=32, g=8, init="bytes", K=240, _plan=dict(cyc="1*9,0", stb="1*13,0*2", we="~1:60:83", adr=",".join(str(7 * i % 32) for i in range(45)))),
          dict(aw=8, dw=16, g=8, init="ints", K=240, _plan=dict(cyc="1", stb="1*13,0*2", we="~2:60:83", sel="3,1,2,3,0", adr=",".join(str(11 * i % 128) for i in range(35)))),
          dict(aw=6, dw=32, g=8, init="bytes", rom=True, K=80, _plan=dict(cyc="1", stb="1*5,0", we="0", adr=",".join(str(i) for i in range(16)))),
          dict(aw=5, dw=32, g=8, init="bytes", K=18, _tier="thorough"), dict(aw=4, dw=64, g=16, init="bytes", K=14, _tier="thorough")])
def memory(m, aw, dw, g, init, K, order="little", ro=False, rom=False):
    import os
    import tempfile
    mem = import_with_stubs("amlib.soc.memory")
    depth = 2 ** aw * g // dw
    A = max(depth.bit_length() - 1, 0)
    nb = dw // 8
    octets = bytes((i * 37 + 11) % 256 for i in range(depth * nb - (3 if init == "short" else 0)))
    value = {"none": None, "ints": [int.from_bytes(octets[i * nb:(i + 1) * nb], order) for i in range(depth)]}.get(init, octets)
    words = [0] * depth
    if init != "none":
        for i in range(depth):
            words[i] = int.from_bytes(octets[i * nb:(i + 1) * nb], order)
    with tempfile.TemporaryDirectory() as tmp:
        if init == "file":
            value = os.path.join(tmp, "image.bin")
        if rom:
            d = mem.WishboneROM(value, **given(ROM, addr_width=aw, data_width=dw, granularity=g))
        else:
            d = mem.WishboneRAM(**given(RAM, addr_width=aw, data_width=dw, granularity=g, init=value, byteorder=order, read_only=ro))
        if init == "file":
            # the documented way: the file may come into being after the construction, but before the elaboration
            with open(value, "wb") as f:
                f.write(octets)
        h = m.elab(d)
    lanes = dw // g
    m.check("bus is as wide as asked", const(int(len(d.bus.sel) == lanes and len(d.bus.dat_r) == dw and len(d.bus.adr) >= A), 1))
    m.check("memory map as large as asked", const(int(d.bus.granularity == g and d.bus.memory_map.addr_width == aw and d.bus.memory_map.data_width == g), 1))
    m.check("the memory map lists the memory at all its addresses", const(int([(i.resource is d, i.start, i.end) for i in d.bus.memory_map.all_resources()] == [(True, 0, 2 ** aw)]), 1))
    acks, reads, words = _transactions(m, h, d, K, not (ro or rom), g, [const(w, dw) for w in words], len(d.bus.adr), dw, None)
    m.cover("a read", reads)


# ---------------------------------------------------------------- UART peripheral

REGS = ["enabled", "divisor", "rx_data", "rx_rdy", "rx_err", "tx_data", "tx_rdy", "ev_status", "ev_pending", "ev_enable"]


def _uart(m, **kw):
    """the peripheral and its registers by their names"""
    from types import SimpleNamespace
    uart = import_with_stubs("amlib.soc.uart")
    from props.stubs import registers_of
    periph = uart.UARTPeripheral(**given(UARTSER, **kw))
    regs = registers_of(periph.bus)
    r = {}
    for n in REGS:
        found = [e for k, e in regs.items() if k == n or k.endswith("_" + n)]
        assert len(found) == 1, (n, list(regs))
        r[n] = found[0]
    return periph, m.elab(periph), SimpleNamespace(**r), regs


@harness("C35", "transmitter: every pattern of register writes of data and of the enable bit over the first cycles, FIFO depths 1 to 4, divisors 5 and 6, three parities; "
         "the words taken appear on the line in order, the ready register tells when there is room, disabled or full nothing is taken",
         [dict(depth=2, div=5, bits=4, K=6), dict(depth=4, div=5, bits=3, K=7), dict(depth=1, div=6, bits=3, K=5, parity="even"), dict(depth=3, div=5, bits=2, K=6, parity="odd"),
          dict(depth=16, div=5, bits=8, K=20, plain=True),
          dict(depth=2, div=5, bits=8, K=8, _tier="thorough"), dict(depth=8, div=5, bits=4, K=12, _tier="thorough")])
def uart_transmit(m, depth, div, bits, K, parity="none", plain=False):
    from props.serial import TxMonitor
    d, h, r, regs = _uart(m, rx_depth=depth if plain else 2, tx_depth=depth, divisor=div, data_bits=bits, parity=parity)
    n = bits + 2 + (parity != "none")
    mon = TxMonitor(n, bits, parity, div, latency=div + 2)
    h.set(d.rx, 1)
    cap = K + 1
    q, nin, nout = [const(0, bits)] * cap, const(0, 5), const(0, 5)
    enabled = Z1
    total = K + (depth + 2) * (n * div + div + 4)
    for k in range(total):
        live = k < K
        w = (m.input("w%d" % k) if not plain else const(int(k > 0), 1)) if live else Z1
        x = m.input("x%d" % k, bits) if live else const(0, bits)
        es, ev = (m.input("es%d" % k), m.input("ev%d" % k)) if live and not plain else (const(int(k == 0), 1), const(int(k == 0), 1))
        h.set(r.tx_data.w_stb, w); h.set(r.tx_data.w_data, x); h.set(r.enabled.w_stb, es); h.set(r.enabled.w_data, ev)
        m.check("enable bit", iff(h.get(d.enabled), enabled))
        room = h.get(r.tx_rdy.r_data)
        # traffic on the other half changes nothing
        if k % div == 0:
            h.set(d.rx, m.input("line%d" % k))
        h.set(r.rx_data.r_stb, m.input("rr%d" % k)); h.set(r.rx_rdy.r_stb, m.input("rs%d" % k)); h.set(r.tx_rdy.r_stb, m.input("ts%d" % k))
        took = land(w, enabled, room)
        m.check("room while fewer words than the depth wait", implies((nin - nout).ult(depth), room))
        # what the transmitter takes from the FIFO is seen from outside: it is driving from the next cycle on
        drv = h.get(d.driving)
        if k:
            begin = land(drv, lnot(wasdrv))
            word = t.select(q, nout)
            m.check("it sends only words it took", implies(begin, nout.ult(nin)))
            mon.step(m, line, begin, word)
            nout = ite(begin, nout + 1, nout)
            m.check("transmitter empty event tells whether words wait", iff(h.get(r.ev_status.r_data)[2], wasempty))
        wasempty = nout.eq(nin)
        q = [ite(land(took, nin.eq(i)), x, y) for i, y in enumerate(q)]
        nin = ite(took, nin + 1, nin)
        enabled = ite(es, ev, enabled)
        line = h.get(d.tx)
        wasdrv = drv
        h.tick()
    m.check("every word taken was sent", nout.eq(nin))
    m.cover("full", nin.eq(min(depth + 1, K - 1)))
    if not plain:
        m.cover("disabled again", land(lnot(enabled), lnot(nin.eq(0))))


@harness("C35", "receiver: every data word and stop bit of frames with listed gaps, reads of the data register at any time; FIFO depths 1 to 3: words are read "
         "in order, none twice, a word is lost only when the FIFO is full, and then the overflow flag and the error event say so; status registers and events",
         [dict(depth=2, div=5, bits=3, frames=3), dict(depth=1, div=6, bits=2, frames=3, parity="odd"), dict(depth=3, div=5, bits=4, frames=4, gap=3),
          dict(depth=16, div=5, bits=8, frames=19, tail=54, _plan=dict(rd="0*925,1*90", es="1,0*6", ev="1", ds="0*12,1", w="1")),
          dict(depth=16, div=6, bits=5, frames=24, gap=1, parity="even", tail=20, _plan=dict(rd="~1:25:97", es="0", ds="0*12,1", w="1", flip="0")),
          dict(depth=2, div=5, bits=8, frames=4, _tier="thorough"), dict(depth=4, div=5, bits=4, frames=7, _tier="thorough")])
def uart_receive(m, depth, div, bits, frames, parity="none", gap=0, tail=6):
    from props.serial import frame_of
    d, h, r, regs = _uart(m, rx_depth=depth, tx_depth=2, divisor=div, data_bits=bits, parity=parity)
    h.set(d.rx, 1)
    for _ in range(3):
        h.tick()
    n = bits + 2 + (parity != "none")
    words = [m.input("x%d" % i, bits) for i in range(frames)]
    pars = [m.input("flip%d" % i) if parity != "none" else Z1 for i in range(frames)]
    stops = [m.input("stop%d" % i) if i == frames - 1 else O1 for i in range(frames)]
    line, at = [], []
    for i, x in enumerate(words):
        f = frame_of(x, parity)[:-1] + [stops[i]]
        if parity != "none":
            f[-2] = f[-2] ^ pars[i]
        at.append(len(line))
        for b in f:
            line += [b] * div
        line += [O1] * gap
    # after a missing stop bit the line has to come back up
    line += [O1] * tail
    # a word arrives at some time between the begin of its stop bit and the second cycle after it; nobody reads then
    arriving = {k for s in at for k in range(s + (n - 1) * div, s + n * div + 3)}
    ends = {s + (n - 1) * div: i for i, s in enumerate(at)}
    q, count = [const(0, bits)] * depth, const(0, 5)
    ovf, frm, par = Z1, Z1, Z1
    reads = const(0, 5)
    full = Z1
    for k, b in enumerate(line):
        h.set(d.rx, b)
        if k in ends:
            i = ends[k]
            room = count.ult(depth)
            q = [ite(land(room, count.eq(j)), words[i], x) for j, x in enumerate(q)]
            count = ite(room, count + 1, count)
            ovf = lnot(room)
            frm = ite(room, lnot(stops[i]), frm)
            par = ite(room, pars[i], par)
            full = lor(full, lnot(room))
        rd = Z1
        status = h.get(r.ev_status.r_data)
        if k:
            m.check("ready event follows the ready register", iff(status[0], was[0]))
            m.check("error event follows the error register", iff(status[1], was[1]))
            # the ready event notifies as long as words wait, the error event only when an error appears; writing ones clears
            trigger = [was[0], land(was[1], lnot(before))]
            m.check("error and ready notifications", land(*[iff(h.get(r.ev_pending.r_data)[i], lor(trigger[i], land(pend[i], lnot(clear[i])))) for i in range(2)]))
        before = was[1] if k else Z1
        was = [h.get(r.rx_rdy.r_data), t.any_bit(h.get(r.rx_err.r_data))]
        pend = h.get(r.ev_pending.r_data)
        clear = ite(m.input("pc%d" % k), m.input("pd%d" % k, 3), const(0, 3))
        h.set(r.ev_pending.w_stb, 1 if k % 2 else t.any_bit(clear)); h.set(r.ev_pending.w_data, clear)
        if k not in arriving:
            m.check("ready while words wait", iff(h.get(r.rx_rdy.r_data), lnot(count.eq(0))))
            m.check("data is the oldest word", implies(lnot(count.eq(0)), h.get(r.rx_data.r_data).eq(q[0])))
            m.check("overflow, frame and parity errors", h.get(r.rx_err.r_data).eq(t.concat(ovf, frm, par)))
            rd = m.input("rd%d" % k) if k % 3 == 0 or k > len(line) - 3 else Z1
        h.set(r.rx_data.r_stb, rd)
        # the transmitter may be at work meanwhile, on or off; the divisor is written again as it is
        h.set(r.enabled.w_stb, m.input("es%d" % k)); h.set(r.enabled.w_data, m.input("ev%d" % k))
        h.set(r.tx_data.w_stb, m.input("w%d" % k) if k % 4 == 1 else Z1); h.set(r.tx_data.w_data, m.input("tx%d" % k, bits) if k % 4 == 1 else const(0, bits))
        h.set(r.divisor.w_stb, m.input("ds%d" % k)); h.set(r.divisor.w_data, div)
        # reading the other registers takes nothing away
        h.set(r.rx_rdy.r_stb, m.input("sr%d" % k)); h.set(r.rx_err.r_stb, m.input("se%d" % k))
        took = land(rd, lnot(count.eq(0)))
        q = [ite(took, x, y) for x, y in zip(q[1:] + q[-1:], q)]
        count = ite(took, count - 1, count)
        reads = ite(took, reads + 1, reads)
        h.tick()
    if depth < frames and not tail == 20:
        m.cover("overflow", full)
    m.cover("all read", reads.eq(frames) if depth < 16 else lnot(reads.ult(16)))


@harness("C35", "reads of the data register in every cycle, those in which a word arrives included: FIFO depths 1 to 4, every word, gaps of 0 to 3 cycles; "
         "each word is delivered once and in order, only a full FIFO loses one and the overflow flag tells exactly which",
         [dict(depth=1, div=5, bits=2, frames=4), dict(depth=2, div=5, bits=3, frames=5, gap=1), dict(depth=4, div=6, bits=2, frames=4, gap=3), dict(depth=3, div=5, bits=4, frames=7, gap=2, _tier="thorough")])
def uart_reads(m, depth, div, bits, frames, gap=0):
    from props.serial import frame_of
    d, h, r, regs = _uart(m, rx_depth=depth, tx_depth=2, divisor=div, data_bits=bits, parity="none")
    h.set(d.rx, 1)
    for _ in range(3):
        h.tick()
    n = bits + 2
    words = [m.input("x%d" % i, bits) for i in range(frames)]
    line, opens, closes = [], {}, {}
    for i, x in enumerate(words):
        opens[len(line) + (n - 1) * div] = i
        closes[len(line) + n * div + 3] = i
        for b in frame_of(x, "none"):
            line += [b] * div
        line += [O1] * gap
    line += [O1] * 8
    q, count = [const(0, bits)] * (depth + 1), const(0, 4)
    window = False
    early = wasfull = Z1
    lost = Z1
    for k, b in enumerate(line):
        h.set(d.rx, b)
        if k in opens:
            window, cur, early, touched, wasfull = True, words[opens[k]], Z1, Z1, count.eq(depth)
        if k in closes:
            window = False
            over = h.get(r.rx_err.r_data)[0]
            m.check("an overflow only of a full FIFO, and not of a word delivered", implies(over, land(wasfull, lnot(early))))
            m.check("a full FIFO that nobody reads overflows", implies(land(wasfull, lnot(touched)), over))
            lost = lor(lost, over)
            push = land(lnot(over), lnot(early))
            q = [ite(land(push, count.eq(j)), cur, x) for j, x in enumerate(q)]
            count = ite(push, count + 1, count)
            m.check("never more than the FIFO holds", count.ule(depth))
        rdy, data = h.get(r.rx_rdy.r_data), h.get(r.rx_data.r_data)
        some = lnot(count.eq(0))
        m.check("ready while words wait", implies(some, rdy))
        m.check("not ready without a word", implies(rdy, lor(some, lnot(early)) if window else some))
        m.check("data is the oldest word", implies(rdy, data.eq(ite(some, q[0], cur) if window else q[0])))
        rd = m.input("rd%d" % k)
        h.set(r.rx_data.r_stb, rd)
        took = land(rd, rdy)
        if window:
            touched = lor(touched, rd)
            early = lor(early, land(took, lnot(some)))
        pop = land(took, some)
        q = [ite(pop, x, y) for x, y in zip(q[1:] + q[-1:], q)]
        count = ite(pop, count - 1, count)
        h.tick()
    m.cover("delivered as it came", early if window else O1)
    if frames > depth:
        m.cover("lost", lost)


@harness("C35", "registers: the divisor written is the one in force, for every written value and time, idle and during traffic in both directions; "
         "every register and event is reachable by the bus bridge exactly once",
         [dict(K=6, busy=False), dict(K=24, busy=True), dict(K=5, busy=False, width=20), dict(K=5, busy=False, width=32), dict(K=5, busy=False, width=None, reset=70000)])
def uart_registers(m, K, busy, width=6, reset=9):
    d, h, r, regs = _uart(m, rx_depth=2, tx_depth=2, divisor=reset, **(dict(divisor_bits=width) if width else {}))
    width = width or reset.bit_length()
    m.check("the divisor register has all of its bits", const(int(r.divisor.width == width), 1))
    h.set(d.rx, 1)
    value = const(reset, width)
    h.set(r.enabled.w_stb, int(busy)); h.set(r.enabled.w_data, int(busy))
    h.tick()
    h.set(r.enabled.w_stb, 0)
    drv = Z1
    for k in range(K):
        m.check("divisor reads back", h.get(r.divisor.r_data).eq(value))
        if not busy:
            m.check("line idles high", h.get(d.tx))
        else:
            if k in (1, 3):
                h.set(d.rx, m.input("line%d" % k))
            h.set(r.tx_data.w_stb, m.input("ts%d" % k) if k < 4 else Z1); h.set(r.tx_data.w_data, m.input("tx%d" % k, 8) if k < 4 else const(0, 8))
            drv = lor(drv, h.get(d.driving))
        w, x = m.input("w%d" % k), m.input("x%d" % k, width)
        h.set(r.divisor.w_stb, w); h.set(r.divisor.w_data, x)
        h.set(r.divisor.r_stb, m.input("rs%d" % k))
        h.tick()
        value = ite(w, x, value)
    m.check("every register is on the bus once", const(int(len(regs) == len(REGS)), 1))
    m.check("interrupt of the peripheral", const(int(d.irq is not None), 1))
    m.cover("end", drv if busy else O1)


@harness("C35", "a written divisor sets the speed of both directions: words sent and received at the old, the new and again the old divisor; every word",
         [dict(first=9, second=5, bits=3), dict(first=5, second=12, bits=4, parity="even")])
def uart_speed(m, first, second, bits, parity="none"):
    from props.serial import frame_of
    d, h, r, regs = _uart(m, rx_depth=4, tx_depth=4, divisor=first, divisor_bits=6, data_bits=bits, parity=parity)
    h.set(d.rx, 1)
    h.set(r.enabled.w_stb, 1); h.set(r.enabled.w_data, 1)
    h.tick()
    h.set(r.enabled.w_stb, 0)
    for i, div in enumerate((first, second, first)):
        h.set(r.divisor.w_stb, 1); h.set(r.divisor.w_data, div)
        h.tick()
        h.set(r.divisor.w_stb, 0)
        for _ in range(2 * max(first, second)):
            h.tick()
        x, y = m.input("tx%d" % i, bits), m.input("rx%d" % i, bits)
        h.set(r.tx_data.w_stb, 1); h.set(r.tx_data.w_data, x)
        h.tick()
        h.set(r.tx_data.w_stb, 0)
        sent, came = [], []
        for b in frame_of(y, parity):
            came += [b] * div
        came += [O1] * (3 * div)
        for b in came:
            h.set(d.rx, b)
            h.tick()
            sent.append(h.get(d.tx))
        want = [b for b in frame_of(x, parity) for _ in range(div)]
        # the frame begins within a bit time and a few cycles and has every bit for exactly div cycles
        m.check("frame sent at the divisor in force (%d)" % i, lor(*[land(*[sent[j] for j in range(o)], *[iff(sent[o + j], b) for j, b in enumerate(want)],
                                                                    *[sent[j] for j in range(o + len(want), len(sent))]) for o in range(div + 4)]))
        m.check("a word came in (%d)" % i, h.get(r.rx_rdy.r_data))
        m.check("the word that came in (%d)" % i, h.get(r.rx_data.r_data).eq(y))
        m.check("no error (%d)" % i, h.get(r.rx_err.r_data).eq(0))
        h.set(r.rx_data.r_stb, 1)
        h.tick()
        h.set(r.rx_data.r_stb, 0)
    m.cover("end", O1)


@harness("C35", "events: transmitter empty and receiver ready notifications reach the interrupt line exactly when enabled; every pattern of writes to the enable and pending registers over the listed cycles",
         [dict(div=5, bits=2)])
def uart_events(m, div, bits):
    d, h, r, regs = _uart(m, rx_depth=2, tx_depth=2, divisor=div, data_bits=bits)
    h.set(d.rx, 1)
    h.set(r.enabled.w_stb, 1); h.set(r.enabled.w_data, 1)
    h.tick()
    h.set(r.enabled.w_stb, 0)
    for _ in range(3):
        h.tick()
    pend, en = h.get(r.ev_pending.r_data), const(0, 3)
    m.check("transmitter empty from the start, nothing received", pend.eq(4))
    m.check("no interrupt before one is enabled", lnot(h.get(d.irq)))
    send = m.input("send")
    h.set(r.tx_data.w_stb, send); h.set(r.tx_data.w_data, m.input("x", bits))
    h.set(r.ev_pending.w_stb, 1); h.set(r.ev_pending.w_data, 7)
    h.set(r.ev_enable.w_stb, 1); en = m.input("en", 3); h.set(r.ev_enable.w_data, en)
    h.tick()
    h.set(r.tx_data.w_stb, 0); h.set(r.ev_pending.w_stb, 0); h.set(r.ev_enable.w_stb, 0)
    m.check("cleared", h.get(r.ev_pending.r_data).eq(0))
    # a frame comes in meanwhile, or not
    came = m.input("came")
    y = m.input("y", bits)
    for b in [Z1] + [y[i] for i in range(bits)] + [O1]:
        for _ in range(div):
            h.set(d.rx, lor(b, lnot(came)))
            m.check("interrupt exactly when an enabled event is pending", iff(h.get(d.irq), t.any_bit(h.get(r.ev_pending.r_data) & en)))
            h.tick()
    for _ in range(div + 6):
        h.tick()
    m.check("transmitter ran empty again exactly when something was sent, receiver ready exactly when something came", h.get(r.ev_pending.r_data).eq(t.concat(came, Z1, send)))
    m.check("interrupt accordingly", iff(h.get(d.irq), lor(land(came, en[0]), land(send, en[2]))))
    m.cover("both", land(came, send, en[0], en[2]))
