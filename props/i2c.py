from types import SimpleNamespace
from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, I2C


def pads():
    from amaranth import Signal
    w = {}
    for n in ("scl", "sda"):
        w[n + "_t"] = SimpleNamespace(i=Signal(name=n + "_i", reset=1), o=Signal(name=n + "_o"), oe=Signal(name=n + "_oe"))
    return SimpleNamespace(**w)


W = 8


class Bus:
    """Open-drain wires, an addressed peer that drives SDA/stretches SCL, and a monitor that checks the event sequence.
    events: list of ('S',) | ('P',) | ('bit', expected value or None, peer value or None)."""

    def __init__(self, m, h, p, events, stretch):
        self.m, self.h, self.p, self.events = m, h, p, events
        self.e = const(0, W)                 # events seen so far
        self.scl = self.sda = const(1, 1)
        self.peer = const(1, 1)
        self.hold = const(0, 4)              # remaining stretch cycles
        self.stretch = stretch               # event index -> term (cycles)
        self.high = const(0, W)              # cycles since the last rise, saturating
        self.low = const(0, W)

    def drive(self):
        """Settle the wires for this cycle (peer outputs and stretch were set by the previous step)."""
        h, p = self.h, self.p
        dscl = lnot(land(h.get(p.scl_t.oe), lnot(h.get(p.scl_t.o))))
        dsda = lnot(land(h.get(p.sda_t.oe), lnot(h.get(p.sda_t.o))))
        fall = land(self.scl, lnot(dscl))
        if self.stretch:
            amount = const(0, 4)
            for i, v in self.stretch.items():
                amount = ite(self.e.eq(i), v, amount)
            hold = ite(fall, amount, ite(land(dscl, self.hold.ne(0)), self.hold + 15, self.hold))
            scl = land(dscl, hold.eq(0))
        else:
            hold = self.hold
            scl = dscl
        n = len(self.events)
        peer_next = t.select([const(1, 1) if ev[0] != "bit" or ev[2] is None else ev[2] for ev in self.events] + [const(1, 1)], self.e)
        self.sda_now = land(dsda, self.peer)
        self.scl_now = scl
        self.hold = hold
        self.peer = ite(lnot(scl), peer_next, self.peer)
        h.set(p.scl_t.i, scl)
        h.set(p.sda_t.i, self.sda_now)

    def observe(self, lowmin, highmin, setup=1):
        m = self.m
        scl, sda = self.scl_now, self.sda_now
        rise = land(lnot(self.scl), scl)
        fall = land(self.scl, lnot(scl))
        start = land(self.scl, scl, self.sda, lnot(sda))
        stop = land(self.scl, scl, lnot(self.sda), sda)
        evs = self.events
        n = len(evs)
        isbit = [const(int(ev[0] == "bit"), 1) for ev in evs] + [const(0, 1)]
        isS = [const(int(ev[0] == "S"), 1) for ev in evs] + [const(0, 1)]
        isP = [const(int(ev[0] == "P"), 1) for ev in evs] + [const(0, 1)]
        exp = [ev[1] if ev[0] == "bit" and ev[1] is not None else sda for ev in evs] + [sda]
        m.check("clock pulses only for the bits of the transfer", implies(rise, t.select(isbit, self.e)))
        m.check("bit on the bus", implies(land(rise, t.select(isbit, self.e)), sda.eq(t.select([x if x is not None else sda for x in exp], self.e))))
        # the clock pulse that would precede a start/stop is omitted when the line already has the right level
        skip = t.select([const(int(ev[0] == "bit" and len(ev) > 3), 1) for ev in evs] + [const(0, 1)], self.e)
        at = ite(land(lor(start, stop), skip), self.e + 1, self.e)
        m.check("start condition only where requested", implies(start, t.select(isS, at)))
        m.check("stop condition only where requested", implies(stop, t.select(isP, at)))
        m.check("clock low phase long enough", implies(rise, self.low.uge(lowmin)))
        m.check("clock high phase long enough", implies(fall, self.high.uge(highmin)))
        ev = lor(rise, start, stop)
        self.e = ite(land(ev, at.ult(n)), at + 1, at)
        sat = lambda x: ite(x.eq(255), x, x + 1)
        self.high = ite(scl, ite(rise, const(1, W), sat(self.high)), self.high)
        self.low = ite(scl, self.low, ite(fall, const(1, W), sat(self.low)))
        self.scl, self.sda = scl, sda


def script_events(m, script, stretch_max, fix={}, holds=None):
    """script: string of S (start or repeated start), W (write octet), R (read octet), P (stop)."""
    ops, events, stretch = [], [], {}
    for i, c in enumerate(script):
        op = dict(kind=c)
        if holds and i:
            # a given number of cycles at every clock pulse, conditions included
            for k in range(9 if c in "WR" else 1):
                stretch[len(events) + k] = const(holds[len(stretch) % len(holds)], 4)
        if c == "S":
            if i:
                events.append(("bit", const(1, 1), None, "opt"))
            events.append(("S",))
        elif c == "P":
            events.append(("bit", const(0, 1), None, "opt"))
            events.append(("P",))
        else:
            byte = m.input("byte%d" % i, 8)
            ack = const(fix[i], 1) if i in fix else m.input("ack%d" % i)
            op.update(byte=byte, ack=ack)
            if stretch_max:
                a = m.range("st%d" % i, 4, 0, stretch_max)
                b = m.range("su%d" % i, 4, 0, stretch_max)
                stretch[len(events) + 3] = a
                stretch[len(events) + 8] = b
            for k in range(8):
                if c == "W":
                    events.append(("bit", byte[7 - k], None))
                else:
                    events.append(("bit", byte[7 - k], byte[7 - k]))
            events.append(("bit", lnot(ack), lnot(ack) if c == "W" else None))
        op["end"] = len(events)
        ops.append(op)
    return ops, events, stretch


_I = [dict(script="SWWP", period=8, stretch=None), dict(script="SWSRP", period=16, stretch=None, fix={1: 0}), dict(script="SWSRP", period=16, stretch=None, fix={1: 1}), dict(script="SWRRP", period=8, stretch=None),
      dict(script="SRSWP", period=12, stretch=0, fix={1: 0}), dict(script="SRSWP", period=12, stretch=0, fix={1: 1}),
      dict(script="SRSWP", period=12, stretch=0, _tier="thorough"), dict(script="SWSRP", period=16, stretch=None, _tier="thorough"), dict(script="SRWP", period=4, stretch=None), dict(script="SPSWP", period=20, stretch=0),
      dict(script="SWP", period=8, stretch=1, _weight=5), dict(script="SWP", period=8, stretch=2, _weight=5, _tier="thorough"), dict(script="SRP", period=8, stretch=1, _weight=5),
      dict(script="SWRWWRRSWP", period=10, stretch=None, fix={1: 1, 2: 1, 3: 1, 4: 0, 5: 1, 6: 0, 8: 1}, gaps=(0, 5, 1, 0, 2, 9)),
      dict(script="SWRWWRRSWPSRP", period=8, stretch=0, fix={1: 1, 2: 0, 3: 0, 4: 1, 5: 0, 6: 1, 8: 0, 11: 1}, gaps=(3, 1, 0, 0, 12)),
      dict(script="SWWSRRPSWP", period=8, stretch=15, fix={1: 1, 2: 0, 4: 1, 5: 0, 8: 1}, holds=(0, 1, 7, 2, 0, 15, 4, 3), gaps=(0, 0, 2)),
      dict(script="SWSRPSWP", period=13, stretch=9, fix={1: 1, 3: 0, 6: 0}, holds=(2, 9, 0, 5, 3, 1), gaps=(4, 0, 1)),
      dict(script="SWP", period=8, stretch=15, holds=(1, 0, 2, 15, 3), gaps=(1, 6)), dict(script="SRP", period=8, stretch=15, holds=(9, 1, 0, 4), gaps=(0, 2)),
      dict(script="SWWSRP", period=100, stretch=None, fix={1: 1, 2: 0, 4: 1}, gaps=(0, 40, 0)), dict(script="SWRP", period=300, stretch=3, fix={1: 1, 2: 0}, holds=(0, 3), gaps=(0, 0)),
      dict(script="SPSSWP", period=1024, stretch=0, fix={4: 1}, gaps=(0, 7)),
      dict(script="SWP", period=12, stretch=4, _tier="thorough", _weight=5), dict(script="SRP", period=12, stretch=3, _tier="thorough", _weight=5),
      dict(script="SWRP", period=8, stretch=4, _tier="thorough", _weight=5)]


@harness("C04", "I2CInitiator from reset: the listed command scripts (S start/repeated start, W write, R read, P stop) with symbolic octets, "
         "symbolic acknowledge bits, commands issued as soon as busy falls; stretch=None: clock stretching support off; "
         "stretch=n: the peer holds SCL low for symbolic 0..n extra cycles at two bits of each octet, with holds for the listed numbers of cycles, in turn, at "
         "every clock pulse; gaps: idle cycles before the commands, in turn; usual periods", _I)
def initiator(m, script, period, stretch, fix={}, holds=None, gaps=(0,)):
    from amlib.io.i2c import I2CInitiator
    p = pads()
    d = I2CInitiator(p, period, **given(I2C, clk_stretch=stretch is not None))
    h = m.elab(d)
    ops, events, st = script_events(m, script, 0 if holds else stretch or 0, fix, holds)
    bus = Bus(m, h, p, events, st)
    c = const(0, 4)
    nb = sum(1 for e in events if e[0] == "bit")
    per = 4 * (period // 4 + 1) + (8 if stretch is not None else 1)
    total = (nb + 3 * len(ops)) * per + 20 + 2 * (stretch or 0) * len(ops) + (nb * max(holds) if holds else 0) + sum(gaps) * len(ops)
    q = period // 4
    rest, idled = const(0, 8), const(0, 1)
    for k in range(total):
        busy = h.get(d.busy)
        free = lnot(busy)
        rest = ite(land(free, lnot(idled)), t.select([const(gaps[i % len(gaps)], 8) for i in range(len(ops))] + [const(0, 8)], c), rest)
        idled = free
        idle = land(free, rest.eq(0))
        for sig, kind in ((d.start, "S"), (d.stop, "P"), (d.write, "W"), (d.read, "R")):
            want = lor(*[c.eq(i) for i, o in enumerate(ops) if o["kind"] == kind])
            h.set(sig, ite(free, land(want, idle), m.input("%s%d" % (kind, k)) if k < 2000 else want))       # ignored while busy
        h.set(d.data_i, ite(idle, t.select([o.get("byte", const(0, 8)) for o in ops] + [const(0, 8)], c), m.input("junk%d" % k, 8) if k < 40 else const(0x5A, 8)))
        h.set(d.ack_i, ite(idle, t.select([o.get("ack", const(0, 1)) for o in ops] + [const(0, 1)], c), lnot(t.select([o.get("ack", const(0, 1)) for o in ops] + [const(0, 1)], c + 15))))
        bus.drive()
        bus.observe(2 * q if period >= 8 else 1, 2 * q if period >= 8 else 1)
        ack_o, data_o = h.get(d.ack_o), h.get(d.data_o)
        for i, o in enumerate(ops):
            after = land(idle, c.eq(i + 1))
            m.check("a command completes before busy falls", implies(after, bus.e.eq(o["end"])))
            if o["kind"] == "W":
                m.check("acknowledge bit reported", implies(after, ack_o.eq(o["ack"])))
            if o["kind"] == "R":
                m.check("octet read from the bus reported", implies(after, data_o.eq(o["byte"])))
        c = ite(land(idle, c.ule(len(ops))), c + 1, c)
        rest = ite(land(free, rest.ne(0)), rest + 255, rest)
        idled = land(idled, lnot(idle))
        h.tick()
    m.check("all commands complete", land(c.ugt(len(ops)), bus.e.eq(len(events))))
    m.check("bus released at the end" if script.endswith("P") else "bus owned", land(bus.scl, bus.sda) if script.endswith("P") else const(1, 1))
    m.cover("script finished", land(c.ugt(len(ops)), bus.e.eq(len(events))))


def master_wave(m, script, H, addr, rw_of, hold=1):
    """Per-cycle (scl, sda) of a bus master running script; octets of W are driven by the master, R by the target.
    Returns cycles: list of dict(scl, sda, tag)."""
    cyc = []

    def put(scl, sda, n, tag=None):
        for i in range(n):
            cyc.append(dict(scl=scl, sda=sda, tag=tag if i == n - 1 else None))
    hi, lo = const(1, 1), const(0, 1)
    put(1, hi, 2 * H)
    first = True
    for item in script:
        k = item[0]
        if k == "S":
            if not first:
                put(0, cyc[-1]["sda"], H if hold else 0)
                put(0, hi, H)
                put(1, hi, H)
            put(1, lo, H)
            first = False
        elif k == "P":
            put(0, cyc[-1]["sda"], 2 * hold)
            put(0, lo, H + 2 * (1 - hold))
            put(1, lo, H)
            put(1, hi, 2 * H, ("end", item))
        else:
            for b in range(9):
                put(0, cyc[-1]["sda"], hold)
                put(0, item[1][b], H + 1 - hold)
                put(1, item[1][b], H, (k, item[2], b))
    return cyc


@harness("C05", "I2CTarget from reset: bus master runs address+octets with symbolic target address, symbolic address on the wire, "
         "symbolic data both ways, symbolic acknowledge decisions; half period of H clocks; no clock stretching; late: the acknowledge decision comes up to that many cycles after the octet, and read data is only on the lines when asked for; hold: cycles the master keeps SDA after SCL falls",
         [dict(kind="W", H=4, n=1), dict(kind="W", H=4, n=2), dict(kind="W", H=7, n=1), dict(kind="R", H=4, n=1), dict(kind="R", H=4, n=2),
          dict(kind="R", H=6, n=1), dict(kind="W", H=8, n=2, late=2), dict(kind="W", H=12, n=1, late=6), dict(kind="R", H=5, n=2, late=1), dict(kind="W", H=5, n=2, hold=0), dict(kind="R", H=5, n=2, hold=0),
          dict(kind="W", H=4, n=3, _tier="thorough"), dict(kind="R", H=5, n=3, _tier="thorough")])
def target(m, kind, H, n, late=None, hold=1):
    _target(m, kind, H, n, late=late, hold=hold)


def _target(m, kind, H, n, restart=False, late=None, hold=1):
    """late: the acknowledge is a single pulse, 0 to late cycles after the write strobe; read data is there only in the cycle of the read
    strobe and the next, anything else is on the lines before and after"""
    from amlib.io.i2c import I2CTarget
    p = pads()
    d = I2CTarget(p)
    h = m.elab(d)
    me = m.input("address", 7)
    wire = m.input("wire_address", 7)
    h.set(d.address, me)
    hit = me.eq(wire)
    hi, lo = const(1, 1), const(0, 1)
    rw = hi if kind == "R" else lo
    script = [("S",), ("A", [wire[6 - i] for i in range(7)] + [rw, hi], 0)]
    octs, acks = [], []
    for i in range(n):
        byte = m.input("byte%d" % i, 8)
        ack = m.input("ack%d" % i) if kind == "W" else const(int(i < n - 1), 1)
        octs.append(byte)
        acks.append(ack)
        if kind == "W":
            script.append(("W", [byte[7 - b] for b in range(8)] + [hi], i))
        else:
            script.append(("R", [hi] * 8 + [lnot(ack)], i))
    if restart:
        script += [("S",), ("A", [lnot(me[6 - i]) if i == 6 else me[6 - i] for i in range(7)] + [rw, hi], 9)]
    script.append(("P",))
    wave = master_wave(m, script, H, wire, rw, hold)
    nwrite, nread, nstart, nstop, nres = [const(0, 4)] * 5
    h.set(d.ack_o, 0)
    h.set(d.data_o, 0)
    lastsda = None
    prev_scl = 1
    prev_drive = const(0, 1)
    was_read, since = const(0, 1), const(255, 8)
    delay = m.range("delay", 8, 0, late) if late is not None else None
    for k, c in enumerate(wave):
        pull = land(h.get(p.sda_t.oe), lnot(h.get(p.sda_t.o)))
        m.check("the target never holds the clock", lnot(h.get(p.scl_t.oe)))
        m.check("an unaddressed target never drives the bus", implies(lnot(hit), lnot(pull)))
        sda = land(c["sda"], lnot(pull))
        if c["scl"] and prev_scl:
            m.check("target keeps SDA stable while the clock is high", pull.eq(prev_drive))
        prev_scl, prev_drive = c["scl"], pull
        h.set(p.scl_t.i, c["scl"])
        h.set(p.sda_t.i, sda)
        w, r = h.get(d.write), h.get(d.read)
        if late is None:
            h.set(d.data_o, t.select(octs + [const(0, 8)], nread))
            h.set(d.ack_o, land(t.select(acks + [const(0, 1)], nwrite), w) if kind == "W" else m.input("ack_o%d" % k))
        else:
            # nread counts up with the strobe
            h.set(d.data_o, ite(r, t.select(octs + [const(0, 8)], nread), ite(was_read, t.select([const(0, 8)] + octs + [const(0, 8)], nread), m.input("junk%d" % k, 8))))
            since = ite(w, const(0, 8), since)
            h.set(d.ack_o, land(t.select(acks + [const(0, 1)], nwrite + t.zext(w, 4) - 1), since.eq(delay)) if kind == "W" else const(1, 1))
            was_read, since = r, ite(since.eq(255), since, since + 1)
        w = h.get(d.write)
        m.check("no strobes unless addressed", implies(lnot(hit), lnot(lor(w, r, h.get(d.start), h.get(d.stop), h.get(d.restart)))))
        if kind == "W":
            m.check("no read strobe in a write", lnot(r))
            m.check("received octet", implies(w, h.get(d.data_i).eq(t.select(octs + [const(0, 8)], nwrite))))
        else:
            m.check("no write strobe in a read", lnot(w))
        tag = c["tag"]
        if tag is not None and tag[0] == "A" and tag[2] == 8 and tag[1] == 0:
            m.check("address acknowledged iff it matches", iff(hit, lnot(sda)))
            m.check("start strobed once for an addressed transfer", nstart.eq(ite(hit, const(1, 4), const(0, 4))))
        if tag is not None and tag[0] == "W":
            i = tag[1]
            if tag[2] == 8:
                m.check("octet delivered before its acknowledge", implies(hit, nwrite.eq(i + 1)))
                m.check("acknowledge as decided", implies(hit, sda.eq(lnot(acks[i]))))
        if tag is not None and tag[0] == "R" and tag[2] < 8:
            i = tag[1]
            m.check("transmitted bit", implies(hit, sda.eq(octs[i][7 - tag[2]])))
        if tag is not None and tag[0] == "R" and tag[2] == 8:
            m.check("target releases the bus for the master's acknowledge", lnot(pull))
        nwrite = nwrite + t.zext(w, 4)
        nread = nread + t.zext(r, 4)
        nstart = nstart + t.zext(h.get(d.start), 4)
        nstop = nstop + t.zext(h.get(d.stop), 4)
        nres = nres + t.zext(h.get(d.restart), 4)
        h.tick()
    one = ite(hit, const(1, 4), const(0, 4))
    m.check("each octet strobed once", (nwrite if kind == "W" else nread).eq(ite(hit, const(n, 4), const(0, 4))))
    if restart:
        m.check("transaction ended by one restart", implies(hit, land(nres.eq(1), nstop.eq(0))))
    else:
        m.check("transaction ended by one stop", land(nstop.eq(one), nres.eq(0)))
    m.cover("addressed", hit)
    m.cover("not addressed", lnot(hit))


@harness("C05", "I2CTarget: as above, transaction ended by a repeated start that addresses another device; only for addressed writes",
         [dict(H=4, n=1), dict(H=5, n=2, _tier="thorough")])
def target_restart(m, H, n):
    _target(m, "W", H, n, restart=True)


@harness("C05", "I2CTarget from reset: several transactions one after the other, each with its own symbolic address on the wire and symbolic octets "
         "and acknowledges, ended by stop or repeated start, some given up in the middle of the address or of an octet; seq gives per "
         "transaction the kind, whole octets (- for an unfinished address), bits of an unfinished octet and the end",
         [dict(seq=("W-%dS" % c, "W1.P"), H=4) for c in (1, 3, 7)] + [dict(seq=("W-%dP" % c, "R1.P"), H=4) for c in (2, 6)] +
         [dict(seq=("W0%dS" % c, "W1.P"), H=4) for c in (1, 4, 7)] + [dict(seq=("W1%dP" % c, "W1.S", "W0.P"), H=4) for c in (2, 7)] +
         [dict(seq=("R0%dP" % c, "W1.P", "R1.P"), H=4) for c in (0, 3, 7)] + [dict(seq=("R1%dS" % c, "R1.S", "W1.P"), H=4) for c in (1, 4, 6)] +
         [dict(seq=("W1.S", "R1.P"), H=4), dict(seq=("R1.S", "W1.P"), H=4), dict(seq=("R2.P", "R1.S", "W0.P"), H=4), dict(seq=("W0.P", "W1.P"), H=5),
          dict(seq=("W-5P", "W-3S", "R1.P"), H=4), dict(seq=("W1.S", "R1.P", "W15P", "W1.P"), H=5, hold=0), dict(seq=("W2.S", "W05P", "R2.S", "W1.P"), H=4, _tier="thorough")])
def target_sequence(m, seq, H, hold=1):
    from amlib.io.i2c import I2CTarget
    p = pads()
    d = I2CTarget(p)
    h = m.elab(d)
    me = m.input("address", 7)
    h.set(d.address, me)
    hi, lo = const(1, 1), const(0, 1)
    script, plan = [], []
    for i, q in enumerate(seq):
        kind, whole, cut, end = q
        rw = hi if kind == "R" else lo
        wire = m.input("wire%d" % i, 7)
        octs = [m.input("byte%d_%d" % (i, j), 8) for j in range(0 if whole == "-" else int(whole))]
        cutread = kind == "R" and whole != "-" and cut != "."
        if cutread:                               # the target is sending a one when the master takes the line
            octs.append(m.input("byte%d_cut" % i, 8))
            m.assume(octs[-1][7 - int(cut)])
        acks = [m.input("ack%d_%d" % (i, j)) if kind == "W" else const(int(j < len(octs) - 1), 1) for j in range(len(octs))]
        plan.append(dict(kind=kind, wire=wire, octs=octs, acks=acks, done=whole != "-", end=end, cutread=cutread, hit=me.eq(wire) if whole != "-" else lo))
        script.append(("T", i))
        abits = [wire[6 - k] for k in range(7)] + [rw, hi]
        if whole == "-":
            script.append(("A", abits[:int(cut)], i))
        else:
            script.append(("A", abits, (i, 0)))
            for j, o in enumerate(octs[:-1] if cutread else octs):
                script.append((kind, [o[7 - b] for b in range(8)] + [hi] if kind == "W" else [hi] * 8 + [lnot(acks[j])], (i, j)))
            if cutread:
                script.append(("R", [hi] * int(cut), (i, len(octs) - 1)))
            elif cut != ".":
                script.append(("W", [m.input("cut%d_%d" % (i, b)) for b in range(int(cut))], (i, None)))
        script.append(("E", i, end))
    # line levels of the master per cycle, with marks for the monitor
    cyc = []
    def put(scl, sda, n, tag=None):
        for j in range(n):
            cyc.append((scl, sda, tag if j == n // 2 else None))
    put(1, hi, 2 * H)
    idle = True
    for item in script:
        if item[0] == "T":
            if not idle:
                put(0, cyc[-1][1], H if hold else 0); put(0, hi, H); put(1, hi, H)
            put(1, lo, H, ("begin", item[1]))
        elif item[0] == "E":
            idle = item[2] == "P"
            if idle:
                put(0, cyc[-1][1], 2 * hold); put(0, lo, H + 2 * (1 - hold)); put(1, lo, H); put(1, hi, 2 * H)
        else:
            for b, v in enumerate(item[1]):
                put(0, cyc[-1][1], hold); put(0, v, H + 1 - hold)
                put(1, v, H, (item[0], item[2], b) if len(item[1]) == 9 or item[0] == "R" else None)
    put(0, cyc[-1][1], 2) if not idle else None
    Z = const(0, 4)
    cnt = dict(w=Z, r=Z, start=Z, stop=Z, restart=Z)
    cur = -1
    h.set(d.ack_o, 0); h.set(d.data_o, 0)
    prev_scl, prev_drive = 1, lo
    total_stop, total_restart = Z, Z
    want_stop, want_restart = Z, Z
    for k, (scl, ms, tag) in enumerate(cyc):
        pull = land(h.get(p.sda_t.oe), lnot(h.get(p.sda_t.o)))
        m.check("the target never holds the clock", lnot(h.get(p.scl_t.oe)))
        if scl and prev_scl:
            m.check("target keeps SDA stable while the clock is high", pull.eq(prev_drive))
        prev_scl, prev_drive = scl, pull
        sda = land(ms, lnot(pull))
        h.set(p.scl_t.i, scl); h.set(p.sda_t.i, sda)
        if tag is not None and tag[0] == "begin":
            if cur >= 0:
                q = plan[cur]
                m.check("each octet strobed once", cnt["w" if q["kind"] == "W" else "r"].eq(ite(q["hit"], const(len(q["octs"]), 4), Z)))
                m.check("start strobed once for an addressed transfer", cnt["start"].eq(t.zext(q["hit"], 4)))
                if q["end"] == "P" or q["kind"] == "R" and not q["cutread"]:       # a read is over with the master's last, negative acknowledge
                    want_stop = want_stop + t.zext(q["hit"], 4)
                else:
                    want_restart = want_restart + t.zext(q["hit"], 4)
                m.check("the bus is released at the end of a transaction", lnot(pull))
            cur = tag[1]
            for x in ("w", "r", "start"):
                cnt[x] = Z
        q = plan[max(cur, 0)]
        hit, octs, acks = q["hit"], q["octs"], q["acks"]
        h.set(d.data_o, t.select(octs + [const(0, 8)], cnt["r"]) if q["kind"] == "R" else 0)
        w = h.get(d.write)
        h.set(d.ack_o, land(t.select(acks + [lo], cnt["w"]), w) if q["kind"] == "W" else hi if k % 3 else lo)
        w, r = h.get(d.write), h.get(d.read)
        any_ = lor(w, r, h.get(d.start), h.get(d.stop), h.get(d.restart))
        if cur >= 0 and tag is not None:
            m.check("no strobes unless addressed", implies(lnot(hit), lnot(lor(w, r))))
        if q["kind"] == "W":
            m.check("no read strobe in a write", lnot(r))
            if q["done"]:
                m.check("received octet", implies(w, h.get(d.data_i).eq(t.select(octs + [const(0, 8)], cnt["w"]))))
        else:
            m.check("no write strobe in a read", lnot(w))
        if tag is not None and tag[0] == "A":
            if tag[2] == 8:
                m.check("address acknowledged iff it matches", iff(hit, lnot(sda)))
        elif tag is not None and tag[0] in "WR":
            j = tag[1][1]
            m.check("an unaddressed target never drives the bus", implies(lnot(hit), lnot(pull)))
            if tag[0] == "W" and tag[2] == 8:
                m.check("acknowledge as decided", implies(hit, sda.eq(lnot(acks[j]))))
            if tag[0] == "R" and tag[2] < 8:
                m.check("transmitted bit", implies(hit, sda.eq(octs[j][7 - tag[2]])))
            if tag[0] == "R" and tag[2] == 8:
                m.check("target releases the bus for the master's acknowledge", lnot(pull))
        cnt["w"] = cnt["w"] + t.zext(w, 4)
        cnt["r"] = cnt["r"] + t.zext(r, 4)
        cnt["start"] = cnt["start"] + t.zext(h.get(d.start), 4)
        total_stop = total_stop + t.zext(h.get(d.stop), 4)
        total_restart = total_restart + t.zext(h.get(d.restart), 4)
        h.tick()
    q = plan[-1]
    m.check("each octet strobed once", cnt["w" if q["kind"] == "W" else "r"].eq(ite(q["hit"], const(len(q["octs"]), 4), Z)))
    want_stop = want_stop + t.zext(q["hit"], 4)
    m.check("each addressed transaction is ended by one strobe of its kind", land(total_stop.eq(want_stop), total_restart.eq(want_restart)))
    m.cover("all addressed", land(*[x["hit"] for x in plan if x["done"]]))
    m.cover("only the last addressed", land(q["hit"], *[lnot(x["hit"]) for x in plan[:-1]]))


@harness("C06", "I2CStreamTransmitter from reset: packets of symbolic octets, the producer pausing for a symbolic choice of 0 or `pause` cycles "
         "before each octet (so the queue may run dry inside a packet); receiver acknowledges symbolically; holds: with clock stretching support, the "
         "receiver holding SCL low for the listed numbers of cycles, in turn, at every clock pulse; pauses: listed pauses instead; usual periods",
         [dict(packets="21", slow="000", period=8, holds=(0, 3, 1), per=24), dict(packets="11", slow="01", pause=150, period=10, holds=(2, 0, 5, 0), per=26),
          dict(packets="2131", slow="0010100", pause=60, fifo=3), dict(packets="521", slow="00000000", fifo=2, period=8, holds=(0,), per=22),
          dict(packets="12", slow="010", pause=250, period=100, per=110),
          dict(packets="2", pause=90, slow="0s", _weight=5), dict(packets="2", pause=110, slow="11"), dict(packets="11", pause=90, slow="01"),
          dict(packets="21", pause=100, slow="010"), dict(packets="3", slow="000", fifo=2), dict(packets="12", slow="000"),
          dict(packets="1", slow="0", fifo=1), dict(packets="11", pause=90, slow="ss", _tier="thorough"),
          dict(packets="3", pause=100, slow="0ss", _tier="thorough", _weight=5), dict(packets="22", pause=110, slow="0s0s", _tier="thorough", _weight=5)])
def i2c_stream(m, packets, slow, pause=0, fifo=16, period=4, holds=None, per=9):
    from amlib.stream.i2c import I2CStreamTransmitter
    p = pads()
    d = I2CStreamTransmitter(p, period, **given(dict(clk_stretch=True, fifo_depth=16), clk_stretch=holds is not None, fifo_depth=fifo))
    h = m.elab(d)
    events, prod = [], []
    for pi, c in enumerate(packets):
        n = int(c)
        if pi:      # a lone clock pulse on the free bus (SDA high) before the start condition is harmless
            events.append(("bit", const(1, 1), None, "opt"))
        events.append(("S",))
        for i in range(n):
            byte = m.input("b%d_%d" % (pi, i), 8)
            sl = slow[len(prod)]
            sl = m.input("slow%d_%d" % (pi, i)) if sl == "s" else const(int(sl), 1)
            prod.append((byte, const(int(i == 0), 1), const(int(i == n - 1), 1), sl))
            for k in range(8):
                events.append(("bit", byte[7 - k], None))
            # the receiver's answer does not change what is transmitted
            events.append(("bit", None, m.input("nak%d_%d" % (pi, i)) if i < n - 1 else const(0, 1)))
        events.append(("bit", const(0, 1), None, "opt"))
        events.append(("P",))
    bus = Bus(m, h, p, events, {i: const(holds[i % len(holds)], 4) for i in range(len(events))} if holds else {})
    pos = const(0, 4)
    q = period // 4
    wait = ite(prod[0][3], const(pause, 8), const(0, 8))
    N = len(prod)
    col = lambda j: [x[j] for x in prod] + [const(0, prod[0][j].w)]
    nb = sum(1 for e in events if e[0] == "bit")
    s = d.stream_in
    for k in range(nb * per + (per + 3) * len(packets) + pause * N + 2 * per + 2):
        v = land(pos.ult(N), wait.eq(0))
        h.set(s.valid, v)
        h.set(s.payload, ite(v, t.select(col(0), pos), const(0xA5, 8)))
        h.set(s.first, land(v, t.select(col(1), pos)))
        h.set(s.last, land(v, t.select(col(2), pos)))
        take = land(v, h.get(s.ready))
        bus.drive()
        bus.observe(2 * q, 2 * q)
        npos = ite(take, pos + 1, pos)
        wait = ite(take, ite(t.select(col(3), npos), const(pause, 8), const(0, 8)), ite(wait.ne(0), wait + 255, wait))
        pos = npos
        h.tick()
    m.check("every packet is transmitted completely", land(pos.eq(N), bus.e.eq(len(events))))
    m.cover("done", bus.e.eq(len(events)))
