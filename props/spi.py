from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, SPI, SPIREG, SPICMD

Z1 = const(0, 1)


def bits_of(x, msb_first):
    n = x.w
    return [x[n - 1 - i] if msb_first else x[i] for i in range(n)]


def from_bits(bits, msb_first):
    """bits in time order -> word"""
    return t.concat(*(reversed(bits) if msb_first else bits))


# ---------------------------------------------------------------- device

def _dev_cfgs():
    out = []
    for pol in (0, 1):
        for ph in (0, 1):
            for cdc, hp in ((True, 4), (False, 2)):
                out.append(dict(ws=8, pol=pol, ph=ph, msb=True, csn=False, skip=not cdc, hp=hp, plan=(8, 3, 16)))
    out += [dict(ws=12, pol=0, ph=1, msb=False, csn=True, skip=False, hp=5, plan=(36, 11, 12)),
            dict(ws=5, pol=1, ph=0, msb=False, csn=True, skip=True, hp=3, plan=(20, 1, 0, 5)),
            dict(ws=3, pol=0, ph=0, msb=True, csn=True, skip=False, hp=4, plan=(15, 2, 4, 3)),
            dict(ws=2, pol=0, ph=0, msb=True, csn=False, skip=False, hp=5, plan=(6, 0, 1, 2)),
            dict(ws=16, pol=0, ph=0, msb=True, csn=False, skip=False, hp=4, plan=(33, 16)),
            dict(ws=24, pol=1, ph=1, msb=True, csn=True, skip=True, hp=2, plan=(23, 72)),
            dict(ws=3, pol=0, ph=0, msb=True, csn=False, skip=False, hp=4, plan=(4, 1), jitter=1, _weight=4),
            dict(ws=3, pol=1, ph=1, msb=False, csn=True, skip=True, hp=2, plan=(4, 1), jitter=1, _weight=4),
            dict(ws=8, pol=0, ph=0, msb=True, csn=False, skip=False, hp=4, plan=(17, 8), resource=True), dict(ws=9, pol=1, ph=1, msb=True, csn=True, skip=False, hp=4, plan=(18, 3), resource=True),
            dict(ws=17, pol=0, ph=1, msb=False, csn=False, skip=False, hp=6, plan=(34, 17)),
            dict(ws=4, pol=0, ph=0, msb=True, csn=False, skip=False, hp=4, plan=("p3", 4, "h1", 8, "p5", "h3", 4, "h4", "p1", 4)), dict(ws=4, pol=1, ph=1, msb=True, csn=True, skip=False, hp=4, plan=("p3", 4, "h1", 8, "p5", "h3", 4, "h4", "p1", 4)),
            dict(ws=3, pol=1, ph=0, msb=False, csn=True, skip=True, hp=2, plan=("h0", 3, "p2", "h2", 6, "h3", "p7", 3)), dict(ws=3, pol=0, ph=1, msb=False, csn=False, skip=True, hp=2, plan=("h0", 3, "p2", "h2", 6, "h3", "p7", 3)),
            dict(ws=4, pol=0, ph=0, msb=True, csn=False, skip=False, hp=4, plan=(4, 4, 3, 8, 1, 4), brk=2), dict(ws=4, pol=1, ph=1, msb=True, csn=False, skip=False, hp=4, plan=(4, 4, 3, 8, 1, 4), brk=2),
            dict(ws=4, pol=1, ph=0, msb=True, csn=True, skip=True, hp=2, plan=(4, 4, 3, 8, 1, 4), brk=1), dict(ws=4, pol=0, ph=1, msb=True, csn=True, skip=True, hp=2, plan=(4, 4, 3, 8, 1, 4), brk=1),
            dict(ws=32, pol=0, ph=1, msb=True, csn=False, skip=False, hp=7, plan=(64, 31, 96)), dict(ws=64, pol=1, ph=0, msb=True, csn=False, skip=False, hp=12, plan=(65, 128)),
            dict(ws=8, pol=0, ph=0, msb=True, csn=False, skip=False, hp=50, plan=(8, 15, 16)),
            dict(ws=8, pol=0, ph=0, msb=False, csn=False, skip=False, hp=5, plan=(16, 3, 8), brief=True), dict(ws=6, pol=1, ph=1, msb=True, csn=True, skip=False, hp=5, plan=(12, 5, 6), brief=True),
            dict(ws=5, pol=0, ph=1, msb=False, csn=True, skip=False, hp=6, plan=(10, "h2", 5), brief=True), dict(ws=7, pol=1, ph=0, msb=True, csn=False, skip=False, hp=6, plan=(14, "h2", 7), brief=True),
            dict(ws=4, pol=0, ph=0, msb=True, csn=False, skip=False, hp=4, plan=(1, 2, 3, 4, 5, 6, 7, 8, 9)), dict(ws=4, pol=1, ph=1, msb=True, csn=True, skip=False, hp=4, plan=(3, 4, 2, 8, 1, 5)),
            dict(ws=6, pol=0, ph=1, msb=True, csn=False, skip=False, hp=4, plan=(7, 3), jitter=2, _tier="thorough"),
            dict(ws=7, pol=1, ph=0, msb=True, csn=False, skip=False, hp=4, plan=(8, 2), jitter=2, _tier="thorough")]
    return out


def _on_resource(m, d):
    """the interface wired to the lines of a platform resource, whose chip select is high while selected"""
    from types import SimpleNamespace
    from amaranth import Module, Signal
    r = SimpleNamespace(**{n: Signal(name="res_" + n) for n in ("copi", "cipo", "clk", "cs")})
    top = Module()
    top.submodules.d = d
    top.d.comb += d.connect_to_resource(r)
    m.encoded.append(d)
    return m.elab(top), r


@harness("C07", "SPI device from reset: a master in the given mode sends the listed numbers of bits per chip-select assertion "
         "(several words, partial words, none; h and a number = deselected in the middle of the bit after that many; p and a number = that many clocks for another "
         "device; brk = cycles between two selections; brief = the data line is valid only around the sampling edge); all bits of every word in both directions symbolic; half period hp cycles, "
         "or hp..hp+jitter chosen symbolically per half period", _dev_cfgs())
def device(m, ws, pol, ph, msb, csn, skip, hp, plan, jitter=0, resource=False, brk=0, brief=False):
    from amlib.io.spi import SPIDeviceInterface
    d = SPIDeviceInterface(**given(SPI, word_size=ws, clock_polarity=pol, clock_phase=ph, msb_first=msb, cs_idles_high=csn, skip_input_cdc=skip))
    if resource:
        h, r = _on_resource(m, d)
        sck_l, sdi_l, sdo_l, cs_l, cs_inv = r.clk, r.copi, r.cipo, r.cs, int(csn)
    else:
        h = m.elab(d)
        sck_l, sdi_l, sdo_l, cs_l, cs_inv = d.spi.sck, d.spi.sdi, d.spi.sdo, d.spi.cs, 0
    lag = 0 if skip else 2
    from props.wave import Wave
    w = Wave(m)
    expect = []                                   # received words in order
    w.put(cs=int(csn), sck=pol, sdi=0, wo=const(0, ws), nexp=0)
    w.hold(5)
    for ti, nbits in enumerate(plan):
        half = False
        if isinstance(nbits, str):
            half, pulses, nbits = nbits[0] == "h", nbits[0] == "p", int(nbits[1:])
            if pulses:                            # the master talks to another device
                for j in range(nbits):
                    w.put(sck=1 - pol, sdi=m.input("f%d_%d" % (ti, j)))
                    w.hold(hp)
                    w.put(sck=pol)
                    w.hold(hp)
                continue
        whole = nbits
        nbits += half
        nwords = nbits // ws + 1
        tx = [m.input("tx%d_%d" % (ti, i), ws) for i in range(nwords + 1)]      # device -> master
        rx = [m.input("rx%d_%d" % (ti, i), ws) for i in range(nwords)]          # master -> device
        w.put(wo=tx[0])
        w.hold(brk if brk and ti else 4)
        sdi = [b for x in rx for b in bits_of(x, msb)][:nbits]
        sdo = [b for x in tx for b in bits_of(x, msb)][:nbits]
        w.put(cs=int(not csn))
        for b in range(nbits):
            if ph == 0:
                # set up, sample on the leading edge
                if brief:
                    w.put(sdi=m.input("n%d_%d" % (ti, b)))
                    w.hold(hp + (0 if b else 1))
                w.put(sdi=sdi[b])
                w.hold(1 if brief else hp + (0 if b else 2), jitter, sample=1, sdo=sdo[b])
                w.put(sck=1 - pol)
            else:
                w.put()
                w.hold(hp, jitter)
                w.put(sck=1 - pol, sdi=sdi[b])
                if b == whole:
                    break
                if brief:
                    w.put(sdi=m.input("n%d_%d" % (ti, b)))
                    w.hold(hp)
                    w.put(sdi=sdi[b])
                w.hold(1 if brief else hp, jitter, sample=1, sdo=sdo[b])
                w.put(sck=pol)
            # here the sampling edge of bit b has just been made
            full = (b + 1) % ws == 0
            if brief:
                w.hold(2)
                w.put(sdi=m.input("o%d_%d" % (ti, b)))
            if full:
                expect.append(rx[b // ws])
                w.put(nexp=len(expect))
            if ph == 0:
                if full or b % ws == 0:
                    w.hold(lag + 2)
                    w.put(wo=tx[min((b + 1 + ws - 1) // ws, nwords)])
                if b == whole:
                    break
                w.hold(hp, jitter)
                w.put(sck=pol)
            elif full or b % ws == 0:
                w.hold(lag + 2)
                w.put(wo=tx[min((b + 1 + ws - 1) // ws, nwords)])
        w.hold(hp)
        w.put(cs=int(csn))
        if half:                                  # deselected in the middle of a bit, the clock returns afterwards
            w.hold(lag + 2)
            w.put(sck=pol)
        if not brk or ti == len(plan) - 1:
            w.hold(lag + 4, all=1)
    prev = Z1
    cnt = const(0, 8)

    def step(get, last):
        nonlocal prev, cnt
        h.set(cs_l, get("cs") ^ cs_inv); h.set(sck_l, get("sck")); h.set(sdi_l, get("sdi")); h.set(d.word_out, get("wo"))
        m.check("data out valid when the master samples", implies(land(last, get("sample")), h.get(sdo_l).eq(get("sdo"))))
        wc = h.get(d.word_complete)
        win = h.get(d.word_in)
        m.check("one-cycle completion strobe", lnot(land(wc, prev)))
        m.check("no completion without a full word", implies(wc, cnt.ult(get("nexp"))))
        if expect:
            m.check("received word", implies(wc, win.eq(t.select(expect, cnt))))
        m.check("every complete word reported", implies(land(last, get("all")), (cnt + t.zext(wc, 8)).eq(get("nexp"))))
        cnt = cnt + t.zext(wc, 8)
        prev = wc
        h.tick()
    w.run(step, dict(wo=ws, nexp=8))
    m.cover("words were exchanged", cnt.eq(len(expect)))


# ---------------------------------------------------------------- controller

def _ctl_cfgs():
    out = []
    for pol in (0, 1):
        for ph in (0, 1):
            for div in (12, 16):
                out.append(dict(ws=8, div=div, pol=pol, ph=ph, msb=True, csn=bool(pol ^ ph), gaps=(3, 0, 5)))
    out += [dict(ws=16, div=20, pol=0, ph=1, msb=True, csn=True, gaps=(0, 11, 1)),
            dict(ws=5, div=14, pol=1, ph=0, msb=False, csn=False, gaps=(9, 2, 7)),
            dict(ws=12, div=32, pol=0, ph=0, msb=False, csn=True, gaps=(4, 0)),
            dict(ws=3, div=12, pol=0, ph=1, msb=True, csn=False, gaps=("sym", "sym"), _weight=4),
            dict(ws=3, div=12, pol=1, ph=0, msb=True, csn=True, gaps=("sym", "sym"), _weight=4),
            dict(ws=8, div=12, pol=0, ph=0, msb=True, csn=False, gaps=(0, 2), resource=True), dict(ws=7, div=14, pol=1, ph=1, msb=True, csn=True, gaps=(0, 2), resource=True),
            dict(ws=32, div=24, pol=0, ph=0, msb=True, csn=True, gaps=(0, 13, 5)), dict(ws=17, div=26, pol=1, ph=1, msb=False, csn=False, gaps=(5, 0)),
            dict(ws=8, div=100, pol=0, ph=0, msb=True, csn=False, gaps=(0, 0)), dict(ws=8, div=258, pol=0, ph=1, msb=True, csn=False, gaps=(7, 0)),
            dict(ws=64, div=16, pol=1, ph=0, msb=True, csn=False, gaps=(1, 0)), dict(ws=2, div=12, pol=0, ph=0, msb=True, csn=False, gaps=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)),
            dict(ws=4, div=12, pol=1, ph=1, msb=True, csn=False, gaps=(12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0)),
            dict(ws=4, div=16, pol=0, ph=0, msb=True, csn=True, gaps=("sym", "sym", "sym"), _tier="thorough")]
    return out


@harness("C08", "SPI controller from reset: one transfer per entry of gaps (idle cycles before the start strobe; sym: 0..15 chosen "
         "symbolically); all words in both directions symbolic; divisors of at least 12 (the data path latency needs half a "
         "period of more than four cycles)", _ctl_cfgs())
def controller(m, ws, div, pol, ph, msb, csn, gaps, resource=False):
    from amlib.io.spi import SPIControllerInterface
    d = SPIControllerInterface(**given(SPI, word_size=ws, divisor=div, clock_polarity=pol, clock_phase=ph, msb_first=msb, cs_idles_high=csn))
    if resource:
        h, r = _on_resource(m, d)
        sck_l, sdi_l, sdo_l, cs_l, cs_inv = r.clk, r.cipo, r.copi, r.cs, 0
    else:
        h = m.elab(d)
        sck_l, sdi_l, sdo_l, cs_l, cs_inv = d.spi.sck, d.spi.sdi, d.spi.sdo, d.spi.cs, int(csn)
    held = const(0, 3)          # cycles selected
    n = len(gaps)
    tx = [m.input("tx%d" % i, ws) for i in range(n)]
    rx = [m.input("rx%d" % i, ws) for i in range(n)]
    gp = [m.input("gap%d" % i, 4) if g == "sym" else const(g, 4) for i, g in enumerate(gaps)]
    txb = [b for w in tx for b in bits_of(w, msb)] + [Z1]
    rxb = [b for w in rx for b in bits_of(w, msb)] + [Z1]
    per = (ws + 3) * div + 8
    K = n * (per + 16)
    W = 12
    i = const(0, 4)             # transfer in progress / next
    wait = gp[0]
    busy = Z1
    tail = const(0, 2)
    age = const(0, W)
    nbit = const(0, W)          # bits sampled in all transfers
    nout = const(0, W)          # bits the far side has put on the line
    pcs = psck = psdo = None
    for k in range(K):
        go = land(lnot(busy), wait.eq(0), i.ult(n))
        h.set(d.start_transfer, go)
        # the word is taken over when the transfer begins
        h.set(d.word_out, t.select(tx + [const(0, ws)], i) ^ ite(land(busy, held.eq(7)), const((1 << ws) - 1, ws), const(0, ws)))
        # the far side presents its bit at the start of the bit time (bit index nout) and holds it past the sampling edge
        h.set(sdi_l, t.select(rxb, nout))
        cs = h.get(cs_l) ^ cs_inv
        sck = h.get(sck_l) ^ pol
        sdo = h.get(sdo_l)
        held = ite(cs, ite(held.eq(7), held, held + 1), const(0, 3))
        wc = h.get(d.word_complete)
        m.check("chip select only during a transfer", implies(cs, lor(busy, go, tail.ne(0))))
        m.check("clock idles at its polarity while not selected", implies(lnot(cs), lnot(sck)))
        lim = t.select([const((j + 1) * ws, W) for j in range(n + 1)], i)
        nb = nbit
        if pcs is not None:
            lead = land(lnot(psck), sck)
            trail = land(psck, lnot(sck))
            smp = lead if ph == 0 else trail
            act = land(pcs, smp) if ph == 0 else land(pcs, smp)
            # sampled value: stable across the edge
            m.check("data out stable and right at each sampling edge",
                    implies(act, land(psdo.eq(t.select(txb, nbit)), sdo.eq(t.select(txb, nbit)))))
            m.check("no more clock pulses than bits", implies(act, nbit.ult(lim)))
            if ph == 0:
                m.check("selected before the first leading edge", implies(lead, pcs))
            nb = ite(act, nbit + 1, nbit)
        m.check("complete only after all bits", implies(wc, land(busy, nb.eq(lim))))
        m.check("received word", implies(wc, h.get(d.word_in).eq(t.select(rx + [const(0, ws)], i))))
        # the far side moves on at its output edge
        nout = ite(sck.eq(ph), nb, nout)
        nbit = nb
        tail = ite(wc, const(2, 2), ite(tail.ne(0), tail - 1, tail))
        age = ite(land(lor(go, busy), lnot(wc)), age + 1, const(0, W))
        m.check("transfer takes bounded time", age.ult(per))
        ni = ite(wc, i + 1, i)
        wait = ite(wc, t.select(gp + [const(0, 4)], ni), ite(land(lnot(busy), wait.ne(0)), wait - 1, wait))
        busy = ite(wc, Z1, lor(busy, go))
        i = ni
        pcs, psck, psdo = cs, sck, sdo
        h.tick()
    m.check("every requested transfer happened", i.eq(n))
    m.cover("finished", land(i.eq(n)))


# ---------------------------------------------------------------- command / register interface

class _RegMaster:
    """Full transactions with the register protocol, as waveform segments (mode 1, fixed half period)."""

    def __init__(self, m, d, asz, rsz, hp, jitter):
        from props.wave import Wave
        self.m, self.d, self.asz, self.rsz, self.hp, self.jitter = m, d, asz, rsz, hp, jitter
        self.w = Wave(m)
        self.w.put(cs=0, sck=0, sdi=0, quiet=0, done=0)
        self.w.hold(3)

    def foreign(self, bits):
        """traffic with somebody else on the same lines"""
        w = self.w
        for b in bits:
            w.put(sck=1, sdi=b)
            w.hold(2, quiet=1)
            w.put(sck=0)
            w.hold(2, quiet=1)
        w.hold(1, quiet=1)

    def transaction(self, bits, nbits, out=(), how="", at=None):
        """send nbits of bits; out[b] -> expected sdo term or None when bit b is sampled; at[b] columns that change with bit b's clock:
        b before its rising edge, b + 0.5 with its falling edge; how: the end of an aborted transaction"""
        w = self.w
        at = at or {}
        w.put(cs=1)
        w.hold(self.hp)
        for b in range(nbits):
            w.put(sck=1, sdi=bits[b], **at.get(b, {}))
            o = out[b] if b < len(out) else None
            if b == 1 + self.asz + self.rsz:
                w.put(done=1)
            jit = self.jitter if self.asz - 1 <= b <= self.asz + 1 else 0
            if o is None:
                w.hold(self.hp, jit)
            else:
                w.hold(self.hp, jit, sample=1, sdo=o)
            w.put(sck=0, **at.get(b + 0.5, {}))
            w.hold(self.hp, jit)
        if how in ("h", "s"):                     # given up in the middle of a bit
            w.put(sck=1, sdi=bits[nbits])
            w.hold(self.hp)
            w.put(cs=0)
            if how == "h":
                w.hold(2)
            w.put(sck=0)
        if how == "q":                            # the chip select comes back soon
            w.put(cs=0)
            w.hold(3)
        w.put(cs=0, done=0)
        w.hold(1 if how == "q" else 4, idle=1)


_R = [dict(asz=3, rsz=5, hp=4, plan="FFF"), dict(asz=3, rsz=4, hp=3, plan="FxFF", _weight=2), dict(asz=2, rsz=3, hp=3, plan="XFX", _weight=2)] + \
     [dict(asz=2, rsz=4, hp=4, plan=("F", k, "F")) for k in range(0, 7)] + \
     [dict(asz=7, rsz=16, hp=5, plan="FF"), dict(asz=15, rsz=32, hp=3, plan="FF", _weight=2),
      dict(asz=2, rsz=3, hp=3, plan="F", jitter=1, _weight=3),
      dict(asz=4, rsz=8, hp=3, plan=("F", 9, "F", 3, "F", "F"), _weight=3), dict(asz=3, rsz=4, hp=3, plan="FF", resource=True),
      dict(asz=2, rsz=4, hp=3, plan=("h6", "F", "h2", "F", "p9"), moving=True, _weight=2), dict(asz=2, rsz=4, hp=3, plan=("s3", "F", "s0", "s5", "F"), moving=True, _weight=2),
      dict(asz=2, rsz=3, hp=3, plan=("p5", "F", "p8", "F", "h1", "p2", "F")), dict(asz=2, rsz=4, hp=3, plan=("q6", "F", "q1", "F", "q4", "F"), moving=True, _weight=2),
      dict(asz=3, rsz=6, hp=3, plan=("h9", "s9", "q9", "F", "h4", "s4", "q4", "F"), moving=True, _weight=3),
      dict(asz=15, rsz=8, hp=40, plan="FF"), dict(asz=3, rsz=64, hp=3, plan="FF"),
      dict(asz=2, rsz=4, hp=3, plan=("F", 5), jitter=1, _tier="thorough"),
      dict(asz=15, rsz=32, hp=3, plan=("F", 40, "F", 20, "x", "F", "F"), _tier="thorough")]


@harness("C09", "SPI register interface from reset with a size register, a read/write register, a read-only register, a special "
         "function register, a write-only register and two registers of fewer bits: a sequence of transactions (F full, number = aborted after that many "
         "bits, h/s/q and a number = aborted in the middle of the bit after that many, with or before its falling edge, or with a short break; x = with three extra clocks, X = with as many extra clocks as another transaction has; "
         "p and a number = that many clocks of traffic with another device); write flag, address and value of every transaction symbolic; moving: the read values "
         "change before the command and during the answer", _R)
def registers(m, asz, rsz, hp, plan, jitter=0, resource=False, moving=False):
    from amaranth import Signal
    from amlib.io.spi import SPIRegisterInterface
    default = 0x5A5A5A5A & ((1 << rsz) - 1)
    d = SPIRegisterInterface(**given(SPIREG, address_size=asz, register_size=rsz, default_read_value=default))
    ws, rs = Signal(), Signal()
    rst = 0x3 & ((1 << rsz) - 1)
    A_RW, A_RO, A_SFR = 1, 2, 3
    rw = d.add_register(A_RW, write_strobe=ws, read_strobe=rs, reset=rst)
    ro, sfr_r, sfr_w = Signal(rsz), Signal(rsz), Signal(rsz)
    ro_rs, sfr_ws, sfr_rs = Signal(), Signal(), Signal()
    d.add_read_only_register(A_RO, read=ro, read_strobe=ro_rs)
    d.add_sfr(A_SFR, read=sfr_r, write_signal=sfr_w, write_strobe=sfr_ws, read_strobe=sfr_rs)
    wo = None
    if asz > 2:
        wo = Signal(rsz); wo_ws = Signal()
        d.add_sfr(5, write_signal=wo, write_strobe=wo_ws)
    small = {}
    if asz > 2:
        sizes = {6: max(1, rsz * 5 // 8), 7: max(1, rsz // 3)}
        small[6] = d.add_register(6, size=sizes[6], reset=1)
        small[7] = Signal(sizes[7], reset=(1 << sizes[7]) - 1)
        m.check("the given signal holds the register", const(int(d.add_register(7, value_signal=small[7]) is small[7]), 1))
    held = {a: const(1 if a == 6 else (1 << sizes[a]) - 1, sizes[a]) for a in small}
    if resource:
        h, r = _on_resource(m, d)
        sck_l, sdi_l, sdo_l, cs_l = r.clk, r.copi, r.cipo, r.cs
    else:
        h = m.elab(d)
        sck_l, sdi_l, sdo_l, cs_l = d.spi.sck, d.spi.sdi, d.spi.sdo, d.spi.cs
    rov, sfv = m.input("ro", rsz), m.input("sfr", rsz)
    h.set(ro, rov); h.set(sfr_r, sfv)
    plan = list(plan)
    M = _RegMaster(m, d, asz, rsz, hp, jitter)
    M.w.put(rw=const(rst, rsz), **{"s%d" % a_: v_ for a_, v_ in held.items()})
    value = const(rst, rsz)
    nw = 1 + asz + rsz
    addr_is = lambda a, k: a.eq(k)
    tr = []
    cum = dict(ws=const(0, 4), rs=const(0, 4), ro=const(0, 4), sw=const(0, 4), sr=const(0, 4), ww=const(0, 4))
    M.w.put(**{"n_" + k: v for k, v in cum.items()})
    for ti, p in enumerate(plan):
        wr, ad, va = m.input("w%d" % ti), m.input("a%d" % ti, asz), m.input("v%d" % ti, rsz)
        bits = [wr] + bits_of(ad, True) + bits_of(va, True)
        isA = lambda k: ad.eq(k)
        readv = ite(isA(0), const((1 << rsz) - 1, rsz), ite(isA(A_RW), value, ite(isA(A_RO), rov, ite(isA(A_SFR), sfv, const(default, rsz)))))
        for a_, v_ in held.items():
            readv = ite(isA(a_), t.zext(v_, rsz), readv)
        out = [None] * (1 + asz) + bits_of(readv, True)
        how = p[0] if isinstance(p, str) and p[0] in "hsqp" else ""
        if how == "p":
            M.foreign([m.input("f%d_%d" % (ti, k)) for k in range(int(p[1:]))])
            continue
        if how:
            p = int(p[1:])
        extra = {"x": 3, "X": nw + 2}.get(p, 0)
        n = p if isinstance(p, int) else nw + extra
        bits = bits + [m.input("e%d_%d" % (ti, k)) for k in range(extra)]
        done = n >= nw
        M.w.put(val=va)
        # the cumulative strobe counts are exact at the end of the transaction
        if done:
            z = lambda c: t.zext(c, 4)
            cum = dict(ws=cum["ws"] + z(land(wr, isA(A_RW))), rs=cum["rs"] + z(land(lnot(wr), isA(A_RW))),
                       ro=cum["ro"] + z(land(lnot(wr), isA(A_RO))), sw=cum["sw"] + z(land(wr, isA(A_SFR))),
                       sr=cum["sr"] + z(land(lnot(wr), isA(A_SFR))), ww=cum["ww"] + z(land(wr, isA(5) if asz > 2 else Z1)))
            value = ite(land(wr, isA(A_RW)), va, value)
            held = {a_: ite(land(wr, isA(a_)), va[0:v_.w], v_) for a_, v_ in held.items()}
        at = {}
        if moving:
            M.w.put(ro=m.input("ro_before%d" % ti, rsz), sfr=m.input("sfr_before%d" % ti, rsz))
            at[asz] = dict(ro=rov, sfr=sfv)
            at[asz + 1.5] = dict(ro=m.input("ro_after%d" % ti, rsz), sfr=m.input("sfr_after%d" % ti, rsz))
        M.transaction(bits, n, out, how, at)
        M.w.put(rw=value, **{"s%d" % a_: v_ for a_, v_ in held.items()}, **{"n_" + k: v for k, v in cum.items()})
        M.w.hold(2, all=1)
    seen = {k: const(0, 4) for k in cum}
    sigs = dict(ws=ws, rs=rs, ro=ro_rs, sw=sfr_ws, sr=sfr_rs)
    if asz > 2:
        sigs["ww"] = wo_ws

    def step(get, last):
        h.set(cs_l, get("cs")); h.set(sck_l, get("sck")); h.set(sdi_l, get("sdi"))
        if moving:
            h.set(ro, get("ro")); h.set(sfr_r, get("sfr"))
        m.check("value read back", implies(land(last, get("sample")), h.get(sdo_l).eq(get("sdo"))))
        for k, s in sigs.items():
            x = h.get(s)
            seen[k] = seen[k] + t.zext(x, 4)
            m.check("strobe %s exactly once per complete matching transaction" % k, implies(land(last, get("all")), seen[k].eq(get("n_" + k))))
        m.check("register contents", implies(land(last, get("all")), h.get(rw).eq(get("rw"))))
        for a_, sig in small.items():
            m.check("contents of a register of fewer bits", implies(land(last, get("all")), h.get(sig).eq(get("s%d" % a_))))
        m.check("value of a special register write", implies(h.get(sfr_ws), h.get(sfr_w).eq(get("val"))))
        if asz > 2:
            m.check("value of a write-only register", implies(h.get(wo_ws), h.get(wo).eq(get("val"))))
        m.check("idle when not selected", implies(lor(land(last, get("all")), get("quiet")), land(h.get(d.idle), lnot(h.get(d.stalled)))))
        m.check("stalled after a transaction until deselected", implies(get("done"), land(h.get(d.stalled), lnot(h.get(d.idle)))))
        h.tick()
    widths = dict(rw=rsz, val=rsz, ro=rsz, sfr=rsz, **{"s%d" % a_: v_.w for a_, v_ in held.items()})
    widths.update({"n_" + k: 4 for k in cum})
    M.w.run(step, widths)
    m.cover("a write", seen["ws"].ne(0))
    m.cover("a read", seen["rs"].ne(0))


@harness("C09", "SPICommandInterface alone, from reset: a sequence of transactions as for the register interface, every bit of command and word symbolic, the "
         "word to send chosen by the command received and changing again once its first bit has gone out",
         [dict(csz=8, wsz=32, hp=4, plan=("F", 9, "F")), dict(csz=5, wsz=3, hp=3, plan=("F", 3, "x", "q5", "F", "h6", "F"), _weight=2),
          dict(csz=3, wsz=9, hp=3, plan=("F", "s2", "F", "p4", "h3", "F")), dict(csz=1, wsz=1, hp=3, plan=("F", "F", 1, "x", "F")),
          dict(csz=16, wsz=16, hp=6, plan=("F", 16, "F", 31, "F"), _tier="thorough")])
def commands(m, csz, wsz, hp, plan):
    from amlib.io.spi import SPICommandInterface
    d = SPICommandInterface(**given(SPICMD, command_size=csz, word_size=wsz))
    h = m.elab(d)
    M = _RegMaster(m, d, csz - 1, wsz, hp, 0)
    w = M.w
    widths = dict(cmd=csz, reply=wsz, junk=wsz, word=wsz, nc=4, nw=4)
    nc = nw = 0
    w.put(cmd=const(0, csz), reply=const(0, wsz), junk=const(0, wsz), word=const(0, wsz), nc=const(0, 4), nw=const(0, 4), moved=0)
    for ti, p in enumerate(plan):
        cmd, val, reply, junk = m.input("c%d" % ti, csz), m.input("v%d" % ti, wsz), m.input("r%d" % ti, wsz), m.input("j%d" % ti, wsz)
        how = p[0] if isinstance(p, str) and p[0] in "hsqp" else ""
        if how == "p":
            M.foreign([m.input("f%d_%d" % (ti, k)) for k in range(int(p[1:]))])
            continue
        n = int(p[1:]) if how else p if isinstance(p, int) else csz + wsz + (3 if p == "x" else 0)
        bits = bits_of(cmd, True) + bits_of(val, True) + [m.input("e%d_%d" % (ti, k)) for k in range(3)]
        # a command is complete with its last bit (its falling edge: also when given up in the middle of that bit)
        w.put(cmd=cmd, reply=reply, junk=junk, word=val, moved=0)
        at = {csz + 0.5: dict(moved=1)}
        got_c, got_w = n >= csz, n >= csz + wsz
        M.transaction(bits, n, [None] * csz + bits_of(reply, True), how, at)
        nc += got_c
        nw += got_w
        w.put(nc=const(nc, 4), nw=const(nw, 4), moved=0)
        w.hold(2, all=1)
    seen = [const(0, 4), const(0, 4)]

    def step(get, last):
        h.set(d.spi.cs, get("cs")); h.set(d.spi.sck, get("sck")); h.set(d.spi.sdi, get("sdi"))
        right = land(h.get(d.command).eq(get("cmd")), lnot(get("moved")))
        h.set(d.word_to_send, ite(right, get("reply"), get("junk")))
        m.check("chosen word sent", implies(land(last, get("sample")), h.get(d.spi.sdo).eq(get("sdo"))))
        m.check("command received", implies(h.get(d.command_ready), h.get(d.command).eq(get("cmd"))))
        m.check("word received", implies(h.get(d.word_complete), h.get(d.word_received).eq(get("word"))))
        for i, s in enumerate((d.command_ready, d.word_complete)):
            seen[i] = seen[i] + t.zext(h.get(s), 4)
            m.check("one notice each", implies(land(last, get("all")), seen[i].eq(get("nw" if i else "nc"))))
        m.check("idle when not selected", implies(lor(land(last, get("all")), get("quiet")), land(h.get(d.idle), lnot(h.get(d.stalled)))))
        m.check("stalled after a transaction until deselected", implies(get("done"), land(h.get(d.stalled), lnot(h.get(d.idle)))))
        h.tick()
    w.run(step, widths)
    m.cover("a word", seen[1].ne(0))


# ---------------------------------------------------------------- multiplexer

@harness("C10", "SPI multiplexer with 1 to 5 busses, every value of all lines, at most one chip select active", [dict(n=n) for n in (1, 2, 3, 5)])
def multiplexer(m, n):
    from amlib.io.spi import SPIMultiplexer, SPIDeviceBus
    busses = [SPIDeviceBus() for _ in range(n)]
    d = SPIMultiplexer(busses)
    h = m.elab(d)
    sck, sdi = m.input("sck"), m.input("sdi")
    cs = [m.input("cs%d" % i) for i in range(n)]
    so = [m.input("sdo%d" % i) for i in range(n)]
    h.set(d.shared_lines.sck, sck); h.set(d.shared_lines.sdi, sdi)
    for i, b in enumerate(busses):
        h.set(b.cs, cs[i]); h.set(b.sdo, so[i])
    for i in range(n):
        for j in range(i):
            m.assume(lnot(land(cs[i], cs[j])))
    want = Z1
    for i in range(n):
        want = lor(want, land(cs[i], so[i]))
    m.check("output of the selected bus", h.get(d.shared_lines.sdo).eq(want))
    for b in busses:
        m.check("clock fanned out", h.get(b.sck).eq(sck))
        m.check("data fanned out", h.get(b.sdi).eq(sdi))
    m.cover("one selected", lor(*cs))
