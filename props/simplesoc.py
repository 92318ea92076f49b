"""System on chip as a whole: C44 registers, windows and events of a peripheral over its bus, C45 the memory map of a SimpleSoC."""
import io
import re
from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, WINDOW, BRIDGE
from props.stubs import import_with_stubs, live

Z1 = const(0, 1)
O1 = const(1, 1)


def up(x, bits):
    """the next multiple of 2 ** bits"""
    return -(-x >> bits) << bits


def example(name, banks, windows, events, bridge):
    """a peripheral with the registers, windows and events listed; they are its attributes regs, wins and evs in the order requested"""
    from amaranth import Elaboratable, Module
    periph = import_with_stubs("amlib.soc.peripheral")

    class Example(periph.Peripheral, Elaboratable):
        def __init__(self):
            super().__init__(name=name)
            self.regs, self.wins = [], []
            self.times = 0
            for b, (at, align, regs) in enumerate(banks):
                bank = self.csr_bank(**{k: v for k, v in (("addr", at), ("alignment", align)) if v is not None})
                for i, (w, access, addr, al) in enumerate(regs):
                    kw = {k: v for k, v in (("addr", addr), ("alignment", al)) if v is not None}
                    self.regs.append((bank.csr(w, access, name="r%d_%d" % (b, i), **kw), b, addr))
            for addr, sparse, kw in windows:
                ak = {k: v for k, v in (("addr", addr), ("sparse", sparse)) if v is not None}
                self.wins.append((self.window(**given(WINDOW, **kw), **ak), addr))
            self.evs = [self.event(mode=mo, name="e%d" % i) for i, mo in enumerate(events)]
            self._bridge = self.bridge(**given(BRIDGE, **bridge))
            self.bus = self._bridge.bus
            if events:
                self.irq = self._bridge.irq

        def elaborate(self, platform):
            self.times += 1
            m = Module()
            m.submodules.bridge = self._bridge
            return m
    with live():
        return Example()


class Registers:
    """the registers of a peripheral: what is put on them, and what has come through"""
    def __init__(self, h, regs):
        self.h = h
        self.regs = regs
        self.clear()

    def clear(self):
        n = len(self.regs)
        self.wrote, self.read = [const(0, 3)] * n, [const(0, 3)] * n

    def watch(self, word):
        """count the strobes, written data must be `word(i)`; returns whether it was"""
        ok = O1
        for i, e in enumerate(self.regs):
            if e.access.writable():
                s = self.h.get(e.w_stb)
                self.wrote[i] = self.wrote[i] + t.zext(s, 3)
                ok = land(ok, implies(s, self.h.get(e.w_data).eq(word(i))))
            if e.access.readable():
                self.read[i] = self.read[i] + t.zext(self.h.get(e.r_stb), 3)
        return ok


R32 = [(1, "w", None, None), (12, "rw", None, None), (8, "r", None, None), (32, "rw", None, None), (9, "r", None, None)]

_P = [dict(banks=[(None, None, R32)], windows=[], events=("level", "rise", "rise"), bridge=dict(data_width=32, granularity=8, alignment=2)),
      dict(banks=[(0x40, None, [(8, "rw", 0x10, None), (32, "r", 0x4, None)]), (None, 4, [(16, "w", None, None), (8, "rw", None, 5), (3, "r", None, None), (8, "rw", None, 0), (7, "w", None, 1)]), (None, None, [(8, "rw", None, 0), (6, "rw", None, 1)])], windows=[], events=("fall", "level"),
           bridge=dict(data_width=32, granularity=8, alignment=2)),
      dict(banks=[(None, None, [(8, "rw", None, None), (4, "w", None, None), (1, "r", 5, None)])], windows=[], events=("rise",), bridge=dict(data_width=8, granularity=None, alignment=0)),
      dict(banks=[(None, None, [(5, "rw", None, None), (16, "r", None, None), (9, "rw", None, None)])], windows=[(None, None, dict(addr_width=3, data_width=16, granularity=8)), (0x60, None, dict(addr_width=2, data_width=16, granularity=8))],
           events=(), bridge=dict(data_width=16, granularity=8, alignment=1)),
      dict(banks=[], windows=[(0x20, None, dict(addr_width=2, data_width=32, granularity=8, alignment=2)), (None, True, dict(addr_width=4, data_width=8))], events=("level",), bridge=dict(data_width=32, granularity=8, alignment=2, features={"cti", "bte"})),
      dict(banks=[(None, None, [(8, "rw", None, None)])], windows=[(None, None, dict(addr_width=1, data_width=16, granularity=8)), (None, None, dict(addr_width=2, data_width=16, granularity=8))], events=(), bridge=dict(data_width=16, granularity=8, alignment=4)),
      dict(banks=[(None, None, [(8, "rw", None, None)])] * 3, windows=[(None, None, dict(addr_width=4, data_width=8))], events=("fall",) * 5, bridge=dict(data_width=8, granularity=None, alignment=0)),
      dict(banks=[(0x40, None, [(8, "rw", 4, None), (8, "rw", 0, None)]), (0, None, [(16, "rw", None, None)])], windows=[(0x80, None, dict(addr_width=2, data_width=32, granularity=8))], events=("rise",) * 9,
           bridge=dict(data_width=32, granularity=8, alignment=2)),
      dict(banks=[(None, 3, [(8, "rw", None, None)] * 2), (None, None, [(8, "rw", None, None), (16, "rw", None, None), (8, "r", None, None)]), (None, 0, [(8, "rw", None, 0)] * 3), (None, 1, [(8, "rw", None, None)] * 2)], windows=[], events=("rise",),
           bridge=dict(data_width=32, granularity=8, alignment=2)),
      dict(banks=[], windows=[(0x20, None, dict(addr_width=3, data_width=32, granularity=16)), (0, None, dict(addr_width=2, data_width=32, granularity=16))], events=(), bridge=dict(data_width=32, granularity=16, alignment=0)),
      dict(banks=[], windows=[(None, None, dict(addr_width=2, data_width=16)), (None, None, dict(addr_width=3, data_width=16))], events=(), bridge=dict(data_width=16, granularity=None, alignment=1)),
      dict(banks=[(None, None, R32)] * 2, windows=[(None, None, dict(addr_width=5, data_width=32, granularity=8))], events=("rise", "fall", "level") * 2, bridge=dict(data_width=32, granularity=8, alignment=3), T=4, _tier="thorough")]


def placed(m, d):
    """where the memory map of the bus says the registers and windows are; checks what is asked of the map itself"""
    mm = d.bus.memory_map
    at = {id(i.resource): (i.start, i.end) for i in mm.all_resources()}
    wins = {id(w): r for w, r in mm.windows()}
    return at, wins


@harness("C44", "peripherals of one to three register banks, windows and events, implicit and explicit addresses and alignments, buses of 8 to 32 bits; "
         "T transactions at every address with every word, what the registers show and when events strobe symbolic: each reaches exactly the register or window the memory map has there", _P)
def peripheral(m, banks, windows, events, bridge, T=3):
    d = example("ex", banks, windows, events, bridge)
    h = m.elab(d)
    W = bridge["data_width"]
    n = W // (bridge["granularity"] or W)
    at, wins = placed(m, d)
    bus = d.bus
    A = len(bus.adr)
    m.check("bus as wide as asked", const(int(len(bus.dat_w) == len(bus.dat_r) == W and len(bus.sel) == n and set(bridge.get("features", ())) <= set(bus.features)), 1))
    # event registers are registers as the others
    from props.stubs import registers_of
    by_name = registers_of(bus)
    ev = []
    if events:
        for k in ("status", "pending", "enable"):
            found = [e for name, e in by_name.items() if name.endswith("ev_" + k)]
            assert len(found) == 1, list(by_name)
            ev.append(found[0])
    elems = [e for e, *_ in d.regs] + ev
    m.check("every register is in the memory map, and nothing else", const(int(sorted(at) == sorted(id(e) for e in elems)), 1))
    spans = [at[id(e)] for e in elems]
    al = 1 << bridge["alignment"]
    als = [al if banks[b][1] is None else 1 << banks[b][1] for _, b, _ in d.regs] + [al] * len(ev)
    m.check("registers do not overlap, keep the alignment and fit", const(int(all(s % k == 0 and (e - s) * 8 >= x.width for (s, e), x, k in zip(spans, elems, als)) and all(
        a[1] <= b[0] for a, b in zip(sorted(spans), sorted(spans)[1:]))), 1))
    base = {}
    for (e, b, addr), (s, _) in zip(d.regs, spans):
        if addr is not None:
            base.setdefault(b, set()).add(s - addr)
        if banks[b][1] is not None:
            m.check("registers keep the alignment of the bank", const(int(s % (1 << banks[b][1]) == 0), 1))
    for b, (addr, align, regs) in enumerate(banks):
        mine = [s for (e, bb, _), s in zip(d.regs, spans) if bb == b]
        if addr is not None:
            base.setdefault(b, set()).add(addr)
        if all(r[2] is None for r in regs):
            m.check("registers of a bank come in the order requested", const(int(mine == sorted(mine)), 1))
            if addr is not None:
                m.check("first register at the begin of the bank", const(int(mine[0][0] == addr), 1))
        # the implicit next address is the first one behind the register before that has the alignment asked for
        step = [max(bridge["alignment"] if r[3] is None else r[3], bridge["alignment"] if align is None else align) for r in regs]
        for i in range(1, len(regs)):
            if regs[i][2] is None:
                m.check("register is at the next address of its alignment", const(int(mine[i][0] == up(mine[i - 1][0] + up((regs[i - 1][0] + 7) // 8, step[i - 1]), step[i])), 1))
        if b and addr is None:
            m.check("bank comes after the one before", const(int(mine[0] > [s for (e, bb, _), s in zip(d.regs, spans) if bb == b - 1][-1]), 1))
        for i, (s, (w, acc, ra, rl)) in enumerate(zip(mine, regs)):
            if rl is not None and addr is None:
                m.check("register keeps its alignment in the bank", const(int((s[0] - mine[0][0]) % (1 << rl) == 0 or i == 0), 1))
    m.check("explicit addresses are kept", const(int(all(len(v) == 1 for v in base.values())), 1))
    # (its place may be rounded up to the alignment)
    wspan = [(s, s + (1 << w.memory_map.addr_width) // r, r) for (w, _), (s, _, r) in ((x, wins[id(x[0].memory_map)]) for x in d.wins)]
    m.check("explicit window addresses are kept", const(int(all(a is None or s[0] == a for (_, a), s in zip(d.wins, wspan))), 1))
    m.check("windows keep the alignment", const(int(all(s[0] % al == 0 for s in wspan)), 1))
    for (w, _), (_, sparse, kw) in zip(d.wins, windows):
        m.check("window as asked", const(int(w.addr_width == kw["addr_width"] and w.data_width == kw["data_width"] and w.granularity == kw.get("granularity", kw["data_width"])
                                         and len(w.adr) == kw["addr_width"] and w.memory_map.alignment == kw.get("alignment", 0)), 1))
    # in bus words
    words = [(s // n, (s % n) * 8, min(x.width, (e - s) * 8)) for (s, e), x in zip(spans, elems)]
    # a register is taken when its last address is written; those kept apart by an alignment of more than a word end in another word
    last = [(e - 1) // n for _, e in spans]
    assert all((s % n) * 8 + x.width <= W for (s, _), x in zip(spans, elems)), "a register wider than the bus word"
    R = Registers(h, elems)
    ne = len(events)
    enable, pending, status = const(0, max(ne, 1)), const(0, max(ne, 1)), const(0, max(ne, 1))
    before = [Z1] * ne
    hits = Z1
    evc = 0
    for k in range(T):
        cyc, stb, we = m.input("cyc%d" % k), m.input("stb%d" % k), m.input("we%d" % k)
        adr, dat = m.input("adr%d" % k, A), m.input("dat%d" % k, W)
        shown = {}
        for i, (e, *_) in enumerate(d.regs):
            if e.access.readable():
                shown[i] = m.input("r%d_%d" % (i, k), e.width)
                h.set(e.r_data, shown[i])
        wdat = [m.input("wd%d_%d" % (i, k), w.data_width) for i, (w, _) in enumerate(d.wins)]
        R.clear()
        acks = const(0, 4)
        done = Z1
        got = const(0, W)
        inwin = [land(t.zext(adr, 32).uge(s // n), t.zext(adr, 32).ult(e // n)) for s, e, _ in wspan]
        inreg = [t.zext(adr, 32).eq(w) for w, _, _ in words]
        for c in range(n + 5):
            active = land(cyc, stb, lnot(done))
            h.set(bus.cyc, land(cyc, lnot(done))); h.set(bus.stb, land(stb, lnot(done))); h.set(bus.we, we); h.set(bus.adr, adr); h.set(bus.dat_w, dat); h.set(bus.sel, (1 << n) - 1)
            strobes = [m.input("e%d_%d" % (i, evc)) if c < 4 else Z1 for i in range(ne)]
            evc += c < 4
            for e, s in zip(d.evs, strobes):
                h.set(e.stb, s)
            for i, (w, _) in enumerate(d.wins):
                s, e, r = wspan[i]
                # a window of narrower words in a sparse place: one word for every address
                here = land(cyc, lnot(done), inwin[i])
                sel = land(h.get(w.cyc), h.get(w.stb))
                m.check("window %d is selected exactly by its addresses" % i, iff(sel, land(here, stb)))
                m.check("window %d sees the transaction" % i, implies(sel, land(iff(h.get(w.we), we), h.get(w.dat_w).eq(t.extract(dat, 0, w.data_width)),
                                                                               h.get(w.adr).eq(t.extract(t.zext(adr, 32) - s // n, 0, w.addr_width)) if not windows[i][1] else O1)))
                h.set(w.ack, land(sel, int(c == 2))); h.set(w.dat_r, wdat[i])
            if ne:
                m.check("interrupt exactly when an enabled event is pending", iff(h.get(d.irq), t.any_bit(pending & enable)))
                m.check("event registers", land(h.get(ev[0].r_data).eq(status), h.get(ev[1].r_data).eq(pending), h.get(ev[2].r_data).eq(enable)))
            m.check("the word written arrives", R.watch(lambda i: t.extract(dat, words[i][1], elems[i].width) if last[i] == words[i][0] else h.get(elems[i].w_data)))
            if ne:
                pw, ew = h.get(ev[1].w_stb), h.get(ev[2].w_stb)
                fire = [{"level": v, "rise": land(v, lnot(b)), "fall": land(b, lnot(v))}[mo] for mo, v, b in zip(events, strobes, before)]
                evd = [h.get(e.w_data) if e.access.writable() else None for e in ev]
                pending = ite(pw, pending & ~evd[1], pending) | t.concat(*fire)
                enable = ite(ew, evd[2], enable)
                status = t.concat(*strobes)
                before = strobes
            ack = h.get(bus.ack)
            acks = acks + t.zext(ack, 4)
            got = ite(land(active, ack), h.get(bus.dat_r), got)
            done = lor(done, land(active, ack))
            h.tick()
        m.check("the write strobe may come a cycle later", R.watch(lambda i: t.extract(dat, words[i][1], elems[i].width) if last[i] == words[i][0] else h.get(elems[i].w_data)))
        req = land(cyc, stb)
        # register banks own the whole words of their bus window; there a transaction may be acknowledged without a register
        m.check("a transaction with a register or window is acknowledged once, none is when there was none",
                land(implies(land(req, lor(*inreg, *inwin)), acks.eq(1)), implies(lnot(req), acks.eq(0)), acks.ule(1)))
        for i, e in enumerate(elems):
            mine = land(req, inreg[i])
            m.check("register written once by its address, and by no other", R.wrote[i].eq(t.zext(land(req, we, t.zext(adr, 32).eq(last[i])), 3)) if e.access.writable() else O1)
            m.check("register read once by its address, and by no other", R.read[i].eq(t.zext(land(mine, lnot(we)), 3)) if e.access.readable() else O1)
            hits = lor(hits, mine)
        exp = const(0, W)
        for i, (e, *_) in enumerate(d.regs):
            if e.access.readable():
                part = t.concat(*([const(0, words[i][1])] if words[i][1] else []), shown[i], *([const(0, W - words[i][1] - e.width)] if W - words[i][1] - e.width else []))
                exp = exp | ite(inreg[i], part, const(0, W))
        inev = lor(Z1, *[x for x, e in zip(inreg, elems) if any(e is y for y in ev)])
        m.check("the word read is what the registers show", implies(land(req, lnot(we), lor(Z1, *inreg[:len(d.regs)]), lnot(inev)), got.eq(exp)))
        for i, (w, _) in enumerate(d.wins):
            m.check("the word read is the window's", implies(land(req, lnot(we), inwin[i]), t.extract(got, 0, w.data_width).eq(wdat[i])))
    if elems:
        m.cover("a register was reached", hits)
    m.cover("an interrupt" if ne else "end", t.any_bit(pending & enable) if ne else O1)


# ---------------------------------------------------------------- the whole system

EX32 = [(8, "rw", None, None), (32, "r", None, None), (16, "w", None, None)]
PACKED = [(8, "rw", None, None), (8, "r", None, None), (16, "w", None, 1), (16, "rw", None, 1), (32, "rw", None, 2)]
B2 = dict(data_width=32, granularity=8, alignment=2)
B0 = dict(data_width=32, granularity=8, alignment=0)
_S = [dict(parts=[("rom", 32, 0), ("ram", 16, None), ("ex", EX32, ("level", "rise"), B2, None)]),
      dict(parts=[("rom", 8, 0), ("ram", 8, None), ("ex", [(8, "rw", None, None)], ("level",), B2, None)], who=("id", "id")),
      dict(parts=[("ram", 9, 0x8000_0000), ("ex", PACKED, (), B0, None), ("ex", EX32, ("fall",), B2, 0x1000), ("ex", EX32[:1], ("level",), B2, None), ("rom", 20, 0x40)]),
      dict(parts=[("rom2", 8, 0), ("rom", 16, 0x2000_0000), ("rom", 32, None), ("ram2", 32, None), ("ram", 8, 0x4000_0000), ("ram", 8, None), ("uart",), ("ex", EX32[1:], ("rise",), B2, 0xF000_0000)], who=("d", "i")),
      dict(parts=[("ram", 8, 0), ("ex", PACKED, ("level",) * 3, B0, 0x100), ("rom2", 8, None)], who=("i", "d"), debug=True),
      dict(parts=[("rom", 32, 0, 12), ("ram", 8, None), ("rom2", 16, None, 0), ("bare", EX32[:1], ("level",), B2, None), ("ex", EX32[:1], ("rise",), B2, None), ("bare", EX32[1:], (), B2, 0x2000)], who=("d", "d")),
      dict(parts=[("ex", EX32[:1], ("level",), B2, None)] * 20, who=("d",)),
      dict(parts=[("rom", 32, 0), ("ram", 32, None), ("ex", EX32, ("level", "rise"), B2, None), ("ex", EX32, ("fall",), B2, None)], who=("d", "i", "d"), _tier="thorough"),
      dict(parts=[("rom", 8, 0), ("ram", 8, None), ("ex", EX32, ("level",), B2, None)], who=("id", "id", "d"), _tier="thorough")]


def build(parts):
    """the system and, for each part, what it is: (kind, object, octets)"""
    soc_mod = import_with_stubs("amlib.soc.simplesoc")
    with live():
        soc = soc_mod.SimpleSoC()
        out = []
        for i, p in enumerate(parts):
            kind = p[0]
            if kind in ("rom", "rom2"):
                data = bytes((j * 29 + 7 * i + 3) % 256 for j in range(p[3] if len(p) > 3 else p[1]))
                kw = dict(addr=p[2]) if p[2] != 0 else {}
                if kind == "rom2":
                    kw["is_main_rom"] = False
                out.append((kind, soc.add_rom(data, p[1], **kw), p, data))
            elif kind in ("ram", "ram2"):
                kw = dict(addr=p[2]) if p[2] is not None else {}
                if kind == "ram2":
                    kw["is_main_mem"] = False
                out.append((kind, soc.add_ram(p[1], **kw), p, None))
            elif kind == "uart":
                uart = import_with_stubs("amlib.soc.uart")
                u = uart.UARTPeripheral(divisor=9)
                got = soc.add_peripheral(u)
                assert got is u
                out.append((kind, u, p, None))
            else:
                d = example("ex%d" % i, [(None, None, p[1])], [], p[2], p[3])
                # a bare one is on the bus of the system, but a submodule of something else
                got = soc.add_peripheral(d, **(dict(addr=p[4]) if p[4] is not None else {}), **(dict(as_submodule=False) if kind == "bare" else {}))
                assert got is d
                out.append(("ex", d, p, None))
    return soc, out


@harness("C45", "systems of memories and peripherals at implicit and explicit addresses: several times the buses of the processor listed (instruction, data, both) make any request at any of 2^30 word addresses, "
         "what registers show and when events strobe symbolic; the C header, linker script and resource list name exactly the places the bus has, interrupt lines are those the header names", _S)
def system(m, parts, who=("d", "d"), debug=False):
    soc, devs = build(parts)
    top, jt = soc, None
    if debug:
        top, jt = _debugged(soc)
    bare = [d for _, d, p, _ in devs if p[0] == "bare"]
    if bare:
        top = _around(soc, bare)
    h = m.elab(top)
    if top is not soc:
        m.encoded.append(soc)
    for _, d, *_ in devs:
        m.encoded.append(d)
    cpu = soc.cpu
    m.check("each peripheral is in the design once, those of others not again", const(int(len({d.times for kind, d, *_ in devs if kind == "ex"}) <= 1), 1))
    say = lambda what, ok: m.check(what, const(int(bool(ok)), 1))
    # ---- what the system says of itself
    mm = soc.bus_decoder.bus.memory_map
    at = {id(i.resource): (i.start, i.end) for i in mm.all_resources()}
    names = {id(i.resource): "_".join(i.name) for i in mm.all_resources()}
    for i, (kind, d, p, _) in enumerate(devs):
        if kind in ("rom", "rom2", "ram", "ram2"):
            s, e = at[id(d)]
            say("memory is as large as asked, rounded up to a power of two", e - s == 1 << (p[1] - 1).bit_length())
            if p[2] is not None:
                say("memory is at the address asked for", s == p[2])
        elif kind == "ex" and p[4] is not None:
            say("peripheral is at the address asked for", min(at[id(e)][0] for e, *_ in d.regs) == p[4])
    listed = [(r.resource, a, n) for r, a, n in soc.resources()]
    say("the resource list is complete and true", sorted((id(r), a, n) for r, a, n in listed) == sorted((k, s, e - s) for k, (s, e) in at.items()))
    head = io.StringIO()
    soc.generate_c_header(file=head)
    head = head.getvalue()
    adr_of = {n: int(a, 16) for n, a in re.findall(r"#define\s+(\w+)_ADDRESS\s+\(?(0x[0-9a-fA-F]+)", head)}
    size_of = {n: int(a, 0) for n, a in re.findall(r"#define\s+(\w+)_SIZE\s+\(?(\w+)", head)}
    want = {names[k].upper(): v for k, v in at.items()}
    if len(want) == len(at):
        say("the header names the address of every resource", adr_of == {k: s for k, (s, e) in want.items()})
        say("the header names the size of every resource", size_of == {k: e - s for k, (s, e) in want.items()})
    ld = io.StringIO()
    soc.generate_ld_script(file=ld)
    regions = {n: (int(a, 16), int(b, 16)) for n, a, b in re.findall(r"(\w+)[^:\n]*:\s*ORIGIN\s*=\s*(0x[0-9a-fA-F]+),\s*LENGTH\s*=\s*(0x[0-9a-fA-F]+)", ld.getvalue())}
    mains = {}
    for kind, d, p, _ in devs:
        if kind in ("rom", "ram"):
            s, e = at[id(d)]
            mains.setdefault(kind, (s, e - s))
    say("the linker script has the main memories and only those", regions == mains)
    if "ram" in mains:
        say("address of the main memory", soc.main_ram_address() == mains["ram"][0])
    irq_of = {n: int(b) for n, b in re.findall(r"(\w+)_interrupt_pending\s*\(void\)\s*\{\s*return\s+pending_irqs\(\)\s*&\s*\(1\s*<<\s*(\d+)\)", head)}
    on_of = {n: int(b) for n, b in re.findall(r"(\w+)_interrupt_enable\s*\(void\)\s*\{\s*irq_setmask\(irq_getmask\(\)\s*\|\s*\(1\s*<<\s*(\d+)\)\)", head)}
    off_of = {n: int(b) for n, b in re.findall(r"(\w+)_interrupt_disable\s*\(void\)\s*\{\s*irq_setmask\(irq_getmask\(\)\s*&\s*~\s*\(1\s*<<\s*(\d+)\)\)", head)}
    irqs = [(d, irq_of.get(d.name)) for kind, d, p, _ in devs if kind == "uart" or (kind == "ex" and p[2])]
    say("the header has the interrupts of all peripherals, each its own", len(irq_of) == len(irqs) and len({b for _, b in irqs}) == len(irqs) and None not in [b for _, b in irqs])
    say("and the same for enabling and disabling them", irq_of == on_of == off_of)
    # accessors: their type decides the octets they touch
    acc = {}
    for rw in ("read", "write"):
        for ty, n, ptr in re.findall(r"(\w+)\s+(\w+)_" + rw + r"\(void\)\s*\{\s*volatile\s+\w+\s*\*\s*reg\s*=\s*\(\w+\s*\*\)\s*(\w+)_ADDRESS" if rw == "read" else
                                     r"void\s+(\w+?)()_write\(\w+ value\)\s*\{\s*volatile\s+\w+\s*\*\s*reg\s*=\s*\(\w+\s*\*\)\s*(\w+)_ADDRESS", head):
            acc.setdefault(ptr, {})[rw] = re.search(r"_" + rw + r"\([^)]*\)\s*\{\s*volatile\s+uint(\d+)_t\s*\*\s*reg\s*=\s*\(uint(\d+)_t\s*\*\)\s*" + ptr + "_ADDRESS", head).groups()
    regs = [e for kind, d, p, _ in devs if kind == "ex" for e, *_ in d.regs]
    for e in regs:
        a = acc.get(names[id(e)].upper(), {})
        say("accessors for what the register allows", set(a) == {k for k, ok in (("read", e.access.readable()), ("write", e.access.writable())) if ok})
        say("accessors are as wide as the register's place", all(x == y == str(8 * (at[id(e)][1] - at[id(e)][0])) for x, y in a.values()))
    # ---- and what its bus does
    where = {}
    for kind, d, p, data in devs:
        if kind in ("rom", "rom2", "ram", "ram2"):
            s, e = at[id(d)]
            data = (data or b"") + bytes(e - s - len(data or b""))
            where[id(d)] = [const(int.from_bytes(data[j:j + 4], "little"), 32) for j in range(0, e - s, 4)]
    R = Registers(h, regs)
    tops = [(s, s + (1 << w.addr_width)) for w, (s, _, _) in mm.windows()]
    if debug:
        hist = []
    acked_any = inter = Z1
    n_ev = 0
    for k, bs in enumerate(who):
        req = []
        for b, bus in (("i", cpu.ibus), ("d", cpu.dbus)):
            req.append(dict(bus=bus, cyc=m.input("%scyc%d" % (b, k)) if b in bs else Z1, we=m.input("%swe%d" % (b, k)), adr=m.input("%sadr%d" % (b, k), 30), sel=m.input("%ssel%d" % (b, k), 4),
                            dat=m.input("%sdat%d" % (b, k), 32), done=Z1, strobe=Z1))
        shown = {}
        for i, e in enumerate(regs):
            if e.access.readable():
                shown[i] = m.input("r%d_%d" % (i, k), e.width)
                h.set(e.r_data, shown[i])
        R.clear()
        place = []
        for e in regs:
            s, en = at[id(e)]
            place.append((s // 4, s % 4, (en - 1) // 4, (en - 1) % 4))
        for q in req:
            q["mem"] = {id(d): land(q["adr"].uge(at[id(d)][0] >> 2), t.zext(q["adr"], 31).ult(at[id(d)][1] >> 2)) for kind, d, *_ in devs if id(d) in where}
            q["reg"] = [q["adr"].eq(p[0]) for p in place]
            q["known"] = lor(Z1, *q["mem"].values(), *q["reg"])
            q["inside"] = lor(Z1, *[land(q["adr"].uge(s >> 2), t.zext(q["adr"], 31).ult(e >> 2)) for s, e in tops])
        for c in range(18 if len(bs) > 1 else 9):
            for q in req:
                live_ = land(q["cyc"], lnot(q["done"]))
                q["act"] = live_
                b = q["bus"]
                h.set(b.cyc, live_); h.set(b.stb, live_); h.set(b.we, q["we"]); h.set(b.adr, q["adr"]); h.set(b.sel, q["sel"]); h.set(b.dat_w, q["dat"])
            for kind, d, p, _ in devs:
                if kind == "ex":
                    for j, e in enumerate(d.evs):
                        h.set(e.stb, m.input("e%d_%d_%s" % (j, n_ev, d.name)) if c in (0, 7) else Z1)
                elif kind == "uart":
                    h.set(d.rx, 1)
            n_ev += c in (0, 7)
            ip = h.get(cpu.ip)
            for d, b in irqs:
                if b is not None:
                    m.check("interrupt line %s" % d.name, iff(ip[b], h.get(d.irq)))
                    inter = lor(inter, h.get(d.irq))
            m.check("no other interrupt lines", (ip & (0xffffffff & ~sum(1 << b for _, b in irqs if b is not None))).eq(0))
            acks = [h.get(q["bus"].ack) for q in req]
            m.check("one bus at a time", lnot(land(*acks)))
            ok = R.watch(lambda i: h.get(regs[i].w_data))
            for i, e in enumerate(regs):
                if e.access.writable():
                    off = place[i][1] * 8
                    m.check("what is written arrives", implies(h.get(e.w_stb), lor(*[land(q["act"], q["we"], q["reg"][i], implies(land(*[q["sel"][j] for j in range(place[i][1], place[i][1] + (e.width + 7) // 8)]),
                                                                                                                          h.get(e.w_data).eq(t.extract(q["dat"], off, e.width)))) for q in req])))
            for q, ack in zip(req, acks):
                took = land(ack, q["act"])
                m.check("no acknowledgment without a request", implies(ack, q["act"]))
                m.check("no acknowledgment from an unused address", implies(took, q["inside"]))
                dat = h.get(q["bus"].dat_r)
                for ident, words in where.items():
                    kind, d, p, _ = next(x for x in devs if id(x[1]) == ident)
                    s = at[ident][0] >> 2
                    idx = t.extract(q["adr"] - s, 0, max((len(words) - 1).bit_length(), 1))
                    hit = land(took, q["mem"][ident])
                    word = t.select(words, idx)
                    m.check("a read of memory is its content", implies(land(hit, lnot(q["we"])), dat.eq(word)))
                    if kind in ("ram", "ram2"):
                        merged = t.concat(*[ite(q["sel"][j], t.extract(q["dat"], 8 * j, 8), t.extract(word, 8 * j, 8)) for j in range(4)])
                        where[ident] = [ite(land(hit, q["we"], idx.eq(j)), merged, w) for j, w in enumerate(words)]
                for i, e in enumerate(regs):
                    if i in shown:
                        off = place[i][1] * 8
                        m.check("a read of a register is what it shows", implies(land(took, lnot(q["we"]), q["reg"][i], q["sel"][place[i][1]], *[q["sel"][j] for j in range(place[i][1], place[i][1] + (e.width + 7) // 8)]),
                                                                               t.extract(dat, off, e.width).eq(shown[i])))
                q["done"] = lor(q["done"], took)
                acked_any = lor(acked_any, took)
            if debug:
                vals = [m.input("jt%s%d_%d" % (n, k, c)) if c < 6 else Z1 for n in ("tck", "tms", "tdi")]
                tdo = m.input("tdo%d_%d" % (k, c))
                for s, v in zip(jt["in"], vals):
                    h.set(s, v)
                h.set(jt["jtag"].tdo, tdo)
                m.check("debug data out", iff(h.get(jt["out"]), tdo))
                if len(hist) >= 2:
                    for nme, v in zip(("tck", "tms", "tdi"), hist[-2]):
                        m.check("debug port follows its pins", iff(h.get(getattr(jt["jtag"], nme)), v))
                hist.append(vals)
            h.tick()
        R.watch(lambda i: h.get(regs[i].w_data))
        for q, o in ((req[0], req[1]), (req[1], req[0])):
            m.check("a request to a known place is answered", implies(land(q["cyc"], q["known"], lor(lnot(o["cyc"]), o["known"])), q["done"]))
        for i, e in enumerate(regs):
            w, f = place[i][2], place[i]
            nw = nr = const(0, 3)
            for q in req:
                mine = land(q["done"], q["adr"].eq(f[0]))
                nw = nw + t.zext(land(mine, q["we"], q["sel"][f[3]]), 3)
                nr = nr + t.zext(land(mine, lnot(q["we"]), q["sel"][f[1]]), 3)
            both = land(*[lor(lnot(q["cyc"]), q["done"]) for q in req])
            m.check("registers are written exactly by the requests to them", implies(both, R.wrote[i].eq(nw)) if e.access.writable() else O1)
            m.check("registers are read exactly by the requests to them", implies(both, R.read[i].eq(nr)) if e.access.readable() else O1)
    m.cover("a request was answered", acked_any)
    if irqs and (len(who) > 1 or len(irqs) > 9):
        m.cover("an interrupt", inter)


def _around(soc, others):
    """the system next to those of its peripherals that are not its submodules"""
    from amaranth import Elaboratable, Module

    class Top(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.soc = soc
            for i, d in enumerate(others):
                m.submodules["other%d" % i] = d
            return m
    return Top()


def _debugged(soc):
    """the system with its debug port on the pins of a platform that has four of them"""
    from types import SimpleNamespace
    from amaranth import Signal, Elaboratable, Fragment
    jtag = SimpleNamespace(**{n: Signal(name="jtag_" + n) for n in ("tck", "tms", "tdi", "tdo")})
    soc.cpu._cpu = SimpleNamespace(jtag=jtag)
    soc.add_debug_port()
    pins = [Signal(name="user_io%d" % i) for i in range(4)]

    class Platform:
        def request(self, name, number, dir):
            assert name == "user_io" and dir == ("o" if number == 3 else "i")
            return SimpleNamespace(**{dir: pins[number]})

    class Top(Elaboratable):
        def elaborate(self, platform):
            return soc.elaborate(Platform())
    return Top(), {"in": pins[:3], "out": pins[3], "jtag": jtag}
