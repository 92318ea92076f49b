"""Stand-ins for packages that are not installed here (amaranth_soc, lambdasoc, minerva).

They provide just the interfaces the code under /repo touches, as documented by those packages; anything else raises.
Their semantics are part of the claim of every property that uses them."""
import contextlib
import importlib
import sys
import types
from amaranth import *
from amaranth.hdl.rec import Record, Layout, DIR_FANIN, DIR_FANOUT


def _mod(name, **attrs):
    mod = types.ModuleType(name)
    mod.__dict__.update(attrs)
    return mod


def _log2(x):
    n = (x - 1).bit_length()
    assert 1 << n == x
    return n


def registers_of(bus):
    """the registers behind the stand-in of a bus decoder, name -> element, in their order"""
    out = {}
    for sub, _, _ in bus.decoder.subs:
        for e, _, _ in (sub.leads_to.elements if "leads_to" in vars(sub) else ()):
            assert e.name not in out, e.name
            out[e.name] = e
    return out


LIVE = [False]


@contextlib.contextmanager
def live():
    """what is built inside behaves as the bus parts of amaranth_soc and lambdasoc do; otherwise the stand-ins only record what they are given"""
    LIVE[0] = True
    try:
        yield
    finally:
        LIVE[0] = False


class WBInterface(Record):
    """amaranth_soc.wishbone.Interface"""
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        granularity = granularity or data_width
        self.addr_width, self.data_width, self.granularity, self.features = addr_width, data_width, granularity, set(features)
        self._map = None
        layout = [("adr", addr_width, DIR_FANOUT), ("dat_w", data_width, DIR_FANOUT), ("dat_r", data_width, DIR_FANIN), ("sel", data_width // granularity, DIR_FANOUT),
                  ("cyc", 1, DIR_FANOUT), ("stb", 1, DIR_FANOUT), ("we", 1, DIR_FANOUT), ("ack", 1, DIR_FANIN)]
        for f in ("err", "rty", "stall", "lock"):
            if f in features:
                layout.append((f, 1, DIR_FANOUT if f == "lock" else DIR_FANIN))
        if "cti" in features:
            layout.append(("cti", 3, DIR_FANOUT))
        if "bte" in features:
            layout.append(("bte", 2, DIR_FANOUT))
        super().__init__(layout, name=name)

    @property
    def memory_map(self):
        if self._map is None:
            raise NotImplementedError("bus interface without a memory map")
        return self._map

    @memory_map.setter
    def memory_map(self, mm):
        if mm.data_width != self.granularity:
            raise ValueError("memory map has data width %d, not the granularity %d of the bus" % (mm.data_width, self.granularity))
        if mm.addr_width != max(1, self.addr_width + _log2(self.data_width // self.granularity)):
            raise ValueError("memory map has address width %d, not that of the bus" % mm.addr_width)
        mm.freeze()
        self._map = mm


class ResourceInfo:
    def __init__(self, resource, name, start, end, width):
        self.resource, self.name, self.start, self.end, self.width = resource, name, start, end, width


def _up(value, alignment):
    return -(-value >> alignment) << alignment


class MemoryMap:
    """amaranth_soc.memory.MemoryMap: addresses are given out in order, aligned, or as asked; nothing may overlap or lie outside"""
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.addr_width, self.data_width, self.alignment, self.name = addr_width, data_width, alignment, name
        self._resources, self._windows, self._next, self._frozen = [], [], 0, False

    def freeze(self):
        self._frozen = True

    def _place(self, addr, size, step, alignment, extend):
        if self._frozen:
            raise ValueError("memory map has been frozen")
        if addr is not None:
            if addr % (1 << self.alignment):
                raise ValueError("explicitly specified address 0x%x is not aligned" % addr)
        else:
            addr = _up(self._next, alignment)
        size = _up(max(size, 1), alignment)
        if extend:
            self.addr_width = max(self.addr_width, (addr + size - 1).bit_length())
        elif addr + size > 1 << self.addr_width:
            raise ValueError("address range 0x%x..0x%x out of bounds" % (addr, addr + size))
        for *_, r in self._resources + self._windows:
            if addr < r.stop and r.start < addr + size:
                raise ValueError("address range 0x%x..0x%x overlaps another" % (addr, addr + size))
        self._next = addr + size
        return range(addr, addr + size, step)

    def add_resource(self, resource, *, name, size, addr=None, alignment=None, extend=False):
        r = self._place(addr, size, 1, max(alignment or 0, self.alignment), extend)
        self._resources.append((resource, (name,) if isinstance(name, str) else tuple(name), r))
        return r.start, r.stop

    def add_window(self, window, *, addr=None, sparse=None, extend=False):
        if window.data_width > self.data_width:
            raise ValueError("window is wider than the memory map")
        if window.data_width != self.data_width and sparse is None:
            raise ValueError("address translation mode must be explicitly specified")
        ratio = 1 if sparse else self.data_width // window.data_width
        size = (1 << window.addr_width) // ratio
        window.freeze()
        if addr is not None and addr % size:
            raise ValueError("window at an address that is not a multiple of its size")
        r = self._place(addr, size, ratio, max(self.alignment, _log2(size)), extend)
        self._windows.append((window, None, r))
        return r.start, r.stop, r.step

    def resources(self):
        return [(a, n, (r.start, r.stop)) for a, n, r in self._resources]

    def windows(self):
        return [(w, (r.start, r.stop, r.step)) for w, _, r in self._windows]

    def window_patterns(self):
        for w, _, r in self._windows:
            own = w.addr_width - _log2(r.step)
            const = self.addr_width - own
            yield w, (("{:0{}b}".format(r.start >> own, const) if const else "") + "-" * own, r.step)

    def all_resources(self):
        out = [ResourceInfo(a, n, r.start, r.stop, self.data_width) for a, n, r in self._resources]
        for w, _, r in self._windows:
            for i in w.all_resources():
                assert (i.end - i.start) % r.step == 0 and i.start % r.step == 0
                out.append(ResourceInfo(i.resource, i.name if w.name is None else (w.name, *i.name), i.start // r.step + r.start, i.end // r.step + r.start, i.width * r.step))
        return sorted(out, key=lambda i: i.start)


class Access(str):
    """amaranth_soc.csr.Element.Access"""
    def __new__(cls, access):
        assert access in ("r", "w", "rw")
        return super().__new__(cls, access)

    def readable(self):
        return "r" in self

    def writable(self):
        return "w" in self


class CSRElement(Record):
    """amaranth_soc.csr.Element"""
    def __init__(self, width, access, name=None):
        self.width, self.access = width, Access(access)
        layout = []
        if "r" in access:
            layout += [("r_data", width), ("r_stb", 1)]
        if "w" in access:
            layout += [("w_data", width), ("w_stb", 1)]
        super().__init__(layout, name=name)


class IRQLine(Signal):
    """lambdasoc.periph.event.IRQLine"""
    def __init__(self, shape=None, *, name=None, src_loc_at=0):
        super().__init__(1, name=name, src_loc_at=1 + src_loc_at)


class CSRBus(Record):
    """amaranth_soc.csr.Interface"""
    def __init__(self, addr_width, data_width):
        self.addr_width, self.data_width = addr_width, data_width
        super().__init__([("addr", addr_width), ("r_data", data_width), ("r_stb", 1), ("w_data", data_width), ("w_stb", 1)], name="csr")


class CSRMultiplexer(Elaboratable):
    """amaranth_soc.csr.Multiplexer: a register is read as a whole when its first chunk is, and written when its last one is"""
    def __init__(self, *, addr_width, data_width, alignment=0):
        self.live = LIVE[0]
        self.data_width, self._bus, self.elements = data_width, None, []
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment)

    @property
    def bus(self):
        if self._bus is None:
            self._map.freeze()
            self._bus = CSRBus(self._map.addr_width, self.data_width)
            self._bus.memory_map, self._bus.mux = self._map, self
        return self._bus

    def add(self, element, *, addr=None, alignment=None, extend=False):
        self.elements.append((element, addr, alignment))
        return self._map.add_resource(element, name=element.name, size=(element.width + self.data_width - 1) // self.data_width, addr=addr, alignment=alignment, extend=extend)

    def elaborate(self, platform):
        m = Module()
        if not self.live:
            return m
        bus, dw = self.bus, self.data_width
        fanin = 0
        for elem, _, (start, end) in self._map.resources():
            shadow = Signal(elem.width, name=elem.name + "_shadow")
            readable, writable = "r" in elem.access, "w" in elem.access
            if readable:
                chosen = Signal(end - start, name=elem.name + "_chosen")
                m.d.sync += chosen.eq(0)
            if writable:
                m.d.comb += elem.w_data.eq(shadow)
                m.d.sync += elem.w_stb.eq(0)
            for n, at in enumerate(range(start, end)):
                part = shadow[n * dw:(n + 1) * dw] if n * dw < elem.width else None
                with m.If(bus.addr == at):
                    if readable:
                        m.d.sync += chosen[n].eq(bus.r_stb)
                        if n == 0:
                            m.d.comb += elem.r_stb.eq(bus.r_stb)
                            with m.If(bus.r_stb):
                                m.d.sync += shadow.eq(elem.r_data)
                    if writable:
                        if part is not None:
                            with m.If(bus.w_stb):
                                m.d.sync += part.eq(bus.w_data)
                        if at == end - 1:
                            m.d.sync += elem.w_stb.eq(bus.w_stb)
                if readable and part is not None:
                    fanin |= Mux(chosen[n], part, 0)
        m.d.comb += bus.r_data.eq(fanin)
        return m


class WishboneCSRBridge(Elaboratable):
    """amaranth_soc.csr.wishbone.WishboneCSRBridge: a word is transferred chunk after chunk, lowest first"""
    def __init__(self, csr_bus, *, data_width=None, name=None):
        self.live = LIVE[0]
        data_width = data_width or csr_bus.data_width
        self.csr_bus = csr_bus
        ratio = _log2(data_width // csr_bus.data_width)
        self.wb_bus = WBInterface(addr_width=max(0, csr_bus.addr_width - ratio), data_width=data_width, granularity=csr_bus.data_width, name="csr_bridge")
        mm = MemoryMap(addr_width=max(csr_bus.addr_width, ratio, 1), data_width=csr_bus.data_width)
        mm.add_window(csr_bus.memory_map)
        self.wb_bus.memory_map = mm
        self.wb_bus.leads_to = csr_bus.mux

    def elaborate(self, platform):
        m = Module()
        if not self.live:
            return m
        wb, csr, n = self.wb_bus, self.csr_bus, len(self.wb_bus.sel)
        g = csr.data_width
        cycle = Signal(range(n + 1))
        m.d.comb += csr.addr.eq(Cat(cycle[:_log2(n)], wb.adr))
        with m.If(wb.cyc & wb.stb):
            for i in range(n):
                with m.If(cycle == i):
                    if i:
                        m.d.sync += wb.dat_r[(i - 1) * g:i * g].eq(csr.r_data)
                    m.d.comb += [csr.r_stb.eq(wb.sel[i] & ~wb.we), csr.w_data.eq(wb.dat_w[i * g:(i + 1) * g]), csr.w_stb.eq(wb.sel[i] & wb.we)]
                    m.d.sync += cycle.eq(i + 1)
            with m.If(cycle == n):
                m.d.sync += [wb.dat_r[(n - 1) * g:].eq(csr.r_data), wb.ack.eq(1)]
        with m.If(wb.ack):
            m.d.sync += [cycle.eq(0), wb.ack.eq(0)]
        return m


class WBDecoder(Elaboratable):
    """amaranth_soc.wishbone.Decoder: the subordinate whose range holds the address sees the cycle"""
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        self.live = LIVE[0]
        self.data_width, self.granularity, self.features = data_width, granularity or data_width, set(features)
        self._map = MemoryMap(addr_width=max(1, addr_width + _log2(data_width // self.granularity)), data_width=self.granularity, alignment=alignment)
        self._bus, self.subs = None, []

    @property
    def bus(self):
        if self._bus is None:
            self._map.freeze()
            self._bus = WBInterface(addr_width=self._map.addr_width - _log2(self.data_width // self.granularity), data_width=self.data_width, granularity=self.granularity,
                                    features=self.features, name="decoder")
            self._bus.memory_map = self._map
            self._bus.decoder = self
        return self._bus

    def add(self, sub, *, addr=None, sparse=False, extend=False):
        if sub.granularity > self.granularity:
            raise ValueError("subordinate has a coarser granularity than the decoder")
        if not sparse and (sub.data_width != self.data_width or sub.granularity != self.granularity):
            raise ValueError("subordinate has another data width or granularity than the decoder")
        for f in ("err", "rty", "stall"):
            if f in sub.features and f not in self.features:
                raise ValueError("subordinate has an output the decoder has not")
        self.subs.append((sub, addr, sparse))
        return self._map.add_window(sub.memory_map, addr=addr, sparse=sparse, extend=extend)

    def elaborate(self, platform):
        m = Module()
        if not self.live:
            return m
        bus = self.bus
        low = _log2(self.data_width // self.granularity)
        by_map = {id(sub.memory_map): sub for sub, _, _ in self.subs}
        acks, data = 0, 0
        for w, (pattern, ratio) in self._map.window_patterns():
            sub = by_map[id(w)]
            hit = Signal(name="hit")
            with m.If(bus.adr.matches(pattern[:-low if low else None])):
                m.d.comb += hit.eq(1)
            m.d.comb += [sub.adr.eq(bus.adr << _log2(ratio)), sub.dat_w.eq(bus.dat_w), sub.sel.eq(Cat(s.replicate(ratio) for s in bus.sel)), sub.we.eq(bus.we),
                         sub.stb.eq(bus.stb), sub.cyc.eq(bus.cyc & hit)]
            for f in ("lock", "cti", "bte"):
                if f in sub.features:
                    m.d.comb += sub[f].eq(bus[f] if f in bus.features else 0)
            acks |= sub.ack & hit
            data |= Mux(hit, sub.dat_r, 0)
        m.d.comb += [bus.ack.eq(acks), bus.dat_r.eq(data)]
        return m


class WBArbiter(Elaboratable):
    """amaranth_soc.wishbone.Arbiter: one initiator at a time, in turn, for as long as its cycle lasts"""
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset()):
        self.bus = WBInterface(addr_width=addr_width, data_width=data_width, granularity=granularity, features=features, name="arbiter")
        self.intrs = []

    def add(self, intr):
        if intr.addr_width != self.bus.addr_width or intr.data_width != self.bus.data_width or intr.granularity < self.bus.granularity:
            raise ValueError("initiator does not fit the arbiter")
        for f in ("err", "rty"):
            if f in self.bus.features and f not in intr.features:
                raise ValueError("arbiter has an output the initiator has not")
        self.intrs.append(intr)

    def elaborate(self, platform):
        m = Module()
        bus, n = self.bus, len(self.intrs)
        grant = Signal(range(n))
        requests = Signal(n)
        m.d.comb += requests.eq(Cat(i.cyc for i in self.intrs))
        with m.If(~bus.cyc):
            for g in range(n):
                with m.If(grant == g):
                    for off in reversed(range(1, n)):
                        with m.If(requests[(g + off) % n]):
                            m.d.sync += grant.eq((g + off) % n)
        for g, i in enumerate(self.intrs):
            m.d.comb += i.dat_r.eq(bus.dat_r)
            with m.If(grant == g):
                ratio = i.granularity // bus.granularity
                m.d.comb += [bus.adr.eq(i.adr), bus.dat_w.eq(i.dat_w), bus.sel.eq(Cat(s.replicate(ratio) for s in i.sel)), bus.we.eq(i.we), bus.stb.eq(i.stb),
                             bus.cyc.eq(i.cyc), i.ack.eq(bus.ack)]
                for f in ("lock", "cti", "bte"):
                    if f in bus.features and f in i.features:
                        m.d.comb += bus[f].eq(i[f])
        return m


class CPUSoC:
    """lambdasoc.soc.cpu.CPUSoC: only its name is used"""


class MinervaCPU(Elaboratable):
    """lambdasoc.cpu.minerva.MinervaCPU: its two buses and its interrupt lines, for a harness to drive and watch"""
    def __init__(self, **kw):
        mk = lambda n: WBInterface(addr_width=30, data_width=32, granularity=8, features={"err", "cti", "bte"}, name=n)
        self.ibus, self.dbus, self.ip = mk("ibus"), mk("dbus"), Signal(32, name="cpu_ip")

    def elaborate(self, platform):
        return Module()


class GenericInterruptController(Elaboratable):
    """lambdasoc.periph.intc.GenericInterruptController: line n is bit n"""
    def __init__(self, *, width):
        self.width, self.ip, self.lines = width, Signal(width, name="intc_ip"), {}

    def add_irq(self, line, index):
        if not isinstance(line, IRQLine):
            raise TypeError("not an interrupt line")
        if not 0 <= index < self.width or index in self.lines:
            raise ValueError("interrupt number %d is not free" % index)
        self.lines[index] = line

    def elaborate(self, platform):
        m = Module()
        for i, line in self.lines.items():
            m.d.comb += self.ip[i].eq(line)
        return m


def _absent(name):
    """a class that can be named and inherited from, but not used"""
    def init(self, *a, **k):
        raise NotImplementedError(name + " is not installed")
    return type(name, (), dict(__init__=init))


def install():
    if "amaranth_soc" in sys.modules:
        return
    wb = _mod("amaranth_soc.wishbone", Interface=WBInterface, CycleType=None, Decoder=WBDecoder, Arbiter=WBArbiter)
    mem = _mod("amaranth_soc.memory", MemoryMap=MemoryMap)
    csrwb = _mod("amaranth_soc.csr.wishbone", WishboneCSRBridge=WishboneCSRBridge)
    csr = _mod("amaranth_soc.csr", Element=CSRElement, Multiplexer=CSRMultiplexer, wishbone=csrwb, __path__=[])
    mods = [_mod("amaranth_soc", wishbone=wb, memory=mem, csr=csr, __path__=[]), wb, mem, csr, csrwb,
            _mod("lambdasoc", __path__=[]), _mod("lambdasoc.soc", __path__=[]), _mod("lambdasoc.cpu", __path__=[]), _mod("lambdasoc.periph", __path__=[]),
            _mod("lambdasoc.soc.cpu", CPUSoC=CPUSoC), _mod("lambdasoc.cpu.minerva", MinervaCPU=MinervaCPU),
            _mod("lambdasoc.periph.event", IRQLine=IRQLine), _mod("lambdasoc.periph.intc", GenericInterruptController=GenericInterruptController),
            _mod("lambdasoc.periph.serial", AsyncSerialPeripheral=_absent("AsyncSerialPeripheral"), AsyncSerial=_absent("AsyncSerial")),
            _mod("lambdasoc.periph.sram", SRAMPeripheral=_absent("SRAMPeripheral")), _mod("lambdasoc.periph.timer", TimerPeripheral=_absent("TimerPeripheral")),
            _mod("minerva", __path__=[]), _mod("minerva.core", Minerva=_absent("Minerva"))]
    for m in mods:
        sys.modules[m.__name__] = m


def import_with_stubs(name):
    install()
    return importlib.import_module(name)
