"""Integrated logic analyzer: capture (C31) and readout (C32)."""
from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, ILA, SILA
from props.stubs import import_with_stubs

Z1 = const(0, 1)
O1 = const(1, 1)


def _sigs(widths):
    from amaranth import Signal, signed
    return [Signal(signed(-w) if w < 0 else w, name="probe%d" % i) for i, w in enumerate(widths)]     # a negative width is a signed probe


@harness("C31", "buffers of 3 to 8 samples, 0 to 9 samples before the trigger, with and without enable; every value of the probes, every pattern of trigger "
         "and enable once the pretrigger samples are there, and without enable from the first cycle; every sequence of sample numbers asked for; cycles enough for a capture, a second one and the readout of every cell",
         [dict(depth=4, pre=0, K=13), dict(depth=4, pre=1, K=13), dict(depth=4, pre=2, K=13), dict(depth=5, pre=3, K=14), dict(depth=3, pre=4, K=11), dict(depth=8, pre=2, K=14),
          dict(depth=4, pre=0, K=13, en=True), dict(depth=3, pre=1, K=12, en=True), dict(depth=4, pre=2, K=12, en=True), dict(depth=4, pre=3, K=12, en=True),
          dict(depth=3, pre=3, K=10, en=True, sparse=True), dict(depth=3, pre=5, K=10, en=True, sparse=True),
          dict(depth=4, pre=2, K=12, dom="fast"), dict(depth=4, pre=1, K=12, dom="fast", en=True),
          dict(depth=32, pre=1, K=110, widths=(32, 1, 7), _plan=dict(trg="0*6,1,0*17,1,0*18,1,0*400")), dict(depth=33, pre=2, K=120, _plan=dict(trg="~1:40:77,0*300")),
          dict(depth=32, pre=8, K=160, en=True, widths=(12,), _plan=dict(trg="0*21,~2:30:83,0*300", en="~3:65:97")), dict(depth=20, pre=16, K=110, en=True, _plan=dict(trg="0*36,1,0*5,1*30,0*400", en="1*9,0*3,1*2,0")),
          dict(depth=17, pre=0, K=110, en=True, _plan=dict(trg="1*60,0*400", en="~4:50:83")), dict(depth=64, pre=12, K=150, _plan=dict(trg="0*16,1,0*30,1*33,0,1,0*400")),
          dict(depth=6, pre=4, K=20, early=True), dict(depth=3, pre=2, K=14, early=True), dict(depth=4, pre=1, K=13, early=True), dict(depth=5, pre=9, K=30, early=True, widths=(2,)), dict(depth=4, pre=0, K=9, early=True),
          dict(depth=4, pre=3, K=12, en=True, widths=(20, 12)), dict(depth=5, pre=1, K=14, widths=(32,)),
          dict(depth=8, pre=4, K=26, _tier="thorough"), dict(depth=8, pre=3, K=22, en=True, _tier="thorough")])
def capture(m, depth, pre, K, en=False, dom="sync", widths=(3, 1), sparse=False, early=False):
    IntegratedLogicAnalyzer = import_with_stubs("amlib.debug.ila").IntegratedLogicAnalyzer
    probes = _sigs(widths)
    d = IntegratedLogicAnalyzer(**given(ILA, signals=probes, sample_depth=depth, domain=dom, samples_pretrigger=pre, with_enable=en))
    h = m.elab(d, dom)
    warm = 0 if early else 2 * pre + 9 if sparse else pre + 4
    past = []                                             # (sample, enabled) of every cycle so far
    W = sum(widths)
    NA = max(1, (depth - 1).bit_length())
    mem = [const(0, W)] * depth
    written = [Z1] * depth
    run, done, again = Z1, Z1, Z1
    P = depth.bit_length() + 1
    pos = const(0, P)
    filled = const(0, 5)                                  # enabled samples taken into the pretrigger buffer
    for k in range(warm + K):
        if sparse and k == pre + 6:
            m.assume(lnot(t.ult(filled, const(pre - 1, 5))))
        x = [m.input("p%d_%d" % (i, k), w) for i, w in enumerate(widths)]
        for s, v in zip(probes, x):
            h.set(s, v)
        e = (O1 if k < warm and not sparse else m.input("en%d" % k)) if en else O1
        if en:
            h.set(d.enable, e)
        filled = filled + t.zext(e, 5) if sparse and k < pre + 6 else filled
        trg = Z1 if k < warm else m.input("trg%d" % k)
        h.set(d.trigger, trg)
        past.append((t.concat(*x), e))
        # while the capture runs, the sample of pre + 1 cycles ago is the one in line
        old, olde = past[k - pre - 1] if k - pre - 1 >= 0 else (const(0, W), O1 if early else Z1)
        take = land(run, olde)
        # the sample number asked for has no part in it
        h.set(d.captured_sample_number, m.range("look%d" % k, NA, 0, depth - 1))
        m.check("capturing", iff(h.get(d.capturing), run))
        m.check("sampling", iff(h.get(d.sampling), take))
        m.check("complete", iff(h.get(d.complete), done))
        h.tick()
        last = land(take, pos.eq(depth - 1))
        for c in range(depth):
            here = land(take, pos.eq(c))
            mem[c] = ite(here, old, mem[c])
            # what stands in for the samples of before the start is not given
            written[c] = ite(here, const(int(k - pre - 1 >= 0), 1), written[c])
        start = land(lnot(run), trg)
        done = ite(start, Z1, lor(done, last))
        pos = ite(start, const(0, P), ite(take, pos + 1, pos))
        run = ite(run, lnot(last), trg)
        again = lor(again, land(run, *written))
    if early:
        m.cover("captured from the very start", land(done, *[lnot(x) for x in written[:min(pre, depth)]]))
    m.cover("captured", land(done, *written))
    m.cover("captured and triggered again", again)
    h.set(d.trigger, 0)
    if en:
        h.set(d.enable, 0)
    a = m.range("addr", NA, 0, depth - 1)
    for c in range(2):
        h.set(d.captured_sample_number, a)
        h.tick()
    m.check("the selected sample is presented", implies(land(done, t.select(written, a)), h.get(d.captured_sample).eq(t.select(mem, a))))


def _ready(name, K, m, tag):
    import random
    if name == "all":
        return [m.input("rdy%s_%d" % (tag, k)) for k in range(K)]
    r = random.Random(name + tag)
    p = {"fast": 1, "half": .5, "rare": .15}[name]
    return [const(int(r.random() < p), 1) for _ in range(K)]


@harness("C32", "samples to a stream in the same clock domain: every sample value, two captures in a row, every pattern of the consumer's "
         "readiness (and listed ones for deeper buffers, and a consumer that is ready only once it is offered something), with and without pretrigger samples and enable",
         [dict(depth=4, pre=1, K=12, ready="all"), dict(depth=3, pre=0, K=10, ready="all"), dict(depth=5, pre=2, K=14, ready="all"), dict(depth=4, pre=1, K=12, ready="all", en=True),
          dict(depth=4, pre=1, K=10, ready="all", dom="fast"), dict(depth=8, pre=3, K=80, ready="half"), dict(depth=6, pre=1, K=150, ready="rare"), dict(depth=16, pre=1, K=40, ready="fast", widths=(12,)),
          dict(depth=5, pre=1, K=24, ready="wait"), dict(depth=4, pre=0, K=24, ready="late"), dict(depth=16, pre=3, K=70, ready="late"),
          dict(depth=7, pre=4, K=24, ready="all", _tier="thorough"), dict(depth=32, pre=4, K=700, ready="rare", _tier="thorough")])
def stream_readout(m, depth, pre, K, ready, widths=(3, 2), en=False, dom="sync"):
    StreamILA = import_with_stubs("amlib.debug.ila").StreamILA
    probes = _sigs(widths)
    kw = dict(with_enable=True) if en else {}
    d = StreamILA(**given(ILA, signals=probes, sample_depth=depth, samples_pretrigger=pre, domain=dom, **kw))
    h = m.elab(d, dom)
    W = sum(widths)
    m.check("payload is a power of two wide", const(int(d.bits_per_sample >= W and d.bits_per_sample & (d.bits_per_sample - 1) == 0), 1))
    m.check("octets of a sample", const(int(d.bytes_per_sample == (d.bits_per_sample + 7) // 8 and len(d.stream.payload) == d.bits_per_sample), 1))
    if en:
        h.set(d.enable, 1)
    past = []

    def feed(tag):
        x = [m.input("p%d_%s" % (i, tag), w) for i, w in enumerate(widths)]
        for s, v in zip(probes, x):
            h.set(s, v)
        past.append(t.concat(*x))
        h.tick()
    C = depth.bit_length() + 1
    for rnd in range(2):
        for k in range(pre + 4):
            m.check("silent without a capture", lnot(h.get(d.stream.valid)))
            feed("w%d_%d" % (rnd, k))
        h.set(d.trigger, 1)
        feed("t%d" % rnd)
        h.set(d.trigger, 0)
        start = len(past) - 1 - pre
        for k in range(depth + 1):
            m.check("silent while capturing", lnot(h.get(d.stream.valid)))
            # further triggers do nothing now
            h.set(d.trigger, m.input("trg%d_%d" % (rnd, k)))
            feed("c%d_%d" % (rnd, k))
        h.set(d.trigger, 0)
        want = [t.zext(x, d.bits_per_sample) for x in past[start:start + depth]]
        n = const(0, C)
        held = Z1
        reacts = ready in ("wait", "late")
        pat = [None] * K if reacts else _ready(ready, K, m, str(rnd)) + [O1] * (2 * depth + 4)
        for k, r in enumerate(pat):
            v = h.get(d.stream.valid)
            r = r if r is not None else v if ready == "wait" else held
            m.check("a word offered stays until it is taken", implies(held, v))
            m.check("no more words than samples", implies(v, t.ult(n, const(depth, C))))
            m.check("word offered is the next sample", implies(v, h.get(d.stream.payload).eq(t.select(want, n))))
            m.check("first and last frame the capture", implies(v, land(iff(h.get(d.stream.first), n.eq(0)), iff(h.get(d.stream.last), n.eq(depth - 1)))))
            h.set(d.stream.ready, r)
            # until the last sample is gone a trigger does nothing
            h.set(d.trigger, land(m.input("trs%d_%d" % (rnd, k)), t.ult(n, const(depth, C))))
            held = land(v, lnot(r))
            n = n + t.zext(land(v, r), C)
            for i, s in enumerate(probes):
                h.set(s, m.input("s%d_%d_%d" % (rnd, i, k), widths[i]) if k < 6 else 0)
            h.tick()
            past.append(const(0, W))
        h.set(d.trigger, 0)
        m.check("every sample was sent", n.eq(depth))
        h.set(d.stream.ready, m.input("idle%d" % rnd))
    m.cover("end", O1)


def _ticks(name, K):
    """which clocks have an edge, step by step"""
    import random
    r = random.Random(name)
    out, a, b = [], 0.0, 0.3
    ra, rb = {"same": (1, 1), "slow": (1, .3), "fast": (.4, 1), "close": (1, .93)}[name]
    for _ in range(K):
        a, b = a + ra, b + rb
        s = set()
        if a >= 1:
            a -= 1
            s.add("sync")
        if b >= 1:
            b -= 1
            s.add("out")
        out.append(s)
    return out


@harness("C32", "samples to a stream in another clock domain: every sample value, two captures in a row, four relations of the two clocks, "
         "listed patterns of the consumer's readiness; more samples than the crossing buffer holds",
         [dict(depth=4, pre=1, clocks="same", ready="fast"), dict(depth=20, pre=0, clocks="slow", ready="half"), dict(depth=8, pre=1, clocks="fast", ready="rare"),
          dict(depth=24, pre=2, clocks="close", ready="rare"), dict(depth=3, pre=1, clocks="slow", ready="fast"),
          dict(depth=5, pre=1, clocks="slow", ready="fast", doms=("cap", "out")), dict(depth=18, pre=1, clocks="fast", ready="half", doms=("cap", "sync"))])
def stream_crossing(m, depth, pre, clocks, ready, widths=(3, 2), doms=("sync", "out")):
    StreamILA = import_with_stubs("amlib.debug.ila").StreamILA
    probes = _sigs(widths)
    i_dom, o_dom = doms
    d = StreamILA(**given(ILA, signals=probes, sample_depth=depth, samples_pretrigger=pre, domain=i_dom, o_domain=o_dom))
    from amaranth import Module

    class Top:
        def elaborate(self, platform):
            from amaranth import ClockDomain
            m = Module()
            for n in set(doms) - {"sync"}:
                m.domains += ClockDomain(n)
            m.submodules.d = d
            return m
    h = m.elab(Top())
    W = sum(widths)
    C = 8
    past = []
    K = 60 + 34 * depth
    ticks = _ticks(clocks, 2 * K)
    step = [0]
    for rnd in range(2):
        pat = iter(_ready(ready, K, m, str(rnd)) + [O1] * K)
        n = const(0, C)
        phase = -pre - 4                                    # sync cycles since the trigger
        trig = None
        for k in range(K):
            tk = ticks[step[0]]
            step[0] += 1
            v = h.get(d.stream.valid)
            r = next(pat) if "out" in tk else Z1
            if "out" in tk:
                want = [t.zext(x, d.bits_per_sample) for x in past[trig - pre:trig - pre + depth]] if trig is not None else []
                if len(want) < depth:
                    m.check("silent before the capture is complete", lnot(v))
                else:
                    m.check("no more words than samples", implies(v, t.ult(n, const(depth, C))))
                    m.check("word offered is the next sample", implies(v, h.get(d.stream.payload).eq(t.select(want, n))))
                    m.check("first and last frame the capture", implies(v, land(iff(h.get(d.stream.first), n.eq(0)), iff(h.get(d.stream.last), n.eq(depth - 1)))))
                n = n + t.zext(land(v, r), C)
            h.set(d.stream.ready, r)
            if "sync" in tk:
                live = phase < depth + 2
                x = [m.input("p%d_%d_%d" % (rnd, i, k), w) if live else const(0, w) for i, w in enumerate(widths)]
                for s, y in zip(probes, x):
                    h.set(s, y)
                past.append(t.concat(*x))
                h.set(d.trigger, int(phase == 0))
                if phase == 0:
                    trig = len(past) - 1
                phase += 1
            if tk:
                h.tick({dict(sync=i_dom, out=o_dom)[x] for x in tk})
        m.check("every sample was sent", n.eq(depth))
    m.cover("end", O1)


@harness("C32", "a second capture taken while the samples of the first one still wait in the buffer between the clock domains: every sample value, four relations of the two clocks",
         [dict(depth=4, pre=1, clocks="same"), dict(depth=6, pre=0, clocks="slow"), dict(depth=3, pre=2, clocks="fast"), dict(depth=5, pre=1, clocks="close", doms=("cap", "sync"))])
def stream_backlog(m, depth, pre, clocks, widths=(3, 2), doms=("sync", "out")):
    from amaranth import Module, ClockDomain
    StreamILA = import_with_stubs("amlib.debug.ila").StreamILA
    probes = _sigs(widths)
    d = StreamILA(**given(ILA, signals=probes, sample_depth=depth, samples_pretrigger=pre, domain=doms[0], o_domain=doms[1]))

    class Top:
        def elaborate(self, platform):
            m = Module()
            for n in set(doms) - {"sync"}:
                m.domains += ClockDomain(n)
            m.submodules.d = d
            return m
    h = m.elab(Top())
    trigs = [pre + 4, pre + 4 + 3 * depth + pre + 14]
    past, want = [], []
    K = 40 * depth + 300
    cyc = outs = 0
    n = const(0, 8)
    for k, tk in enumerate(_ticks(clocks, K)):
        go = cyc > trigs[1] + 3 * depth + pre + 14        # both captures are in the buffer
        if "out" in tk:
            r = const(int(go and outs % 3 != 1), 1)
            h.set(d.stream.ready, r)
            v = h.get(d.stream.valid)
            if len(past) >= trigs[1] + depth and not want:
                want = [t.zext(x, d.bits_per_sample) for g in trigs for x in past[g - pre:g - pre + depth]]
            if go:
                m.check("no more words than samples", implies(v, t.ult(n, const(2 * depth, 8))))
                m.check("word offered is the next sample", implies(v, h.get(d.stream.payload).eq(t.select(want, n))))
                m.check("first and last frame the capture", implies(v, land(iff(h.get(d.stream.first), lor(n.eq(0), n.eq(depth))), iff(h.get(d.stream.last), lor(n.eq(depth - 1), n.eq(2 * depth - 1))))))
            n = n + t.zext(land(v, r), 8)
            outs += 1
        if "sync" in tk:
            x = [m.input("p%d_%d" % (i, cyc), w) if cyc < trigs[1] + depth + 2 else const(0, w) for i, w in enumerate(widths)]
            for s, y in zip(probes, x):
                h.set(s, y)
            past.append(t.concat(*x))
            h.set(d.trigger, int(cyc in trigs))
            cyc += 1
        if tk:
            h.tick({dict(sync=doms[0], out=doms[1])[x] for x in tk})
    m.check("every sample was sent", n.eq(2 * depth))
    m.cover("end", O1)


# ---------------------------------------------------------------- serial readout

def _capture(m, h, d, probes, widths, depth, pre, tag, each=lambda: None):
    """one capture with symbolic samples; returns the samples, a list of one term per probe each"""
    past = []
    for k in range(pre + 4 + depth + pre + 6):
        x = [m.input("p%d_%d%s" % (i, k, tag), w) for i, w in enumerate(widths)]
        for s, v in zip(probes, x):
            h.set(s, v)
        h.set(d.trigger, int(k == pre + 4))
        past.append(x)
        each()
        h.tick()
        if k > pre + 4 and k < pre + 4 + depth:
            m.check("capturing", h.get(d.capturing))
    m.check("complete", h.get(d.complete))
    return past[4:4 + depth]


class _Line:
    """receiver of 8N1 frames: any idle time between them, bits sampled in their middle"""
    def __init__(self, m, div):
        self.m, self.div = m, div
        self.busy = Z1
        self.time = const(0, 16)
        self.shift = const(0, 8)
        self.got = []

    def step(self, tx):
        """one cycle with the line at tx; got collects (strobe, octet)"""
        div = self.div
        start = land(lnot(self.busy), lnot(tx))
        mid = lambda b: land(self.busy, self.time.eq(div * b + div // 2))
        self.m.check("start bit is low throughout", implies(mid(0), lnot(tx)) if div > 1 else O1)
        for b in range(8):
            self.shift = ite(mid(b + 1), t.concat(t.extract(self.shift, 1, 7), tx), self.shift)
        stop = mid(9)
        self.m.check("stop bit is high", implies(stop, tx))
        self.got.append((stop, self.shift))
        self.time = ite(start, const(1, 16), self.time + 1)
        self.busy = ite(start, O1, land(self.busy, lnot(stop)))


@harness("C32", "samples over the asynchronous serial line and through the host side frontend that decodes them: every sample value, two captures; "
         "one to four octets per sample, one to three probes, divisors 2 to 5; names, values, order and time stamps as captured",
         [dict(depth=3, pre=1, div=2, widths=(3, 2)), dict(depth=3, pre=1, div=3, widths=(8, 1, 7)), dict(depth=2, pre=0, div=2, widths=(12,)),
          dict(depth=2, pre=2, div=2, widths=(20, 5)), dict(depth=2, pre=1, div=2, widths=(40, 3)), dict(depth=3, pre=1, div=2, widths=(-5, 2, -1)), dict(depth=4, pre=1, div=5, widths=(1,)), dict(depth=2, pre=1, div=2, widths=(17,), dom="fast"),
          dict(depth=2, pre=1, div=2, widths=(20, 21), rate=12345678.9), dict(depth=12, pre=1, div=2, widths=(2, 1), rate=33333.3), dict(depth=17, pre=3, div=4, widths=(5, 2), _weight=3)])
def async_serial(m, depth, pre, div, widths, dom="sync", rate=60e6):
    ila = import_with_stubs("amlib.debug.ila")
    probes = _sigs(widths)
    widths = tuple(abs(w) for w in widths)
    d = ila.AsyncSerialILA(**given(ILA, signals=probes, sample_depth=depth, divisor=div, samples_pretrigger=pre, domain=dom, sample_rate=rate))
    h = m.elab(d, dom)
    nb = d.bytes_per_sample
    m.check("rate and period", const(int(d.sample_rate == rate and abs(d.sample_period * rate - 1) < 1e-9), 1))
    m.check("octets of a sample", const(int(nb == (d.bits_per_sample + 7) // 8 and d.bits_per_sample >= sum(widths)), 1))
    total = depth * nb
    for rnd in range(2):
        line = _Line(m, div)
        want = _capture(m, h, d, probes, widths, depth, pre, "_%d" % rnd, lambda: line.step(h.get(d.tx)))
        for k in range(total * (10 * div + 4) + 4 * depth + 40):
            h.set(d.trigger, m.input("trs%d_%d" % (rnd, k)) if k < (depth - 3) * nb * 10 * div else 0)
            line.step(h.get(d.tx))
            h.tick()
        # the octets, by their place
        n = const(0, 8)
        octs = [const(0, 8)] * total
        for s, o in line.got:
            for i in range(total):
                octs[i] = ite(land(s, n.eq(i)), o, octs[i])
            n = n + t.zext(s, 8)
        m.check("as many octets as the samples take", n.eq(total))
        frontend(m, d, octs, want, widths, probes, "capture %d" % rnd)
    m.cover("end", O1)


def _connected(M, Port, params):
    """the frontend, connected to a stand-in for the serial port"""
    import sys
    from types import ModuleType
    old = sys.modules.get("serial")
    sys.modules["serial"] = ModuleType("serial")
    sys.modules["serial"].Serial = Port
    try:
        return M.AsyncSerialILAFrontend("/dev/ttyILA", 115200, ila=params, timeout=1)
    finally:
        sys.modules.pop("serial")
        if old is not None:
            sys.modules["serial"] = old


def frontend(m, d, octs, want, widths, probes, tag):
    """the host side makes the captured samples of the octets"""
    from symhdl.pysym import Calls, same, low
    C = Calls(m, "amlib.debug.ila", also=["amlib.utils.bits"])
    m.note("AsyncSerialILAFrontend._split_samples, _read_samples, ILAFrontend.refresh, _parse_samples, _parse_sample, enumerate_samples (amlib/debug/ila.py)")

    params = d
    if tag.endswith("1"):
        # the parameters may come from a file
        import os
        import tempfile
        ila = import_with_stubs("amlib.debug.ila")
        with tempfile.TemporaryDirectory() as tmp:
            ila.ILACoreParameters(d).pickle(os.path.join(tmp, "ila.P"))
            params = ila.ILACoreParameters.unpickle(os.path.join(tmp, "ila.P"))
        m.check("parameters from a file: the probes", const(int([(p.name, p.shape()) for p in params.signals] == [(p.name, p.shape()) for p in d.signals]), 1))
        for n in ("sample_width", "sample_depth", "sample_rate", "sample_period", "bits_per_sample", "bytes_per_sample"):
            m.check("parameters from a file: " + n, const(int(getattr(params, n) == getattr(d, n)), 1))

    class Port:
        def __init__(self, *a, **kw):
            assert (a, kw) == (("/dev/ttyILA", 115200), dict(timeout=1)), "the arguments are the port's"

        def reset_input_buffer(self):
            pass

        def read(self, n):
            return C.bytes(octs[:n])

    def run(M):
        f = _connected(M, Port, params)
        return list(f.enumerate_samples())

    def check(r):
        out = [("as many samples as captured", const(int(len(r) == len(want)), 1))]
        for i, ((ts, smp), w) in enumerate(zip(r, want)):
            out.append(("time stamp %d" % i, const(int(abs(ts - i * d.sample_period) < 1e-6 * d.sample_period), 1)))
            out.append(("names %d" % i, const(int(set(smp) == {p.name for p in probes}), 1)))
            for p, x in zip(probes, w):
                out.append(("sample %d of %s" % (i, p.name), same(smp[p.name].to_int(), x)))
                out.append(("width of %s" % p.name, const(int(len(smp[p.name]) == len(p)), 1)))
        return out
    C.call("frontend, " + tag, run, lambda r: [low(smp[p.name].to_int(), len(p)) for ts, smp in r for p in probes], check)
    for clock in (True, False):
        waveform(m, C, params, Port, d, want, probes, clock, tag)


def waveform(m, C, params, Port, d, want, probes, clock, tag):
    """the dump the frontend writes has every sample of every probe at its time, and the clock; the writer is a recorder"""
    import contextlib
    import io
    import os
    import tempfile
    from symhdl.pysym import same, low
    m.note("ILAFrontend.emit_vcd, _emit_gtkw, interactive_display (amlib/debug/ila.py)")

    class Recorder:
        def __init__(self, stream, timescale=None, **kw):
            self.unit = {"1 ns": 1e-9, "1ns": 1e-9, "1 ps": 1e-12, "1 us": 1e-6}[timescale]
            self.vars, self.log, self.stream = {}, [], stream

        def __enter__(self):
            self.live = True
            return self

        def __exit__(self, *a):
            self.live = False

        def register_var(self, scope, name, kind, size=None, init=None, **kw):
            assert name not in self.vars and not self.log
            self.vars[name] = (scope, size)
            return name

        def change(self, var, time, value):
            assert self.live and var in self.vars
            assert not self.log or self.log[-1][1] <= time, "time runs backwards"
            self.log.append((var, time, value))

        def close(self):
            self.live = False

    def run(M):
        f = _connected(M, Port, params)
        made = []

        def writer(*a, **kw):
            made.append(Recorder(*a, **kw))
            return made[-1]
        old, M.VCDWriter = M.VCDWriter, writer
        shown = None
        try:
            with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
                name = os.path.join(tmp, "w.gtkw")
                f.emit_vcd(os.path.join(tmp, "w.vcd"), gtkw_filename=name, **({} if clock else dict(add_clock=False)))
                with open(name) as g:
                    view = g.read().split("\n")
                f.emit_vcd("-", **({} if clock else dict(add_clock=False)))
                shown = display(f, tmp)
                assert made[1].stream is M.sys.stdout, "the dump named - goes to the standard output"
                assert made[0].stream is not M.sys.stdout and made[0].stream.name == os.path.join(tmp, "w.vcd"), "a named dump goes to that file"
        finally:
            M.VCDWriter = old
        r, again, third = made
        assert [x[:2] for x in r.log] == [x[:2] for x in third.log] and list(r.vars) == list(third.vars), "the display shows the same dump"
        assert shown == view_of(view), "and the same view"
        assert [x[:2] for x in r.log] == [x[:2] for x in again.log]
        return r, view

    def view_of(lines):
        return [x for x in lines if x.startswith("ila.")]

    def display(f, tmp):
        """the view given to the waveform viewer, a recorder in its stead"""
        import subprocess
        seen = []

        def viewer(args, *a, **kw):
            # the files are there while the viewer runs
            with open(args[args.index("-a") + 1]) as g:
                seen.append(view_of(g.read().split("\n")))
            assert args[0] == "gtkwave" and os.path.exists(args[args.index("-f") + 1])
        was = {n: getattr(subprocess, n) for n in ("run", "call", "check_call", "Popen")}
        there, tempfile.tempdir = tempfile.tempdir, tmp
        before = set(os.listdir(tmp))
        try:
            for n in was:
                setattr(subprocess, n, viewer)
            f.interactive_display(**({} if clock else dict(add_clock=False)))
        finally:
            for n in was:
                setattr(subprocess, n, was[n])
            tempfile.tempdir = there
        assert len(seen) == 1 and set(os.listdir(tmp)) == before, "one display, nothing left behind"
        return seen[0]

    def changes(r, name):
        return [(ts * r.unit, v) for n, ts, v in r.log if n == name]

    def check(rv):
        r, view = rv
        names = {p.name: p for p in probes}
        extra = [n for n in r.vars if n not in names]
        out = [("one variable per probe", const(int(all(n in r.vars and r.vars[n][1] == len(p) for n, p in names.items())), 1)),
               ("and the clock", const(int(len(extra) == int(clock)), 1))]
        per = d.sample_period
        tol = 1.01e-9 + 0.02 * per                # the times of the dump are whole nanoseconds
        near = lambda a, b: const(int(abs(a - b) < tol), 1)
        for j, p in enumerate(probes):
            got = changes(r, p.name)
            out.append(("%s changes at samples only" % p.name, const(int(all(any(abs(ts - i * per) < tol for i in range(len(want))) for ts, v in got)), 1)))
            for i, w in enumerate(want):
                now = [v for ts, v in got if ts < i * per + tol]
                out.append(("value of %s at the time of sample %d" % (p.name, i), same(now[-1], w[j]) if now else Z1))
        for n in extra:
            got = changes(r, n)
            out.append(("clock runs to the last sample", const(int(2 * (len(want) - 1) <= len(got) <= 2 * len(want)), 1)))
            for k, (ts, v) in enumerate(got):
                out.append(("clock edge %d" % k, near(ts, k * per / 2)))
                out.append(("clock level %d" % k, const(int(v == 1 - k % 2), 1)))
        lines = [x for x in view if x in ["ila." + n for n in names]]
        out.append(("the view lists the probes in order", const(int(lines == ["ila." + p.name for p in probes]), 1)))
        out.append(("and the clock when the dump has one, and nothing else", const(int(set(view_of(view)) == {"ila." + n for n in r.vars}), 1)))
        return out
    C.call("waveform file, " + tag, run, lambda rv: [], check)


@harness("C32", "samples over SPI: every sample value, every mode and both chip select polarities, half periods of 4 and more cycles; a readout broken off after any listed number of "
         "bits begins again with the first sample; one and two 32 bit words per sample",
         [dict(depth=3, pre=1, widths=(3, 2), pol=p, ph=f, hp=hp, plan=(96, 33, 64)) for p, f, hp in ((0, 1, 4), (1, 0, 4), (0, 0, 5), (1, 1, 4))] +
         [dict(depth=4, pre=0, widths=(32,), pol=0, ph=1, hp=4, plan=(0, 5, 128)), dict(depth=2, pre=2, widths=(30, 3), pol=1, ph=0, hp=4, plan=(128, 64)),
          dict(depth=3, pre=1, widths=(12,), pol=0, ph=1, hp=4, plan=(40, 96), csn=True), dict(depth=2, pre=1, widths=(9,), pol=1, ph=0, hp=6, plan=(64,), dom="fast"),
          dict(depth=2, pre=1, widths=(64, 9), pol=0, ph=1, hp=4, plan=(130, 256))])
def sync_serial(m, depth, pre, widths, pol, ph, hp, plan, csn=False, dom="sync"):
    ila = import_with_stubs("amlib.debug.ila")
    probes = _sigs(widths)
    d = ila.SyncSerialILA(**given(SILA, signals=probes, sample_depth=depth, samples_pretrigger=pre, clock_polarity=pol, clock_phase=ph, cs_idles_high=csn, domain=dom))
    h = m.elab(d, dom)
    B = 32
    while B < sum(widths):
        B *= 2
    m.check("samples are sent in 32 bit chunks", const(int(d.bits_per_sample == B and d.bytes_per_sample == B // 8), 1))
    h.set(d.spi.cs, int(csn)); h.set(d.spi.sck, pol)
    for rnd in range(2):
        want = _capture(m, h, d, probes, widths, depth, pre, "_%d" % rnd)
        word = [t.zext(t.concat(*x), B) if sum(widths) < B else t.concat(*x) for x in want]
        stream = [w[B - 1 - i] for w in word for i in range(B)]

        def hold(n):
            for _ in range(n):
                h.tick()
        for s in probes:
            h.set(s, m.input("z%d%s" % (rnd, s.name), len(s)))
        for nbits in plan:
            hold(6)
            h.set(d.spi.cs, int(not csn))
            hold(6)
            for b in range(nbits):
                if ph == 0:
                    hold(hp)
                    m.check("bit %d of the readout" % b, h.get(d.spi.sdo).eq(stream[b]))
                    h.set(d.spi.sck, 1 - pol)
                    hold(hp)
                    h.set(d.spi.sck, pol)
                else:
                    h.set(d.spi.sck, 1 - pol)
                    hold(hp)
                    m.check("bit %d of the readout" % b, h.get(d.spi.sdo).eq(stream[b]))
                    h.set(d.spi.sck, pol)
                    hold(hp)
            hold(hp)
            h.set(d.spi.cs, int(csn))
        hold(6)
    m.cover("end", O1)
