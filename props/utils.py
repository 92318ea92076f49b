"""Small gateware helpers: C37 timer, C38 shift registers, C39 edges, C40 clock crossing helpers, C41 counters, dividers, NRZI and
multiplexer, C42 LFSR."""
from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, CROSSING, TIMER
from props.defaults import given as defaults_out
from props.stream import _Top

Z1 = const(0, 1)
O1 = const(1, 1)


# ---------------------------------------------------------------- timer

@harness("C37", "counter widths 2 to 5, every load and reload value, every pattern of start; cycles for several periods of the longest reload at the "
         "narrow widths; done is high exactly in the cycles the values ask for",
         [dict(w=2, K=14), dict(w=3, K=22), dict(w=4, K=24), dict(w=3, K=22, restart=False), dict(w=8, K=14), dict(w=32, K=9), dict(w=5, K=70), dict(w=4, K=60, restart=False, _tier="thorough")])
def timer(m, w, K, restart=True):
    from amlib.utils.timer import Timer
    d = Timer(**given(TIMER, width=w, allow_restart=restart))
    h = m.elab(d)
    load, rel = m.input("load", w), m.input("reload", w)
    first = ite(load.eq(0), rel, load)
    h.set(d.load_in, load); h.set(d.reload_in, rel)
    # left is the number of cycles to the next done, when counting
    idle, since, count, left, done = O1, const(0, 2), Z1, const(0, w + 1), Z1
    for k in range(K):
        m.check("done", iff(h.get(d.done), done))
        st = m.input("start%d" % k)
        h.set(d.start, st)
        # the values are taken over while idle; the first cycle of idling is for that
        go = land(idle, st, lnot(since.eq(0)), lnot(first.eq(0)))
        h.tick()
        left2 = ite(go, t.zext(first, w + 1), ite(done, t.zext(rel, w + 1), left)) - 1
        stay = land(done, rel.eq(0))
        run = lor(go, count, land(done, lnot(rel.eq(0))))
        ndone = land(run, left2.eq(0)) if restart else lor(land(run, left2.eq(0)), stay)
        nidle = lor(land(idle, lnot(go)), stay if restart else Z1)
        since = ite(nidle, ite(idle, const(1, 2), const(0, 2)), const(0, 2))
        idle, done, count, left = nidle, ndone, land(run, lnot(left2.eq(0))), left2
    m.cover("done twice", done)


@harness("C37", "load and reload changing arbitrarily from cycle to cycle, every pattern of start: an idle timer takes the values of the cycle before the start, "
         "a periodic one the reload value of the cycle done is high in; 2 to 32 bits",
         [dict(w=2, K=12), dict(w=3, K=14), dict(w=3, K=14, restart=False), dict(w=5, K=12), dict(w=32, K=8), dict(w=4, K=24, _tier="thorough")])
def timer_changing(m, w, K, restart=True):
    from amlib.utils.timer import Timer
    d = Timer(**given(TIMER, width=w, allow_restart=restart))
    h = m.elab(d)
    zero = const(0, w)
    idle, running, done, left = O1, Z1, Z1, zero      # left: cycles to the next done; while idle the value a start would count from
    for k in range(K):
        m.check("done", iff(h.get(d.done), done))
        st, load, rel = m.input("start%d" % k), m.input("load%d" % k, w), m.input("reload%d" % k, w)
        h.set(d.start, st); h.set(d.load_in, load); h.set(d.reload_in, rel)
        go = land(idle, st, left.ne(0))
        again = land(done, rel.ne(0))
        stay = land(done, rel.eq(0), Z1 if restart else O1)
        h.tick()
        n = ite(again, rel, left)
        hit = lor(land(lor(go, running), left.eq(1)), land(again, rel.eq(1)), stay)
        run = land(lor(go, running, again), lnot(hit))
        back = land(done, lnot(again), lnot(stay))
        left = ite(land(idle, lnot(go)), ite(load.ne(0), load, rel), ite(back, zero, n - 1))
        idle, running, done = lor(land(idle, lnot(go)), back), run, hit
    m.cover("done", done)


@harness("C37", "timers with a given load or reload value, every pattern of start",
         [dict(w=8, load=3, reload=None), dict(w=8, load=None, reload=2), dict(w=8, load=1, reload=1), dict(w=8, load=5, reload=3), dict(w=32, load=2, reload=4)])
def timer_const(m, w, load, reload, K=24):
    from amlib.utils.timer import Timer
    kw = {}
    if load is not None:
        kw["load"] = load
    if reload is not None:
        kw["reload"] = reload
    d = Timer(**given(TIMER, width=w, **kw))
    h = m.elab(d)
    if load is None:
        h.set(d.load_in, 0)
    if reload is None:
        h.set(d.reload_in, 0)
    first, rel = load or reload, reload or 0
    idle, loaded, left, done = O1, Z1, const(0, 8), Z1
    for k in range(K):
        m.check("done", iff(h.get(d.done), done))
        st = m.input("start%d" % k)
        h.set(d.start, st)
        h.tick()
        go = land(idle, loaded, st)
        l = ite(go, const(first - 1, 8), ite(done, const((rel - 1) & 255, 8), left - 1))
        run = lor(go, lnot(lor(idle, done)), done if rel else Z1)
        nidle = lor(land(idle, lnot(go)), Z1 if rel else done)
        loaded = land(idle, nidle)
        idle, done, left = nidle, land(run, l.eq(0)), l
    m.cover("done", done)


# ---------------------------------------------------------------- shift registers

@harness("C38", "depths 1 to 24, every bit, enable, clear and write pattern; from reset and from every value of the register",
         [dict(depth=d) for d in (1, 2, 8, 24)])
def shift_registers(m, depth, K=12):
    from amlib.utils.shiftregister import InputShiftRegister, OutputShiftRegister
    d = InputShiftRegister(depth)
    h = m.elab(d)
    v = const(0, depth)
    for k in range(K):
        m.check("value of the input register", h.get(d.value_out).eq(v))
        if k == K // 2:
            v = m.input("any", depth)
            h.poke(d.value_out, v)
        b, e, c = m.input("b%d" % k), m.input("e%d" % k), m.input("c%d" % k)
        h.set(d.bit_in, b); h.set(d.enable_in, e); h.set(d.clear_in, c)
        h.tick()
        v = ite(c, const(0, depth), ite(e, t.concat(b, t.extract(v, 0, depth - 1)) if depth > 1 else b, v))
    m.cover("end", O1)
    for rot in (False, True):
        d = OutputShiftRegister(depth, **given(dict(rotate=False), rotate=rot))
        h = m.elab(d)
        v = const(0, depth)
        for k in range(K + depth):
            m.check("bit of the output register", h.get(d.bit_out).eq(v[0]))
            x, e, c = m.input("x%d%d" % (rot, k), depth), m.input("oe%d%d" % (rot, k)), m.input("we%d%d" % (rot, k)) if k < 3 or k % 5 == 0 else Z1
            h.set(d.value_in, x); h.set(d.enable_in, e); h.set(d.we_in, c)
            h.tick()
            v = ite(c, x, ite(e, t.concat(t.extract(v, 1, depth - 1), v[0] if rot else Z1) if depth > 1 else (v if rot else Z1), v))


# ---------------------------------------------------------------- edges

@harness("C39", "every sequence of values over 8 cycles; the detectors in the default and in another clock domain, of 1 to 70 bit signals with and without sign",
         [dict(w=1), dict(w=6), dict(w=1, dom="fast"), dict(w=3, dom="fast"), dict(w=40), dict(w=33, dom="fast"), dict(w=5, sg=True), dict(w=1, sg=True), dict(w=70, sg=True)])
def edges(m, w, dom="sync", sg=False):
    from amaranth import Signal, Module, ClockDomain, signed
    from amlib.utils import rising_edge_detected, falling_edge_detected, any_edge_detected, past_value_of, EdgeToPulse
    s = Signal(signed(w) if sg else w)
    b = Signal()
    far = Signal(signed(w + 4))
    outs = {}

    class Top:
        def elaborate(self, platform):
            m = Module()
            if dom != "sync":
                m.domains += ClockDomain(dom)
            m.d.sync += Signal().eq(1)
            outs["rise"] = rising_edge_detected(m, b, domain=dom)
            outs["fall"] = falling_edge_detected(m, b, domain=dom)
            outs["any"] = any_edge_detected(m, s, domain=dom)
            outs["past"] = past_value_of(m, s, domain=dom)
            # the past value is a number of the same sign
            m.d.comb += far.eq(outs["past"])
            m.submodules.e = e = EdgeToPulse()
            outs["in"], outs["pulse"] = e.edge_in, e.pulse_out
            return m
    h = m.elab(Top())
    ps, pb, pe = const(0, w), Z1, Z1
    for k in range(8):
        x, y, z = m.input("s%d" % k, w), m.input("b%d" % k), m.input("e%d" % k)
        h.set(s, x); h.set(b, y); h.set(outs["in"], z)
        m.check("rising edge", iff(h.get(outs["rise"]), land(y, lnot(pb))))
        m.check("falling edge", iff(h.get(outs["fall"]), land(pb, lnot(y))))
        m.check("any edge", iff(h.get(outs["any"]), lnot(x.eq(ps))))
        m.check("past value", h.get(outs["past"]).eq(ps))
        m.check("past number", h.get(far).eq((t.sext if sg else t.zext)(ps, w + 4)))
        m.check("one pulse per rising edge", iff(h.get(outs["pulse"]), land(z, lnot(pe))))
        if dom != "sync" and k % 3 == 1:
            # an edge of the other clock alone leaves the detectors of this domain as they are
            h.tick({"sync"})
            pe = z
        else:
            h.tick()
            ps, pb, pe = x, y, z
    m.cover("end", O1)


# ---------------------------------------------------------------- clock crossing helpers

@harness("C40", "every strobe pattern over several lengths of the stretched strobe; 1 to 9 cycles, immediate and delayed, in two clock domains",
         [dict(n=n, delay=dl) for n in (1, 2, 3, 5, 9) for dl in (False, True)] + [dict(n=4, delay=False, dom="fast", out=True), dict(n=16, delay=False), dict(n=17, delay=True), dict(n=8, delay=False), dict(n=300, delay=False, _plan=dict(s="0*7,1,0*430")), dict(n=300, delay=True, _plan=dict(s="0*7,1,0*200,1,0*300")), dict(n=33, delay=True, _tier="thorough")])
def stretch(m, n, delay, dom="sync", out=False):
    from amaranth import Signal, Module, ClockDomain
    from amlib.utils import stretch_strobe_signal
    s, o = Signal(), Signal()
    got = {}

    class Top:
        def elaborate(self, platform):
            m = Module()
            if dom != "sync":
                m.domains += ClockDomain(dom)
            m.d.sync += Signal().eq(1)
            kw = dict(output=o) if out else {}
            if dom != "sync":
                kw["domain"] = m.d[dom]
            got["o"] = stretch_strobe_signal(m, s, to_cycles=n, allow_delay=delay, **kw)
            return m
    h = m.elab(Top())
    m.check("the output given is used", const(int(got["o"] is o or not out), 1))
    past = []
    for k in range(3 * n + 4):
        x = m.input("s%d" % k)
        h.set(s, x)
        past.append(x)
        late = int(delay and n > 1)
        m.check("high for the cycles after a strobe, and only then", iff(h.get(got["o"]), lor(Z1, *past[max(0, len(past) - n - late):len(past) - late])))
        if dom != "sync" and k % 3 == 1:
            h.tick({"sync"})
            past.pop()
        else:
            h.tick()
    m.cover("end", O1)


@harness("C40", "every sequence of values of signals and of records with inputs, outputs and nested records; 2 to 7 stages, of signed and"
         " unsigned signals and of objects that synchronise themselves; every value appears that "
         "many cycles later and outputs pass the other way",
         [dict(stages=2), dict(stages=3), dict(stages=4, dom="fast"), dict(stages=2, given=True), dict(stages=5), dict(stages=7, given=True), dict(stages=6, dom="fast")])
def crossing(m, stages, dom="sync", given=False):
    from amaranth import Signal, Module, ClockDomain, Record
    from amaranth.hdl.rec import DIR_FANIN, DIR_FANOUT
    from amlib.utils import synchronize
    from amaranth import signed
    s = Signal(5, reset=9)
    sg, wide = Signal(signed(4)), Signal(signed(9))
    layout = [("a", 3, DIR_FANIN), ("b", 4, DIR_FANOUT), ("n", [("x", 2, DIR_FANIN), ("y", 1, DIR_FANOUT)])]
    r = Record(layout, name="src")
    given_s, given_r = Signal(5), Record(layout, name="dst")
    called = []

    class Own(Record):
        def _synchronize_(self, m, output, o_domain="sync", stages=2):
            called.append((output, o_domain, stages))
    own, given_own = Own([("q", 3)], name="own"), Record([("q", 3)], name="own_out")
    out = {}

    class Top:
        def elaborate(self, platform):
            m = Module()
            if dom != "sync":
                m.domains += ClockDomain(dom)
            m.d.sync += Signal().eq(1)
            args = defaults_out(CROSSING, o_domain=dom, stages=stages)
            out["s"] = synchronize(m, s, **args, **(dict(output=given_s) if given else {}))
            out["r"] = synchronize(m, r, **args, **(dict(output=given_r) if given else {}))
            out["sg"] = synchronize(m, sg, **args)
            m.d.comb += wide.eq(out["sg"])
            out["own"] = synchronize(m, own, output=given_own, **args)
            return m
    h = m.elab(Top())
    if given:
        m.check("the outputs given are used", const(int(out["s"] is given_s and out["r"] is given_r), 1))
    m.check("an object that synchronises itself is asked to, into the output, domain and stages given", const(int(
        out["own"] is given_own and called == [(given_own, dom, stages)]), 1))
    ins = [(s, out["s"], 5), (r.a, out["r"].a, 3), (r.n.x, out["r"].n.x, 2), (sg, wide, 4)]
    outs = [(r.b, out["r"].b, 4), (r.n.y, out["r"].n.y, 1)]
    hist = {i: [] for i in range(len(ins))}
    for k in range(stages + 6):
        for i, (src, dst, w) in enumerate(ins):
            x = m.input("i%d_%d" % (i, k), w)
            h.set(src, x)
            # before the first value is through, anything
            if len(hist[i]) >= stages:
                want = hist[i][-stages]
                if dst is wide:
                    want = t.concat(want, *[want[3]] * 5)
                m.check("value comes through after the stages", h.get(dst).eq(want))
            hist[i].append(x)
        for i, (src, dst, w) in enumerate(outs):
            x = m.input("o%d_%d" % (i, k), w)
            h.set(dst, x)
            m.check("outputs pass the other way at once", h.get(src).eq(x))
        if dom != "sync" and k % 4 == 2:
            h.tick({"sync"})
            for v in hist.values():
                v.pop()
        else:
            h.tick()
    m.cover("end", O1)


# ---------------------------------------------------------------- counters, dividers, NRZI, multiplexer

@harness("C41", "dividing counter, divisors 1 to 100, counter widths 2 to 8, every pattern of active and reset, past the wrap of the narrow counters",
         [dict(div=3, w=3, K=22), dict(div=2, w=2, K=18), dict(div=5, w=3, K=20), dict(div=1, w=3, K=12), dict(div=4, w=4, K=24), dict(div=6, w=5, K=40, _tier="thorough"),
          dict(div=10, w=8, K=620, _plan=dict(a="1*40,0,1*9", r="0*520,1,0*40")), dict(div=8, w=6, K=200, _plan=dict(a="~1:80:97", r="0*150,1")),
          dict(div=3, w=2, K=16), dict(div=7, w=3, K=22)] + [dict(div=v, w=n, K=(5 << n) // 2 + 20, _plan=dict(a="~%d:85:97" % v, r="0*%d,1" % (10 << n - 2))) for v, n in
          ((3, 4), (5, 4), (15, 4), (17, 4), (2, 4), (3, 6), (9, 6), (21, 6), (10, 6), (63, 6), (64, 6), (100, 7))])
def dividing_counter(m, div, w, K):
    from amlib.utils.dividingcounter import DividingCounter
    d = DividingCounter(div, w)
    h = m.elab(d)
    c, q, p = const(0, w), const(0, w), const(0, 8)
    flag, known, seen, wrapped = Z1, O1, Z1, Z1
    for k in range(K):
        m.check("count", h.get(d.counter_out).eq(c))
        m.check("divided count", h.get(d.divided_counter_out).eq(q))
        m.check("dividable", implies(known, iff(h.get(d.dividable_out), flag)))
        a, r = m.input("a%d" % k), m.input("r%d" % k)
        h.set(d.active_in, a); h.set(d.reset_in, r)
        h.tick()
        hit, wrap = p.eq(div - 1), c.eq(2 ** w - 1)
        known = lor(land(a, lnot(r)), land(known, lnot(r)))           # a reset leaves the flag as it was
        flag = ite(land(a, lnot(r)), hit, flag)
        wrapped = lor(wrapped, land(a, wrap, lnot(r)))
        seen = lor(seen, land(wrapped, flag))
        p = ite(r, const(0, 8), ite(a, ite(lor(hit, wrap), const(0, 8), p + 1), p))
        q = ite(r, const(0, w), ite(land(a, hit), q + 1, q))
        c = ite(r, const(0, w), ite(a, c + 1, c))
    m.cover("wrapped and reached a multiple", seen if div <= 2 ** w else O1)


@harness("C41", "clock divider, divisors 2 to 12, both polarities, every pattern of the clock enable: half periods of exactly half the divisor, "
         "rest level at the polarity, never a shorter phase",
         [dict(div=d, pol=p) for d, p in ((2, 0), (4, 0), (4, 1), (6, 1), (12, 0), (16, 1), (34, 0))] + [dict(div=v, pol=p, _plan=dict(e="1*%d,0*%d,1" % (3 * v // 2 + 5, v // 3))) for v, p in ((100, 0), (130, 1), (258, 0), (600, 1))])
def clock_divider(m, div, pol):
    from amlib.utils.clockdivider import SimpleClockDivider
    d = SimpleClockDivider(div, pol)
    h = m.elab(d)
    half = div // 2
    out = const(pol, 1)
    for k in range(5 * half + 6):
        m.check("divided clock", h.get(d.clock_out).eq(out))
        e = m.input("e%d" % k)
        h.set(d.clock_enable_in, e)
        h.tick()
        if k % half == half - 1:
            out = ite(e, lnot(out), const(pol, 1))
    m.cover("end", O1)


@harness("C41", "NRZI encoder, every sequence of 10 bits from both levels: a one toggles the line, a zero leaves it", [{}])
def nrzi(m):
    from amlib.utils.nrziencoder import NRZIEncoder
    d = NRZIEncoder()
    h = m.elab(d)
    lvl = Z1
    for k in range(10):
        m.check("line", h.get(d.nrzi_out).eq(lvl))
        if k == 5:
            lvl = m.input("level")
            h.poke(d.nrzi_out, lvl)
        b = m.input("b%d" % k)
        h.set(d.data_in, b)
        h.tick()
        lvl = lvl ^ b
    m.cover("end", O1)


@harness("C41", "one hot multiplexer of 1 to 17 interfaces, every value on all of them; the interface that is valid (at most one is) is seen at the "
         "output, and what is passed back reaches all",
         [dict(n=n) for n in (1, 2, 3, 5, 8, 11, 17)])
def multiplexer(m, n):
    from amaranth import Record
    from amlib.utils import OneHotMultiplexer
    mk = lambda: Record([("valid", 1), ("payload", 8), ("kind", 3), ("stb", 2), ("ready", 1)])
    d = OneHotMultiplexer(interface_type=mk, valid_field="valid", mux_signals=("payload", lambda i: i.kind), or_signals=("valid", "stb"), pass_signals=("ready",))
    ifs = [mk() for _ in range(n)]
    d.add_interface(ifs[0])
    if n > 1:
        d.add_input(ifs[1])
    d.add_interfaces(ifs[2:])
    h = m.elab(d)
    vs = []
    orv = const(0, 2)
    for i, f in enumerate(ifs):
        v = m.input("v%d" % i)
        for o in vs:
            m.assume(lnot(land(v, o)))
        vs.append(v)
        h.set(f.valid, v)
        for s, w in (("payload", 8), ("kind", 3)):
            h.set(f[s], m.input("%s%d" % (s, i), w))
        stb = ite(v, m.input("stb%d" % i, 2), const(0, 2))
        h.set(f.stb, stb)
        orv = orv | stb
    r = m.input("ready")
    h.set(d.output.ready, r)
    m.check("valid when one is", iff(h.get(d.output.valid), lor(Z1, *vs)))
    m.check("joined signals", h.get(d.output.stb).eq(orv))
    for i, f in enumerate(ifs):
        m.check("the valid one is selected", implies(vs[i], land(h.get(d.output.payload).eq(h.get(f.payload)), h.get(d.output.kind).eq(h.get(f.kind)))))
        m.check("passed back", h.get(f.ready).eq(r))
    m.cover("last one", vs[-1])


# ---------------------------------------------------------------- LFSR

@harness("C42", "degrees 3 to 32, listed polynomials: the step from every register value; never to zero from a nonzero one and no two values to the "
         "same one, so that every sequence is a cycle; the model in software takes the same steps",
         [dict(n=3, taps=[3, 2]), dict(n=5, taps=[5, 3]), dict(n=8, taps=[8, 6, 5, 4], reset=0x5a), dict(n=16, taps=[16, 15, 13, 4], reset=1), dict(n=24, taps=[24, 23, 22, 17], reset=77),
          dict(n=32, taps=[32, 22, 2, 1], reset=0xdeadbeef),
          dict(n=4, taps=[4, 3, 1], maximal=False), dict(n=9, taps=[9, 1, 2], reset=5, maximal=False), dict(n=4, taps=[4], reset=9, maximal=False),
          dict(n=12, taps=(12, 6, 4, 1), reset=0xfff), dict(n=20, taps=[17, 20], reset=0x80001)])
def lfsr(m, n, taps, reset=1, maximal=True):
    import itertools
    from amlib.utils import LinearFeedbackShiftRegister
    d = LinearFeedbackShiftRegister(n, taps, **given(dict(reset=1), reset=reset))
    h = m.elab(d)
    for k, v in enumerate(itertools.islice(d.generate(), 40)):
        m.check("register follows the software model", h.get(d.value).eq(v))
        h.tick()
    if n <= 16 and maximal:
        seq = list(itertools.islice(d.generate(), 2 ** n + 1))
        m.check("the cycle is maximal and generated once", const(int(len(seq) == len(set(seq)) == 2 ** n - 1), 1))

    def step(v):
        fb = Z1
        for p in taps:
            fb = fb ^ v[p - 1]
        return t.concat(fb, t.extract(v, 0, n - 1))
    nexts = []
    for i in range(2):
        v = m.input("v%d" % i, n)
        h.poke(d.value, v)
        h.tick()
        r = h.get(d.value)
        m.check("step from any value", r.eq(step(v)))
        m.check("a nonzero value stays nonzero", implies(lnot(v.eq(0)), lnot(r.eq(0))))
        nexts.append((v, r))
    (a, x), (b, y) = nexts
    m.check("different values stay different", implies(lnot(a.eq(b)), lnot(x.eq(y))))
    m.cover("end", O1)
