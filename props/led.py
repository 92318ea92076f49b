from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, LEDS, SEG
from props.i2s import _quiet

Z1 = const(0, 1)
O1 = const(1, 1)


# ---------------------------------------------------------------- MAX7219

_SEQ = [[0x0f, 0], [0x09, 0], [0x0a, 0xf], [0x0b, 7], [0x0c, 1]]


@harness("C13", "MAX7219 chain from reset: the initialisation and then two or more refresh rounds, digits symbolic and replaced "
         "by other symbolic digits in the middle of a round; the far end is a model of the chip (shifts on the rising clock edge, "
         "latches when chip select is released); anytime: replaced at any of 256 symbolic cycles spanning a frame of the refresh and the gaps around it",
         [dict(mods=1, div=10, delay=20, rounds=2), dict(mods=2, div=12, delay=5, rounds=2), dict(mods=3, div=16, delay=1, rounds=1),
          dict(mods=1, div=10, delay=3, rounds=1, seq=9), dict(mods=1, div=20, delay=2, rounds=1, seq=1),
          dict(mods=1, div=10, delay=2, rounds=2, seq=1, anytime=True), dict(mods=2, div=10, delay=2, rounds=1, seq=2, resource=True), dict(mods=8, div=10, delay=2, rounds=1, seq=2), dict(mods=1, div=62, delay=2, rounds=1, seq=1),
          dict(mods=1, div=10, delay=66000, rounds=1, seq=1),
          dict(mods=1, div=10, delay=1050000, rounds=1, seq=1, _tier="thorough", _weight=4),
          dict(mods=4, div=10, delay=2, rounds=3, _tier="thorough")])
def max7219(m, mods, div, delay, rounds, seq=None, anytime=False, resource=False):
    from amlib.io.max7219 import SerialLEDArray
    init = _SEQ if seq is None else [[(i % 14) + 1, 0x11 * i & 0xff] for i in range(seq)]
    kw = {} if seq is None else dict(init_sequence=init)
    d = SerialLEDArray(**given(LEDS, divisor=div, init_delay=delay, no_modules=mods, **kw))
    if resource:
        from props.spi import _on_resource
        h, r = _on_resource(m, d)
    else:
        h = m.elab(d)
    n = 8 * mods
    sets = [[const(0, 8)] * n] + [[m.input("d%d_%d" % (r, i), 8) for i in range(n)] for r in range(2)]
    W = 16 * mods
    frame = W * div
    total = len(init) + 8 * rounds
    # digits are replaced at two points: during initialisation and about the middle of the first refresh round
    loads = {delay + 40: 1, delay + (len(init) + 3) * (frame + div) + frame // 2: 2}
    K = delay + 20 + total * (frame + 2 * div + 16)
    sr = const(0, W)                # the chain's shift register
    nb = const(0, 12)               # bits since chip select
    f = const(0, 8)                 # frames latched
    cur, old = const(0, 2), []
    base = min(loads, key=lambda k: -k)
    when = m.input("when", 8) if anytime else const(0, 8)
    noise = [const(0xEE, 8)] * n
    snap0 = snap1 = const(0, 2)     # digit set in force shortly before / when the frame started
    psel = psck = psdo = None
    for k in range(K):
        if anytime and base <= k < base + 256:
            now, new = when.eq(k - base), 2
        else:
            now, new = const(int(k in loads and not (anytime and k == base)), 1), loads.get(k, 0)
        for i in range(n):
            h.set(d.digits_in[i], ite(now, sets[new][i], noise[i]))
        h.set(d.valid_in, now)
        cur = ite(now, const(new, 2), cur)
        old.append(cur)
        if resource:
            sel, sck, sdo = h.get(r.cs), h.get(r.clk), h.get(r.copi)
        else:
            sel = lnot(h.get(d.spi_bus_out.cs))
            sck, sdo = h.get(d.spi_bus_out.sck), h.get(d.spi_bus_out.sdo)
        if psel is not None:
            begin, rise, latch = land(lnot(psel), sel), land(psel, sck, lnot(psck)), land(psel, lnot(sel))
            snap0 = ite(begin, old[max(0, k - 2 * div - 16)], snap0)
            snap1 = ite(begin, cur, snap1)
            nb = ite(begin, const(0, 12), ite(rise, nb + 1, nb))
            m.check("data stable at the sampling edge", implies(rise, sdo.eq(psdo)))
            sr = ite(rise, t.concat(sdo, sr[0:W - 1]) if W > 1 else sdo, sr)
            m.check("each frame has 16 bits per module", implies(latch, nb.eq(W)))
            dig = f - len(init)
            isinit = f.ult(len(init))
            for mod in range(mods):
                w = sr[16 * mod:16 * mod + 16]
                want = t.select([const(a << 8 | b, 16) for a, b in init], f)
                m.check("initialisation command for module %d" % mod, implies(land(latch, isinit), w.eq(want)))
                m.check("digit register for module %d" % mod, implies(land(latch, lnot(isinit)), w[8:16].eq(t.zext(dig[0:3], 8) + 1)))
                v = [t.select([sets[s][8 * mod + j] for j in range(8)], dig[0:3]) for s in range(3)]
                m.check("digit value of module %d" % mod, implies(land(latch, lnot(isinit)), lor(w[0:8].eq(t.select(v, snap0)), w[0:8].eq(t.select(v, snap1)))))
            f = ite(latch, f + 1, f)
        psel, psck, psdo = sel, sck, sdo
        h.tick()
    m.check("initialisation and refreshing make progress", f.uge(total))
    m.cover("end", O1)


# ---------------------------------------------------------------- seven segments, bar

# a b c d e f g, most significant first: which segments a reader expects for each hexadecimal digit
_GLYPH = {0: "abcdef", 1: "bc", 2: "abdeg", 3: "abcdg", 4: "bcfg", 5: "acdfg", 6: "acdefg", 7: "abc", 8: "abcdefg",
          9: "abcdfg", 10: "abcefg", 11: "cdefg", 12: "adef", 13: "bcdeg", 14: "adefg", 15: "aefg"}


def glyph(x):
    tab = [const(sum(1 << (6 - "abcdefg".index(s)) for s in _GLYPH[i]), 7) for i in range(16)]
    return t.select(tab, x)


@harness("C14", "hexadecimal seven segment decoders, widths 4 to 64, registered or not: every number and dot pattern; inputs held "
         "for two cycles", [dict(width=w, register=r) for w in (4, 8, 32, 64) for r in (False, True)] + [dict(width=12, register=False), dict(width=40, register=False)])
def seven_segment(m, width, register):
    from amlib.io.led import NumberToSevenSegmentHex, NibbleToSevenSegmentHex
    d = NumberToSevenSegmentHex(**given(SEG, width=width, register=register))
    h = m.elab(d)
    x, y = m.input("x", width), m.input("y", width)
    dots, dots2 = m.input("dots", width // 4), m.input("dots2", width // 4)
    for v, dt in ((x, dots), (y, dots2)):
        h.set(d.number_in, v)
        h.set(d.dots_in, dt)
        if register:
            h.tick(); h.tick()
        out = h.get(d.seven_segment_out)
        for i in range(width // 4):
            m.check("glyph of each digit", out[8 * i:8 * i + 7].eq(glyph(v[4 * i:4 * i + 4])))
            m.check("dot of each digit", out[8 * i + 7].eq(dt[i]))
        h.tick()
    if width == 4 and not register:
        n = NibbleToSevenSegmentHex()
        g = m.elab(n)
        a, b = m.input("a", 4), m.input("b", 4)
        g.set(n.nibble_in, a)
        ga = g.get(n.seven_segment_out)
        g.set(n.nibble_in, b)
        gb = g.get(n.seven_segment_out)
        m.check("different digits look different", implies(a.ne(b), ga.ne(gb)))
    m.cover("end", O1)


@harness("C14", "bar graph: every pair of values, several ranges and bar lengths",
         [dict(lo=0x10, hi=0x82, n=8), dict(lo=0, hi=256, n=8), dict(lo=3, hi=1000, n=16), dict(lo=1, hi=64, n=4), dict(lo=0, hi=7, n=5),
          dict(lo=100, hi=1 << 15, n=24), dict(lo=10, hi=100, n=3), dict(lo=17, hi=12345, n=10), dict(lo=0, hi=9, n=4),
          dict(lo=16, hi=33, n=6), dict(lo=5, hi=6 + 1024, n=12), dict(lo=0, hi=8, n=3), dict(lo=7, hi=64, n=32)])
def bitbar(m, lo, hi, n):
    from amlib.io.led import NumberToBitBar
    d = NumberToBitBar(lo, hi, n)
    h = m.elab(d)
    w = len(d.value_in)
    m.check("the maximum fits the input", const(int((1 << w) > hi), 1))
    outs = []
    vs = [m.input("a", w), m.input("b", w)]
    for v in vs:
        h.set(d.value_in, v)
        h.tick()
        outs.append(h.get(d.bitbar_out))
    o, v = outs[1], vs[1]
    W = 32
    V = t.zext(v, W)
    m.check("a bar: contiguous from the least significant bit", (o & (o + 1)).eq(0))
    m.check("empty at and below the minimum only", iff(o.eq(0), V.ule(const(lo, W))))
    m.check("full at and above the maximum only", iff(o.eq((1 << n) - 1), V.uge(const(hi, W))))
    m.check("monotone", implies(vs[0].ule(vs[1]), outs[0].ule(outs[1])))
    step = (hi - lo) // (n - 2)
    for L in range(1, n - 1):
        m.check("linear steps", implies(land(V.ugt(const(lo, W)), V.ult(const(hi, W))),
                                        iff(o.ugt((1 << L) - 1), V.uge(const(lo + step * L, W)))))
    m.cover("middle", land(V.ugt(const(lo, W)), V.ult(const(hi, W))))


# ---------------------------------------------------------------- WS2812

@harness("C15", "WS2812 chain from reset: symbolic colours for every LED written, one or two starts; every bit's high and low time "
         "within the data sheet tolerance (0: 400 ns, 1: 800 ns, both +-150 ns; bit 1.25 us +- 600 ns; reset at least 50 us); again: two frames, the "
         "LEDs recoloured between them, and a LED recoloured while the first is sent, with start asserted at any time inside the frames",
         [dict(f=4e6, n=4), dict(f=4e6, n=16), dict(f=8e6, n=3, again=True), dict(f=4e6, n=1, again=True), dict(f=100e6, n=1), dict(f=4e6, n=1), dict(f=8e6, n=3), dict(f=16e6, n=2), dict(f=48e6, n=1), dict(f=12e6, n=2, again=True), dict(f=60e6, n=2, _tier="thorough"),
          dict(f=20e6, n=5), dict(f=4e6, n=15), dict(f=4e6, n=31), dict(f=5.12e6, n=3, again=True), dict(f=6.25e6, n=1), dict(f=7.8e6, n=1), dict(f=4.7e6, n=2), dict(f=10.24e6, n=1), dict(f=4e6, n=63, _tier="thorough"), dict(f=81.92e6, n=1, _tier="thorough"), dict(f=100e6, n=2, _tier="thorough")])
def ws2812(m, f, n, again=False):
    from amlib.io.ws2812 import WS2812
    d = _quiet(lambda: WS2812(sys_clock_freq=f, no_leds=n))
    h = _quiet(lambda: m.elab(d))
    col = [[m.input("c%d%s" % (i, c), 8) for c in "rgb"] for i in range(n)]
    for i in range(n):
        m.check("idle low", lnot(h.get(d.data_out)))
        h.set(d.led_address_in, i)
        for sig, v, c in zip((d.red_in, d.green_in, d.blue_in), col[i], "rgb"):
            h.set(sig, m.input("before%s" % c, 8) if again and i == 0 else v)
        h.set(d.write_enable_in, 1)
        h.tick()
    h.set(d.write_enable_in, 0)
    us = f / 1e6
    for rnd in range(2 if again else 1):
        if rnd:
            # recolour one LED between the frames
            nc = [m.input("n%s" % c, 8) for c in "rgb"]
            col = live + [nc]
            h.set(d.led_address_in, n - 1)
            h.set(d.red_in, nc[0]); h.set(d.green_in, nc[1]); h.set(d.blue_in, nc[2])
            h.set(d.write_enable_in, 1)
            h.tick()
            h.set(d.write_enable_in, 0)
        bits = [b for r, g, b_ in col for c in (g, r, b_) for b in [c[7 - i] for i in range(8)]]
        N = len(bits)
        h.tick()
        h.set(d.start_in, 1)
        if again and not rnd:
            # the first LED gets its colour in the cycle of the start
            h.set(d.led_address_in, 0)
            h.set(d.red_in, col[0][0]); h.set(d.green_in, col[0][1]); h.set(d.blue_in, col[0][2])
            h.set(d.write_enable_in, 1)
        W = 16
        hi_ = const(0, W); lo_ = const(0, W)          # length of the present high / low phase
        first = O1
        idx = const(0, 12)
        dn = const(0, 4)
        prev = Z1
        lim = int(n * 24 * 1.9 * us + 2 * 56 * us) + 40
        T0 = (0.25 * us, 0.55 * us); T1 = (0.65 * us, 0.95 * us); TB = (0.65 * us, 1.85 * us)
        inr = lambda x, r: land(x.uge(const(int(-(-r[0] // 1)), W)), x.ule(const(int(r[1]), W)))
        import math
        # a LED that is recoloured while the frame is on its way shows its old or its new colour in this frame and the new one in the next
        x = n // 2
        live = list(col[:n - 1])
        mid = [m.input("x%s%d" % (c, rnd), 8) for c in "rgb"] if again and n > 1 else None
        ats = int(50 * us) + int((24 * x + 12) * 1.25 * us)
        later = bits
        if mid:
            if x < n - 1:
                live[x] = mid
            later = [b for r, g, b_ in col[:x] + [mid] + col[x + 1:] for c in (g, r, b_) for b in [c[7 - i] for i in range(8)]]
        isold, isnew = O1, O1
        for k in range(lim):
            o, done = h.get(d.data_out), h.get(d.done_out)
            rise, fall = land(lnot(prev), o), land(prev, lnot(o))
            m.check("reset low time before the first bit", implies(land(rise, idx.eq(0)), lo_.uge(math.ceil(50 * us))))
            m.check("no more bits than the LEDs need", implies(rise, idx.ult(N)))
            m.check("bit period", implies(land(rise, idx.ne(0)), inr(hi_ + lo_, TB)))
            b, c = t.select(bits + [Z1], idx), t.select(later + [Z1], idx)
            isold = land(isold, implies(fall, ite(b, inr(hi_, T1), inr(hi_, T0))))
            isnew = land(isnew, implies(fall, ite(c, inr(hi_, T1), inr(hi_, T0))))
            m.check("pulse width encodes the colour bit", lor(isold, isnew))
            m.check("done only after all bits and the closing reset", implies(done, land(idx.eq(N), lo_.uge(math.ceil(50 * us) - 1), lnot(o))))
            idx = ite(fall, idx + 1, idx)
            hi_, lo_ = ite(o, ite(rise, const(1, W), hi_ + 1), hi_), ite(o, lo_, ite(fall, const(1, W), lo_ + 1))
            dn = dn + t.zext(done, 4)
            prev = o
            h.tick()
            # starting again inside a frame has no effect
            h.set(d.start_in, m.input("s%d_%d" % (rnd, k)) if again and k < 50 * us + N * us and k % 3 == 0 else 0)
            h.set(d.write_enable_in, int(bool(mid) and k == ats))
            if mid:
                h.set(d.led_address_in, x)
                for sig, v in zip((d.red_in, d.green_in, d.blue_in), mid):
                    h.set(sig, v)
        m.check("done strobed once", dn.eq(1))
        m.check("all bits sent", idx.eq(N))
    m.cover("finished", idx.eq(N))


# ---------------------------------------------------------------- debouncer

@harness("C16", "debouncer from reset: concrete long press / release phases around symbolic bouncing of `win` cycles, once at the "
         "beginning of a press and once just before the state would change, pressed or released; a level held for fewer than 2^14 cycles never "
         "changes the state, one held for 2^16 always does", [dict(win=6, where="start"), dict(win=8, where="end"), dict(win=5, where="release"), dict(win=8, where="end of release"),
                                                                dict(win=10, where="end", _tier="thorough")])
def debouncer(m, win, where):
    from amlib.io.debouncer import Debouncer
    d = Debouncer()
    h = m.elab(d)
    SHORT, LONG = 1 << 14, 1 << 16
    prev = [None]
    pend = [None, None]
    ch = [const(0, 8)]

    def step(btn):
        # the button is active low
        h.set(d.btn_in, btn)
        s, dn, up = h.get(d.btn_state_out), h.get(d.btn_down_out), h.get(d.btn_up_out)
        if prev[0] is not None:
            m.check("down strobe exactly when the state goes to pressed", iff(pend[0], land(lnot(prev[0]), s)))
            m.check("up strobe exactly when the state goes to released", iff(pend[1], land(prev[0], lnot(s))))
            ch[0] = ch[0] + t.zext(prev[0] ^ s, 8)
        prev[0] = s
        pend[:] = [dn, up]
        h.tick()
        return s

    def hold(btn, n):
        for _ in range(n):
            s = step(btn)
        return h.get(d.btn_state_out)
    m.check("released after reset", lnot(hold(1, 8)))
    def settle():
        pass
    if where == "start":
        # bouncing, then a level too short to count, twice (no accumulation), then a real press
        for r in range(2):
            for i in range(win):
                step(m.input("b%d_%d" % (r, i)))
            hold(1, 4)
            m.check("bouncing has no effect", lnot(hold(0, SHORT)))
            m.check("a short press has no effect", lnot(hold(1, 6)))
        s = hold(0, LONG)
        m.check("a long press is reported", s)
        m.check("exactly one change", ch[0].eq(1))
        m.check("a short release has no effect", hold(1, SHORT))
        m.check("a short release has no effect", hold(0, 4))
    elif where in ("end", "end of release"):
        # find the length of a press (release) that just does not change the state, by running a twin design
        new = int(where != "end")
        if new:
            m.check("a long press is reported", hold(0, LONG))
        isnew = lambda x: lnot(x) if new else x
        e = Debouncer()
        g = m.elab(e)
        pressed = const(0, 20)
        for btn, n in [(1, 8)] + [(0, LONG)] * new:
            g.set(e.btn_in, btn)
            for _ in range(n):
                pressed = pressed + t.zext(land(lnot(const(btn, 1)), lnot(g.get(e.btn_state_out))), 20)
                g.tick()
        g.set(e.btn_in, new)
        act = O1
        cnt = const(0, 20)
        for k in range(LONG):
            act = land(act, lnot(isnew(g.get(e.btn_state_out))))
            cnt = cnt + t.zext(act, 20)
            g.tick()
        m.check("a long press is reported", isnew(g.get(e.btn_state_out)))
        T = cnt.v if cnt.is_const else 0
        m.check("press time is a constant in range", const(int(SHORT < T < LONG), 1))
        if new:
            m.check("a release takes the same time as a press", pressed.eq(cnt))
        hold(new, max(0, T - win // 2 - 4))
        bs = [m.input("b%d" % i) for i in range(win)]
        for i in range(win):
            s = step(~bs[i] if new else bs[i])
        # a release seen before the press has been held long enough restarts the measurement
        early = lor(*[bs[i] for i in range(win // 2)])
        r = isnew(hold(new, win + 8))
        m.check("a bounce just before the end restarts the measurement", implies(early, lnot(r)))
        m.check("without a bounce the press counts", implies(lnot(lor(*bs)), r))
        m.check("one change at most", ch[0].ule(1 + new))
        m.cover("restarted", early)
    else:
        m.check("a long press is reported", hold(0, LONG))
        for i in range(win):
            step(m.input("b%d" % i))
        hold(0, 4)
        m.check("bouncing of the release has no effect", hold(1, SHORT))
        m.check("bouncing of the release has no effect", hold(0, 4))
        s = hold(1, LONG)
        m.check("a long release is reported", lnot(s))
        m.check("exactly two changes", ch[0].eq(2))
    m.cover("end", O1)
