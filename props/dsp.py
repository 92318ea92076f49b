from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, CIC, DSP, FFT, HB, RESAMPLER
from props.i2s import _quiet

Z1 = const(0, 1)
O1 = const(1, 1)


def scaled(x, tap, F, W):
    """floor(x * tap / 2**F), W bits wide, x signed"""
    w = max(W + F, x.w + abs(tap).bit_length() + 1)
    return t.extract(t.mul(t.sext(x, w), const(tap, w)), F, W)


def fir_sum(xs, taps, F, bw):
    s = const(0, bw)
    for x, c in zip(xs, taps):
        if c:
            s = s + scaled(x, c, F, bw)
    return s


def fir_taps(fs, F, cutoff, order, ftype, weight=None):
    import numpy as np
    from scipy import signal
    if isinstance(cutoff, int):
        real = signal.firwin(order, cutoff, fs=fs, pass_zero=ftype, window="hamming")
    else:
        bands = np.array([0., cutoff[0] / fs, cutoff[1] / fs, .5])
        real = signal.remez(order, bands, [1, 0] if ftype in (True, "lowpass") else [0, 1], weight)
    return [int(x * 2 ** F) for x in real]


# ---------------------------------------------------------------- FIR

_FIR = [dict(fs=336000, bw=18, F=18, cutoff=20000, order=24, ftype="lowpass", K=30), dict(fs=96000, bw=16, F=18, cutoff=20000, order=8, ftype="lowpass", K=12),
        dict(fs=48000, bw=12, F=12, cutoff=6000, order=15, ftype="highpass", K=20), dict(fs=48000, bw=16, F=16, cutoff=[4000, 9000], order=12, ftype="lowpass", K=15),
        dict(fs=48000, bw=16, F=20, cutoff=[4000, 9000], order=13, ftype="highpass", K=15)]


@harness("C23", "FIR filter, every sample value, enable arbitrary in every cycle, more cycles than taps so that every tap is reached; the "
         "output is modulo 2^width the sum of the samples times the designed taps, each product rounded down",
         _FIR + [dict(fs=48000, bw=8, F=8, cutoff=7000, order=23, ftype="lowpass", K=26), dict(fs=48000, bw=16, F=16, cutoff=[4000, 9000], order=11, ftype="lowpass", K=14, weight=[1, 7]),
                 dict(fs=48000, bw=12, F=16, cutoff=8000, order=5, ftype="lowpass", K=90, wild=True, _plan=dict(en="~1:40:89")),
                 dict(fs=48000, bw=12, F=16, cutoff=8000, order=4, ftype="lowpass", K=150, wild=True, _plan=dict(en="1,0*33,1*3,0*65,1,1,0")), dict(fs=336000, bw=24, F=24, cutoff=20000, order=64, ftype="lowpass", K=80, _tier="thorough")], lin=True)
def fir(m, fs, bw, F, cutoff, order, ftype, K, weight=None, wild=False):
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    d = _quiet(lambda: FixedPointFIRFilter(fs, **given(DSP, bitwidth=bw, fraction_width=F, cutoff_freq=cutoff, filter_order=order, filter_type=ftype, verbose=False), **({} if weight is None else dict(weight=weight))))
    h = m.elab(d)
    taps = fir_taps(fs, F, cutoff, order, ftype, weight)
    xs = [const(0, bw)] * order
    for k in range(K):
        m.check("output is the convolution of the samples taken in", h.get(d.signal_out).eq(fir_sum(xs, taps, F, bw)))
        # enable is arbitrary in the last cycles and early ones; in between samples come one per cycle
        en = m.input("en%d" % k) if wild or k < 3 or k >= K - 3 else O1
        x = m.input("x%d" % k, bw)
        h.set(d.enable_in, en); h.set(d.signal_in, x)
        h.tick()
        xs = [ite(en, a, b) for a, b in zip([x] + xs[:-1], xs)]
    m.check("output is the convolution of the samples taken in", h.get(d.signal_out).eq(fir_sum(xs, taps, F, bw)))
    m.cover("end", O1)


@harness("C23", "FIR filter with a single multiplier: every sample value, one sample per computation, more samples than taps; by the next "
         "sample the output is the same convolution as with parallel multipliers",
         [dict(fs=48000, bw=16, F=16, cutoff=8000, order=5, ftype="lowpass", gap=9), dict(fs=48000, bw=12, F=16, cutoff=8000, order=4, ftype="lowpass", gap=12),
          dict(fs=48000, bw=12, F=12, cutoff=6000, order=7, ftype="highpass", gap=10), dict(fs=48000, bw=10, F=12, cutoff=8000, order=5, ftype="lowpass", gap=(9, 40, 10, 9, 70, 13)),
          dict(fs=336000, bw=18, F=18, cutoff=20000, order=24, ftype="lowpass", gap=30, _tier="thorough")], lin=True)
def fir_mac(m, fs, bw, F, cutoff, order, ftype, gap):
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    d = _quiet(lambda: FixedPointFIRFilter(fs, **given(DSP, bitwidth=bw, fraction_width=F, cutoff_freq=cutoff, filter_order=order, filter_type=ftype, mac_loop=True, verbose=False)))
    h = m.elab(d)
    taps = fir_taps(fs, F, cutoff, order, ftype)
    xs = [const(0, bw)] * order
    for k in range(order + 3):
        x = m.input("x%d" % k, bw)
        h.set(d.enable_in, 1); h.set(d.signal_in, x)
        old = h.get(d.signal_out)
        h.tick()
        h.set(d.enable_in, 0); h.set(d.signal_in, m.input("junk%d" % k, bw))
        xs = [x] + xs[:-1]
        want = fir_sum(xs, taps, F, bw)
        for j in range((gap if isinstance(gap, int) else gap[k % len(gap)]) - 1):
            o = h.get(d.signal_out)
            m.check("the output only ever shows complete results", lor(o.eq(old), o.eq(want)))
            h.tick()
        m.check("output is the convolution of the samples taken in", h.get(d.signal_out).eq(want))
    m.cover("end", O1)


# ---------------------------------------------------------------- IIR

@harness("C24", "IIR filter, every sample value, enable arbitrary at the beginning and the end; the output follows the designed recurrence "
         "modulo 2^width, every product rounded down",
         [dict(fs=48000, bw=10, F=12, cutoff=8000, order=2, ftype="lowpass", K=120, wild=True, _plan=dict(en="1,0*33,1,1,0*65,1,1,0,1")),
          dict(fs=48000, bw=16, F=18, cutoff=8000, order=2, ftype="lowpass", K=8), dict(fs=336000, bw=18, F=18, cutoff=20000, order=2, ftype="lowpass", K=7),
          dict(fs=48000, bw=12, F=16, cutoff=3000, order=1, ftype="highpass", K=8), dict(fs=48000, bw=16, F=16, cutoff=9000, order=3, ftype="lowpass", K=7),
          dict(fs=48000, bw=12, F=20, cutoff=9000, order=6, ftype="lowpass", K=10), dict(fs=48000, bw=8, F=16, cutoff=7000, order=7, ftype="highpass", K=11),
          dict(fs=48000, bw=16, F=20, cutoff=6000, order=4, ftype="highpass", K=20, _tier="thorough")], lin=True)
def iir(m, fs, bw, F, cutoff, order, ftype, K, wild=False):
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
    from scipy import signal
    d = _quiet(lambda: FixedPointIIRFilter(fs, **given(DSP, bitwidth=bw, fraction_width=F, cutoff_freq=cutoff, filter_order=order, filter_type=ftype)))
    h = m.elab(d)
    b, a = signal.cheby1(order, 1.0, cutoff / (fs * 0.5), btype=ftype, output="ba")
    b, a = [int(v * 2 ** F) for v in b], [int(v * 2 ** F) for v in a]
    m.check("leading recursive coefficient is one", const(int(a[0] == 1 << F), 1))
    xs, ys = [const(0, bw)] * (order + 1), [const(0, bw)] * order
    for k in range(K + 1):
        want = fir_sum(xs, b, F, bw)
        for y, c in zip(ys, a[1:]):
            want = want - scaled(y, c, F, bw)
        m.check("output follows the recurrence", h.get(d.signal_out).eq(want))
        if k == K:
            break
        en = m.input("en%d" % k) if wild or k < 2 or k >= K - 2 else O1
        x = m.input("x%d" % k, bw)
        h.set(d.enable_in, en); h.set(d.signal_in, x)
        h.tick()
        xs = [ite(en, p, q) for p, q in zip([x] + xs[:-1], xs)]
        ys = [ite(en, p, q) for p, q in zip([want] + ys[:-1], ys)]
    m.cover("end", O1)


# ---------------------------------------------------------------- half band

def hb_ref(xs, n, F, bw, taps):
    W = bw + 1
    s = t.sext(xs[n // 2], W)
    s = t.sext(t.extract(s, 1, W - 1), W)
    s = t.extract(s, 0, bw)
    for i in range(0, n // 2 + 1, 2):
        p = t.sext(xs[i], bw + 1) + t.sext(xs[n - 1 - i], bw + 1)
        s = s + scaled(p, taps[i], F, bw)
    return s


def hb_taps(order, F):
    import numpy as np
    from scipy import signal
    return [int(x * 2 ** F) for x in signal.remez(order, np.array([0.0, 0.22, 0.28, 0.5]), [1, 0], [1, 1])]


@harness("C25", "half band decimator, every sample value, strobe arbitrary at the beginning and the end, more samples than taps",
         [dict(bw=18, F=18, order=19, K=24), dict(bw=10, F=12, order=7, K=140, wild=True, _plan=dict(en="1,0*33,1*4,0*65,1,1,0")), dict(bw=12, F=14, order=7, K=90, wild=True, _plan=dict(en="~3:45:89")), dict(bw=12, F=14, order=7, K=12), dict(bw=16, F=16, order=11, K=15), dict(bw=16, F=16, order=3, K=7),
          dict(bw=24, F=24, order=43, K=50, _tier="thorough")], lin=True)
def halfband(m, bw, F, order, K, wild=False):
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
    d = _quiet(lambda: FixedPointHBFilter(**given(HB, bitwidth=bw, fraction_width=F, filter_order=order, verbose=False)))
    h = m.elab(d)
    taps = hb_taps(order, F)
    xs = [const(0, bw)] * order
    odd, due = Z1, Z1
    for k in range(K):
        m.check("output is the half band response of the samples taken in", h.get(d.signal_out).eq(hb_ref(xs, order, F, bw, taps)))
        m.check("one output strobe for every second sample", iff(h.get(d.strobe_out), due))
        en = m.input("en%d" % k) if wild or k < 4 or k >= K - 4 else O1
        x = m.input("x%d" % k, bw)
        h.set(d.strobe_in, en); h.set(d.signal_in, x)
        h.tick()
        xs = [ite(en, a, b) for a, b in zip([x] + xs[:-1], xs)]
        due = land(en, odd)
        odd = odd ^ en
    m.cover("end", O1)


@harness("C25", "half band decimator with a single multiplier: every sample value, one sample per computation, more samples than taps",
         [dict(bw=16, F=16, order=7, gap=10), dict(bw=12, F=16, order=11, gap=10), dict(bw=16, F=16, order=3, gap=8), dict(bw=18, F=18, order=19, gap=12), dict(bw=12, F=12, order=7, gap=(8, 40, 9, 8, 70, 11))], lin=True)
def halfband_mac(m, bw, F, order, gap):
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
    d = _quiet(lambda: FixedPointHBFilter(**given(HB, bitwidth=bw, fraction_width=F, filter_order=order, mac_loop=True, verbose=False)))
    h = m.elab(d)
    taps = hb_taps(order, F)
    xs = [const(0, bw)] * order
    for k in range(order + 3):
        x = m.input("x%d" % k, bw)
        h.set(d.strobe_in, 1); h.set(d.signal_in, x)
        old = h.get(d.signal_out)
        h.tick()
        h.set(d.strobe_in, 0); h.set(d.signal_in, m.input("junk%d" % k, bw))
        xs = [x] + xs[:-1]
        want = hb_ref(xs, order, F, bw, taps)
        for j in range((gap if isinstance(gap, int) else gap[k % len(gap)]) - 1):
            o = h.get(d.signal_out)
            m.check("the output only ever shows complete results", lor(o.eq(old), o.eq(want)))
            m.check("one output strobe for every second sample", iff(h.get(d.strobe_out), const(int(j == 0 and k % 2 == 1), 1)))
            h.tick()
        m.check("output is the half band response of the samples taken in", h.get(d.signal_out).eq(want))
    m.cover("end", O1)


# ---------------------------------------------------------------- CIC

def _poly(R, N):
    c = [1]
    for _ in range(N):
        r = [0] * (len(c) + R - 1)
        for i, v in enumerate(c):
            for j in range(R):
                r[i + j] += v
        c = r
    return c


@harness("C26", "CIC decimator, every sequence of +1/-1 samples, strobe pattern given (back to back, spaced, or with the listed gaps in turn), "
         "enough samples for `outs` outputs beyond the start-up; the output is the exact filter value scaled to the output width",
         [dict(bw=18, N=4, R=12, outs=2), dict(bw=6, N=2, R=3, outs=4), dict(bw=8, N=3, R=5, outs=3), dict(bw=5, N=1, R=7, outs=3), dict(bw=16, N=2, R=8, outs=3),
          dict(bw=4, N=2, R=4, outs=3, full="wrap"), dict(bw=16, N=4, R=16, outs=1, full="wrap"),
          dict(bw=4, N=2, R=4, outs=1, full="only", _known="KF-CIC-FULLSCALE"), dict(bw=9, N=3, R=6, outs=3, spaced=2), dict(bw=8, N=3, R=5, outs=3, gaps=(0, 4, 1, 0, 0, 9, 2)),
          dict(bw=6, N=2, R=3, outs=40), dict(bw=18, N=4, R=12, outs=8, _tier="thorough")], lin=True)
def cic(m, bw, N, R, outs, spaced=1, full=None, gaps=None):
    from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
    d = _quiet(lambda: FixedPointCICFilter(**given(CIC, bitwidth=bw, filter_stage=N, decimation=R, verbose=False)))
    h = m.elab(d)
    import math
    width = max(1 + math.ceil(N * math.log2(R) - 1e-9), bw)
    coef = _poly(R, N)
    W = width + 8
    total = (outs + 2 * N + 1) * R
    xs = []
    for i in range(total + 2 * R):
        b = m.input("b%d" % i)
        xs.append(ite(b, const(1, W), const(-1, W)))
    seen = 0
    n = 0
    delay = 0
    since = []
    fired = []           # cycles in which a decimated output is due
    at = {}
    for i in range(total + 2 * R):
        at[max(at, default=-1) + 1 + (gaps[i % len(gaps)] if gaps else spaced - 1 if i else 0)] = i
    for cyc in range(sorted(at)[total] + 4):
        stb = h.get(d.strobe_out)
        due = cyc in fired
        m.check("one output strobe per decimated sample", iff(stb, const(int(due), 1)))
        if due:
            e = fired.index(cyc)                            # e-th decimated output
            j = e - N                                       # combs run N outputs behind
            acc = const(0, W)
            for i, c in enumerate(coef):
                idx = (j + 1) * R - 1 - (N - 1) - i
                if 0 <= idx:
                    acc = acc + t.mul(xs[idx], const(c, W))
            # compare at full precision, so that an overflow of the filter shows; where R^N is a power of two the sum at
            # positive full scale is the one value the filter has no room for: it is looked at on its own
            sh = width - bw
            if full == "only":
                m.check("a full scale sum keeps its sign", implies(acc.eq(R ** N), lnot(h.get(d.signal_out)[bw - 1])))
            elif full == "wrap":
                m.check("output is the exact filter value", h.get(d.signal_out).eq(t.extract(acc, sh, bw)))
            else:
                m.check("output is the exact filter value", t.sext(h.get(d.signal_out), W - sh).eq(t.extract(acc, sh, W - sh)))
            seen += 1
        if cyc in at:
            h.set(d.strobe_in, 1)
            h.set(d.signal_in, t.extract(xs[n], 0, bw))
            n += 1
            if n % R == 0:
                fired.append(cyc + 2)
        else:
            h.set(d.strobe_in, 0)
            h.set(d.signal_in, 1)
        h.tick()
    m.check("outputs seen", const(int(seen >= outs), 1))
    m.cover("end", O1)


# ---------------------------------------------------------------- filter bank

@harness("C27", "chains of 1 to 3 filters of either structure, every sample value; each stage filters the output of the stage before",
         [dict(n=1, st="fir", order=4, K=7), dict(n=2, st="fir", order=3, K=80, wild=True, _plan=dict(en="1,0*18,1,1,0*35,1,1,0,0,1")), dict(n=3, st="fir", order=4, K=9), dict(n=2, st="iir", order=2, K=6), dict(n=3, st="iir", order=1, K=6),
          dict(n=2, st="fir", order=3, K=6, bw=18, F=18, cutoff=20000), dict(n=1, st="iir", order=2, K=5, bw=18, F=18, cutoff=20000)], lin=True)
def filterbank(m, n, st, order, K, bw=14, F=16, fs=48000, cutoff=8000, wild=False):
    from amlib.dsp.filterbank import Filterbank
    from scipy import signal
    d = _quiet(lambda: Filterbank(n, fs, **given(DSP, bitwidth=bw, fraction_width=F, cutoff_freq=cutoff, filter_order=order, filter_structure=st, verbose=False)))
    h = m.elab(d)
    if st == "fir":
        b, a = fir_taps(fs, F, cutoff, order, "lowpass"), []
    else:
        b, a = signal.cheby1(order, 1.0, cutoff / (fs * 0.5), btype="lowpass", output="ba")
        b, a = [int(v * 2 ** F) for v in b], [int(v * 2 ** F) for v in a][1:]
    xs = [[const(0, bw)] * len(b) for _ in range(n)]
    ys = [[const(0, bw)] * len(a) for _ in range(n)]
    for k in range(K + 1):
        outs = []
        for i in range(n):
            o = fir_sum(xs[i], b, F, bw)
            for y, c in zip(ys[i], a):
                o = o - scaled(y, c, F, bw)
            outs.append(o)
        m.check("output of the chain", h.get(d.signal_out).eq(outs[-1]))
        if k == K:
            break
        en = m.input("en%d" % k) if wild or k in (0, 1, K - 1) else O1
        x = m.input("x%d" % k, bw)
        h.set(d.enable_in, en); h.set(d.signal_in, x)
        h.tick()
        ins = [x] + outs[:-1]
        xs = [[ite(en, p, q) for p, q in zip([ins[i]] + xs[i][:-1], xs[i])] for i in range(n)]
        ys = [[ite(en, p, q) for p, q in zip([outs[i]] + ys[i][:-1], ys[i])] if a else [] for i in range(n)]
    m.cover("end", O1)


# ---------------------------------------------------------------- resampler

def _pattern(name, K):
    """ready and valid, cycle by cycle, as listed schedules"""
    import random
    if name in ("free", "wait", "late"):
        return [1] * K, [1] * K
    r = random.Random(name)
    if name.startswith("slow"):                       # consumer stalls for long stretches
        v, y = [1] * K, []
        while len(y) < K:
            y += [0] * r.randint(1, 20) + [1] * r.randint(1, 4)
        return v, y[:K]
    return [r.random() < .7 for _ in range(K)], [r.random() < .6 for _ in range(K)]


class _BankRef:
    """the filter chain of C27 as recurrences over terms"""
    def __init__(self, n, st, order, bw, F, fs, cutoff):
        from scipy import signal
        self.bw, self.F, self.n = bw, F, n
        if st == "fir":
            self.b, self.a = fir_taps(fs, F, cutoff, order, "lowpass"), []
        else:
            b, a = signal.cheby1(order, 1.0, cutoff / (fs * 0.5), btype="lowpass", output="ba")
            self.b, self.a = [int(v * 2 ** F) for v in b], [int(v * 2 ** F) for v in a][1:]
        self.xs = [[const(0, bw)] * len(self.b) for _ in range(n)]
        self.ys = [[const(0, bw)] * len(self.a) for _ in range(n)]

    def outs(self):
        r = []
        for i in range(self.n):
            o = fir_sum(self.xs[i], self.b, self.F, self.bw)
            for y, c in zip(self.ys[i], self.a):
                o = o - scaled(y, c, self.F, self.bw)
            r.append(o)
        return r

    def step(self, x):
        outs = self.outs()
        ins = [x] + outs[:-1]
        self.xs = [[ins[i]] + self.xs[i][:-1] for i in range(self.n)]
        if self.a:
            self.ys = [[outs[i]] + self.ys[i][:-1] for i in range(self.n)]


@harness("C28", "upsampling by 2 to 6 and decimation by 1 to 7; every sample value under listed schedules of producer and consumer "
         "(free running, pausing at random places, long consumer stalls, a consumer that is ready only once it is offered something), and given samples under every schedule of producer and consumer; "
         "every word delivered is the exact next word and none is missing once the consumer has been ready for long enough",
         [dict(M=3, N=2, order=5, K=34, pat="free"), dict(M=6, N=7, order=8, K=60, pat="mix1"), dict(M=4, N=3, order=6, K=50, pat="slow1"), dict(M=2, N=1, order=4, K=40, pat="slow2"),
          dict(M=5, N=4, order=6, K=50, pat="mix2"), dict(M=3, N=2, order=2, K=30, st="iir", inst=1, pat="mix3", bw=8), dict(M=3, N=2, order=4, K=30, inst=2, pat="slow3", bw=9),
          dict(M=3, N=1, order=4, K=24, pat="mix4", prescale=2), dict(M=2, N=3, order=2, K=24, pat="free", st="iir", bw=16),
          dict(M=3, N=2, order=24, K=36, pat="mix1", bw=16), dict(M=1, N=3, order=3, K=30, pat="mix2", fs=96000, bw=16), dict(M=16, N=5, order=4, K=70, pat="mix3", fs=24000), dict(M=8, N=16, order=4, K=100, pat="mix1"),
          dict(M=3, N=2, order=3, K=260, pat="mix5", bw=8), dict(M=2, N=5, order=3, K=200, pat="slow5", bw=8),
          dict(M=3, N=2, order=5, K=24, pat="wait"), dict(M=6, N=7, order=4, K=60, pat="wait"), dict(M=2, N=3, order=4, K=30, pat="late"), dict(M=4, N=1, order=3, K=40, pat="late"),
          dict(M=2, N=1, order=3, K=11, pat="all"), dict(M=3, N=2, order=3, K=12, pat="all"), dict(M=2, N=3, order=3, K=12, pat="all"),
          dict(M=6, N=7, order=24, K=110, pat="slow4", bw=16, _tier="thorough"), dict(M=4, N=3, order=3, K=18, pat="all", _tier="thorough"),
          dict(M=2, N=1, order=3, K=18, pat="all", _tier="thorough")], lin=True)
def resampler(m, M, N, order, K, pat, st="fir", inst=1, bw=12, prescale=None, fs=48000, cutoff=20000):
    from amlib.dsp.resampler import FractionalResampler
    d = _quiet(lambda: FractionalResampler(input_samplerate=fs, upsample_factor=M, downsample_factor=N, verbose=False, **given(
        RESAMPLER, filter_structure=st, filter_instances=inst, filter_order=order, filter_cutoff=cutoff, bitwidth=bw, prescale=prescale)))
    h = m.elab(d)
    hw = -(-bw // 8) * 9
    gain = prescale if prescale is not None else (4 if st == "fir" else M - 1)
    flush = K + 3 * M + 4
    if pat == "all":
        valids, readys = [m.input("v%d" % k) for k in range(K)], [m.input("r%d" % k) for k in range(K)]
        J = (K + 3) // M + 1
        xs = [const((2 * j + 1) * 1237 * (-1) ** j, bw) for j in range(J)]
    else:
        v, r = _pattern(pat, K)
        valids, readys = [const(int(b), 1) for b in v], [const(int(b), 1) for b in r]
        J = (K + 3) // M + 1
        xs = [m.input("x%d" % j, bw) for j in range(J)]
    # the words the filter makes of the samples, in order
    ref = _BankRef(inst, st, order, hw, 18, fs * M, cutoff)
    words = []
    for x in xs:
        for i in range(M):
            words.append(t.extract(ref.outs()[-1], 0, bw))
            ref.step(t.mul(t.sext(x, hw), const(gain, hw)) if i == 0 else const(0, hw))
    C = 10
    taken, got = const(0, C), const(0, C)
    held = Z1
    for k in range(K + flush):
        live = k < K
        v, r = (valids[k], readys[k]) if live else (Z1, O1)
        h.set(d.signal_in.valid, v)
        h.set(d.signal_in.payload, t.select(xs, taken))
        if pat == "wait":
            h.set(d.signal_out.ready, 0)
            r = h.get(d.signal_out.valid)
        elif pat == "late":
            r = held
        h.set(d.signal_out.ready, r)
        offered = h.get(d.signal_out.valid)
        m.check("a word offered stays until it is taken", implies(held, offered))
        held = land(offered, lnot(r))
        acc = land(v, h.get(d.signal_in.ready))
        dlv = land(r, h.get(d.signal_out.valid))
        m.check("word delivered is the next one", implies(h.get(d.signal_out.valid), h.get(d.signal_out.payload).eq(t.select(words[::N], got))))
        taken = taken + t.zext(acc, C)
        got = got + t.zext(dlv, C)
        m.check("nothing delivered that was not there", lnot(t.ult(t.mul(taken, const(M, C)) + (N - 1), t.mul(got, const(N, C)))))
        h.tick()
    m.check("every word delivered", got.eq(t.udiv(t.mul(taken, const(M, C)) + (N - 1), const(N, C))))
    m.check("ready for the next sample", h.get(d.signal_in.ready))
    m.cover("several samples taken", t.ult(const(1, C), taken))


# ---------------------------------------------------------------- FFT

def fft_reference(xr, xi, bw):
    """radix 2 decimation in time over terms: windowed samples in bit reversed order, `bw` bit words, products rounded down;
    the sum half uses -(b * -W), the difference half the same product"""
    from math import cos, sin, pi
    pts = len(xr)
    N = pts.bit_length() - 1
    w = bw + N
    Wr = [int(cos(k * 2 * pi / pts) * 2 ** (bw - 1)) for k in range(pts)]
    Wi = [int(-sin(k * 2 * pi / pts) * 2 ** (bw - 1)) for k in range(pts)]
    rev = lambda i: int(format(i, "0%db" % N)[::-1], 2)
    r = [t.sext(xr[rev(i)], w) for i in range(pts)]
    i_ = [t.sext(xi[rev(i)], w) for i in range(pts)]
    for s in range(N):
        nr, ni = [None] * pts, [None] * pts
        mask = pts - (pts >> (s + 1))                     # the top s + 1 bits
        for k in range(pts // 2):
            a, b = 2 * k, 2 * k + 1
            # the second half of the coefficients, W^(k + pts/2) = -W^k
            c = (k + pts // 2) & mask
            br = scaled(r[b], Wr[c], bw - 1, w) - scaled(i_[b], Wi[c], bw - 1, w)
            bi = scaled(r[b], Wi[c], bw - 1, w) + scaled(i_[b], Wr[c], bw - 1, w)
            nr[k], ni[k] = r[a] - br, i_[a] - bi
            nr[k + pts // 2], ni[k + pts // 2] = r[a] + br, i_[a] + bi
        r, i_ = nr, ni
    return [t.extract(v, N, bw) for v in r], [t.extract(v, N, bw) for v in i_]


def _fft_reference_is_a_dft(pts, bw):
    """the reference against the exact transform of a few given vectors: no more than rounding apart"""
    import numpy as np
    rng = np.random.default_rng(pts + bw)
    for _ in range(4):
        x, y = rng.integers(-2 ** (bw - 2), 2 ** (bw - 2), (2, pts))
        er, ei = fft_reference([const(int(v), bw) for v in x], [const(int(v), bw) for v in y], bw)
        sg = lambda v: v.v - (1 << bw) if v.v >> (bw - 1) else v.v
        diff = np.array([complex(sg(a), sg(b)) for a, b in zip(er, ei)]) - np.fft.fft(x + 1j * y) / pts
        # every stage rounds its products and its coefficients: one unit each at most, halved by the final scaling
        assert abs(diff.real).max() < 4 and abs(diff.imag).max() < 4, "the reference is not a Fourier transform"


@harness("C29", "4, 8 and 16 points; every sample value under the built in window and under loaded ones, and every window coefficient under "
         "given samples; two transforms in a row, samples at listed distances, every pattern of stray starts and strobes while it computes and listed ones while it is being loaded; every result is the transform's, in order, one strobe each",
         [dict(pts=4, bw=8, gap=3), dict(pts=8, bw=16, gap=3), dict(pts=4, bw=12, gap=5, load="data"), dict(pts=8, bw=10, gap=4, load="data"),
          dict(pts=4, bw=8, gap=4, load="coef"), dict(pts=8, bw=12, gap=3, load="coef"), dict(pts=16, bw=12, gap=3), dict(pts=8, bw=9, gap=0), dict(pts=32, bw=16, gap=3),
          dict(pts=16, bw=12, gap=7, load="data", _tier="thorough"), dict(pts=64, bw=16, gap=3, _tier="thorough"), dict(pts=128, bw=18, gap=0, _tier="thorough")], lin=True)
def fft(m, pts, bw, gap, load=None):
    from math import cos, pi
    from amlib.dsp.fixedpointfft import FixedPointFFT
    d = _quiet(lambda: FixedPointFFT(**given(FFT, bitwidth=bw, pts=pts, verbose=False)))
    h = m.elab(d)
    N = pts.bit_length() - 1
    ww = bw + 1
    F = bw - 1
    wr = [const(int((0.35875 - 0.48829 * cos(k * 2 * pi / pts) + 0.14128 * cos(k * 4 * pi / pts) - 0.01168 * cos(k * 6 * pi / pts)) * 2 ** F), ww) for k in range(pts)]
    wi = [const(0, ww)] * pts
    _fft_reference_is_a_dft(pts, bw)

    def idle(n):
        for _ in range(n):
            h.tick()

    def dist(k):
        return gap or (3, 9, 4, 3, 20, 5)[k % 6]

    def stray(n, *signals):                                 # while it takes samples or coefficients these mean nothing: each alone, together, or none
        for i, s in enumerate(signals):
            h.set(s, ((n or 0) * 5 + (n or 0) // 8) >> i & 1)
    m.check("done at reset", h.get(d.done))
    m.check("no strobe at reset", lnot(h.get(d.strobe_out)))
    if load:
        if load == "coef":
            wr, wi = [m.input("wr%d" % k, ww) for k in range(pts)], [m.input("wi%d" % k, ww) for k in range(pts)]
        else:
            wr, wi = [const((k + 1) * 29 - 101, ww) for k in range(pts)], [const(17 * k - 60, ww) for k in range(pts)]
        h.set(d.wf_start, 1); h.set(d.strobe_in, m.input("strobe_with_wf_start")); h.tick(); h.set(d.wf_start, 0); h.set(d.strobe_in, 0)
        m.check("loading is not done", lnot(h.get(d.done)))
        idle(3)
        for k in range(pts):
            h.set(d.wf_real, wr[k]); h.set(d.wf_imag, wi[k]); h.set(d.wf_strobe, 1)
            stray(2 * k + 1, d.start, d.wf_start, d.strobe_in)
            h.tick()
            stray(2 * k + 2, d.start, d.wf_start, d.strobe_in)
            h.set(d.wf_strobe, 0); h.set(d.wf_real, m.input("jr%d" % k, ww)); h.set(d.wf_imag, m.input("ji%d" % k, ww))
            h.tick()
            stray(None, d.start, d.wf_start, d.strobe_in)
            idle(dist(k) - 2)
        idle(4)
        m.check("loading is done", h.get(d.done))
    for rnd in range(2):
        if load == "coef":
            x = [const((k * 37 + 11 + 50 * rnd) % (1 << bw), bw) for k in range(pts)]
            y = [const((k * 53 + 90 + 31 * rnd) % (1 << bw), bw) for k in range(pts)]
        else:
            x, y = [m.input("i%d_%d" % (rnd, k), bw) for k in range(pts)], [m.input("q%d_%d" % (rnd, k), bw) for k in range(pts)]
        h.set(d.start, 1); h.set(d.wf_strobe, m.input("wf_strobe_with_start%d" % rnd)); h.tick(); h.set(d.start, 0); h.set(d.wf_strobe, 0)
        m.check("transform is not done", lnot(h.get(d.done)))
        idle(3)
        for k in range(pts):
            h.set(d.in_i, x[k]); h.set(d.in_q, y[k]); h.set(d.strobe_in, 1)
            stray(2 * k + rnd, d.start, d.wf_start, d.wf_strobe)
            h.tick()
            stray(2 * k + 2 - rnd, d.start, d.wf_start, d.wf_strobe)
            h.set(d.strobe_in, 0); h.set(d.in_i, m.input("ni%d_%d" % (rnd, k), bw)); h.set(d.in_q, m.input("nq%d_%d" % (rnd, k), bw))
            h.tick()
            stray(None, d.start, d.wf_start, d.wf_strobe)
            idle(dist(k) - 2)
        cr, ci = [], []
        for k in range(pts):
            W = 2 * bw + 3
            s = lambda v: t.sext(v, W)
            cr.append(t.extract(t.mul(s(wr[k]), s(x[k])) - t.mul(s(wi[k]), s(y[k])), F, bw))
            ci.append(t.extract(t.mul(s(wr[k]), s(y[k])) + t.mul(s(wi[k]), s(x[k])), F, bw))
        er, ei = fft_reference(cr, ci, bw)
        C = N + 2
        n = const(0, C)
        for cyc in range(N * pts * 14 + 6 * pts + 40):
            st, dn = h.get(d.strobe_out), h.get(d.done)
            m.check("no results beyond the last", implies(st, t.ult(n, const(pts, C))))
            m.check("result is the transform's", implies(st, land(h.get(d.out_real).eq(t.select(er, n)), h.get(d.out_imag).eq(t.select(ei, n)))))
            n = n + t.zext(st, C)
            m.check("done comes after the last result", implies(dn, n.eq(pts)))
            if cyc < 4 * pts:                           # while it is busy these mean nothing
                for s in (d.start, d.wf_start):
                    h.set(s, land(m.input("%s%d_%d" % (s.name, rnd, cyc)), lnot(dn)))
                for s in (d.strobe_in, d.wf_strobe):
                    h.set(s, m.input("%s%d_%d" % (s.name, rnd, cyc)))
            else:
                for s in (d.start, d.wf_start, d.strobe_in, d.wf_strobe):
                    h.set(s, 0)
            h.tick()
        m.check("every result appeared", n.eq(pts))
        m.check("done in the end", h.get(d.done))
        for k in range(2):                              # nor do samples without a start
            for s in (d.strobe_in, d.wf_strobe):
                h.set(s, m.input("idle_%s%d_%d" % (s.name, rnd, k)))
            h.tick()
            m.check("stays done", h.get(d.done))
        for s in (d.strobe_in, d.wf_strobe):
            h.set(s, 0)
    m.cover("end", O1)


# ---------------------------------------------------------------- stereo convolution

@harness("C30", "three modes, 1 to 4 slices, 2 to 68 taps of either sign and of full scale; every sample value under listed schedules of producer "
         "and consumer, and given samples under every schedule; more samples than taps; every output is the exact sum, left before right, none lost",
         [dict(n=4, sl=1, bw=8, mode="MONO", pairs=6), dict(n=20, sl=1, bw=8, mode="CROSSFEED", pairs=22), dict(n=68, sl=2, bw=8, mode="STEREO", pairs=3), dict(n=68, sl=1, bw=8, mode="CROSSFEED", pairs=3), dict(n=8, sl=2, bw=12, mode="STEREO", pairs=10), dict(n=8, sl=4, bw=8, mode="CROSSFEED", pairs=10),
          dict(n=3, sl=1, bw=10, mode="STEREO", pairs=5), dict(n=6, sl=2, bw=16, mode="CROSSFEED", pairs=8), dict(n=7, sl=1, bw=12, mode="CROSSFEED", pairs=9),
          dict(n=6, sl=3, bw=8, mode="MONO", pairs=8, pat="slow1"), dict(n=4, sl=2, bw=24, mode="STEREO", pairs=6, pat="mix1"), dict(n=5, sl=1, bw=9, mode="MONO", pairs=6, pat="mix2"),
          dict(n=4, sl=1, bw=8, mode="CROSSFEED", pairs=22, pat="mix3"), dict(n=6, sl=3, bw=8, mode="STEREO", pairs=22, pat="free"),
          dict(n=2, sl=1, bw=8, mode="CROSSFEED", pairs=2, pat="all"), dict(n=4, sl=2, bw=8, mode="STEREO", pairs=2, pat="all"),
          dict(n=32, sl=4, bw=24, mode="CROSSFEED", pairs=36, _tier="thorough"), dict(n=16, sl=1, bw=16, mode="STEREO", pairs=20, pat="slow2", _tier="thorough"),
          dict(n=4, sl=2, bw=8, mode="MONO", pairs=3, pat="all", _tier="thorough")], lin=True)
def convolution(m, n, sl, bw, mode, pairs, pat="free"):
    import numpy as np
    from amlib.dsp.convolution import StereoConvolutionMAC, ConvolutionMode
    rng = np.random.default_rng(n * 100 + sl)
    top = 2 ** (bw - 1)
    taps = np.zeros((n, 2), dtype=np.int32)
    for i in range(n):
        for c in range(2):
            # negative ones and both ends of the range among them
            taps[i, c] = (-top, top - 1, -1, int(rng.integers(-top, top)))[(i + 2 * c) % 4]
    d = _quiet(lambda: StereoConvolutionMAC(taps, samplerate=1000, clockfrequency=1000 * n / sl, bitwidth=bw, convolutionMode=getattr(ConvolutionMode, mode)))
    h = m.elab(d)
    cost = n // sl + 12
    K = pairs * (cost + (2 if pat == "free" else 14)) if pat != "all" else pairs * (cost + 2)
    if pat == "all":
        xs = [const((2 * j + 1) * 37 * (-1) ** j, bw) for j in range(2 * pairs)]
        valids, readys = [m.input("v%d" % k) for k in range(K)], [m.input("r%d" % k) for k in range(K)]
    else:
        v, r = _pattern(pat, K)
        xs = [m.input("%s%d" % ("lr"[j % 2], j // 2), bw) for j in range(2 * pairs)]
        valids, readys = [const(int(b), 1) for b in v], [const(int(b), 1) for b in r]
    W = 2 * bw
    want = []
    for k in range(pairs):
        for c in range(2):
            s = const(0, W)
            for j in range(min(n, k + 1)):
                me, other = t.sext(xs[2 * (k - j) + c], W), t.sext(xs[2 * (k - j) + 1 - c], W)
                t1, t2 = const(int(taps[j, 0]), W), const(int(taps[j, 1]), W)
                if mode == "CROSSFEED":
                    s = s + t.mul(me, t1) + t.mul(other, t2)
                else:
                    s = s + t.mul(me, t2 if mode == "STEREO" and c else t1)
            want.append(t.extract(s, bw, bw))
    C = 8
    taken, got = const(0, C), const(0, C)
    held = Z1
    for k in range(K + cost + 8):
        v, r = (valids[k], readys[k]) if k < K else (Z1, O1)
        v = land(v, t.ult(taken, const(2 * pairs, C)))
        h.set(d.signal_in.valid, v)
        h.set(d.signal_in.payload, t.select(xs, taken))
        # framing means nothing without valid
        h.set(d.signal_in.first, ite(v, lnot(taken[0]), m.input("nf%d" % k)))
        h.set(d.signal_in.last, ite(v, taken[0], m.input("nl%d" % k)))
        h.set(d.signal_out.ready, r)
        acc = land(v, h.get(d.signal_in.ready))
        ov = h.get(d.signal_out.valid)
        dlv = land(r, ov)
        m.check("an output offered stays until it is taken", implies(held, ov))
        held = land(ov, lnot(r))
        m.check("nothing delivered before its samples", implies(ov, t.ult(got, ite(taken[0], taken - 1, taken))))
        m.check("output is the exact convolution", implies(ov, h.get(d.signal_out.payload).eq(t.select(want, got))))
        m.check("left is first and right is last", implies(ov, land(iff(h.get(d.signal_out.first), lnot(got[0])), iff(h.get(d.signal_out.last), got[0]))))
        taken = taken + t.zext(acc, C)
        got = got + t.zext(dlv, C)
        h.tick()
    m.check("every output delivered", got.eq(ite(taken[0], taken - 1, taken)))
    m.check("ready for more", h.get(d.signal_in.ready))
    m.cover("several pairs taken", t.ult(const(3, C), taken))
