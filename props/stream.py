from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, DOMAIN, GEN, STREAM

Z1 = const(0, 1)
O1 = const(1, 1)


# ---------------------------------------------------------------- wiring helpers

class _Top:
    """a bare module around wiring statements"""
    def __init__(self, build, subs=()):
        self.build = build
        self.subs = subs

    def elaborate(self, platform):
        from amaranth import Module, Signal
        m = Module()
        for i, s in enumerate(self.subs):
            setattr(m.submodules, "s%d" % i, s)
        m.d.comb += self.build()
        m.d.sync += Signal().eq(1)
        return m


@harness("C17", "every value of every field; 1 to 40 bit payloads, multi bit valid, extra fields, fields left out",
         [dict(w=w, vw=vw, extra=e, how=how) for w, vw, e in ((8, 1, ()), (32, 4, (("ch", 3), ("err", 1))), (1, 1, (("x", 40),)), (16, 2, (("ch", 3), ("err", 1), ("user", 5), ("keep", 2), ("dest", 4))))
          for how in ("connect", "attach", "stream_eq", "tap", "tap_ready", "omit", "omit_connect", "omit_attach", "omit_ready", "omit_valid")])
def wiring(m, w, vw, extra, how):
    from amlib.stream import StreamInterface
    mk = lambda n: StreamInterface(**given(STREAM, name=n, payload_width=w, valid_width=vw, extra_fields=list(extra)))
    a, b = mk("a"), mk("b")             # data flow from a to b
    omit = {"omit": {"last", "payload"} | {n for n, _ in extra[:1]}, "omit_connect": ["first"] + [n for n, _ in extra[1:]], "omit_attach": ("payload",),
            "omit_ready": {"ready", "first"}, "omit_valid": {"valid"}}.get(how)
    f = {"connect": lambda: a.connect(b), "attach": lambda: a.attach(b), "stream_eq": lambda: b.stream_eq(a),
         "tap": lambda: b.tap(a), "tap_ready": lambda: b.tap(a, tap_ready=True), "omit_connect": lambda: a.connect(b, omit=omit),
         "omit_attach": lambda: a.attach(b, omit=omit)}.get(how, lambda: b.stream_eq(a, omit=omit))
    h = m.elab(_Top(f))
    fields = [("valid", vw), ("first", 1), ("last", 1), ("payload", w)] + list(extra)
    m.check("fields are as wide as documented", const(int(all(len(x[n]) == fw for x in (a, b) for n, fw in fields + [("ready", 1)])), 1))
    for r in range(2):
        for n, fw in fields:
            x = m.input("%s%d" % (n, r), fw)
            h.set(a[n], x)
            got = h.get(b[n])
            m.check("field %s passes" % n, got.eq(x) if not (omit and n in omit) else got.eq(0))
        if how == "tap_ready":
            x = m.input("rdy%d" % r)
            h.set(a.ready, x)
            m.check("ready is tapped", h.get(b.ready).eq(x))
        elif how in ("tap", "omit_ready"):
            if how == "omit_ready":
                h.set(b.ready, m.input("rdy%d" % r))
            m.check("a tap does not drive ready", h.get(a.ready).eq(0))
        else:
            x = m.input("rdy%d" % r)
            h.set(b.ready, x)
            m.check("ready passes back", h.get(a.ready).eq(x))
    m.check("data is the payload", h.get(b.data).eq(h.get(b.payload)))
    m.cover("end", O1)


@harness("C17", "stream into a first-in first-out buffer and out again, framing bits at the listed positions; every datum and every "
         "pattern of valid and ready over 10 cycles; the consumer sees exactly the accepted words in order with their framing",
         [dict(w=8, fb=8, lb=9), dict(w=8, fb=None, lb=None), dict(w=4, fb=4, lb=None), dict(w=4, fb=None, lb=4), dict(w=6, fb=7, lb=6),
          dict(w=6, fb=8, lb=11), dict(w=8, fb=9, lb=8, depth=2), dict(w=8, fb=8, lb=9, K=18, depth=4, _tier="thorough"),
          dict(w=8, fb=8, lb=9, K=90, depth=7, _plan=dict(v="1*20,0*9,1*33,0,1,1,0", r="0*9,1*14,0*3,1*2")), dict(w=16, fb=16, lb=17, K=180, depth=64, _plan=dict(v="1*80,0*70,1*30", r="0*70,1*110"))])
def through_fifo(m, w, fb, lb, K=10, depth=3):
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    from amaranth.lib.fifo import SyncFIFO
    width = max([w] + [b + 1 for b in (fb, lb) if b is not None])
    fifo = SyncFIFO(width=width, depth=depth)
    a, b = StreamInterface(**given(STREAM, name="a", payload_width=w)), StreamInterface(**given(STREAM, name="b", payload_width=w))
    m.note("connect_stream_to_fifo (amlib/stream/__init__.py)")
    m.note("connect_fifo_to_stream (amlib/stream/__init__.py)")
    h = m.elab(_Top(lambda: connect_stream_to_fifo(a, fifo, firstBit=fb, lastBit=lb) + connect_fifo_to_stream(fifo, b, firstBit=fb, lastBit=lb), [fifo]))
    sent, n_in, n_out = [const(0, w + 2)] * K, const(0, 9), const(0, 9)
    for k in range(K):
        v, d, fi, la, r = m.input("v%d" % k), m.input("d%d" % k, w), m.input("f%d" % k), m.input("l%d" % k), m.input("r%d" % k)
        h.set(a.valid, v); h.set(a.payload, d); h.set(a.first, fi); h.set(a.last, la); h.set(b.ready, r)
        acc = land(v, h.get(a.ready))
        pd = d                          # what the payload looks like with the framing bits put over it
        if fb is not None and fb < w:
            pd = t.concat(*[fi if i == fb else pd[i] for i in range(w)])
        if lb is not None and lb < w:
            pd = t.concat(*[la if i == lb else pd[i] for i in range(w)])
        sent = [ite(land(acc, n_in.eq(i)), t.concat(pd, fi, la), sent[i]) for i in range(K)]
        n_in = n_in + t.zext(acc, 9)
        ov = h.get(b.valid)
        od, of, ol = h.get(b.payload), h.get(b.first), h.get(b.last)
        cur = t.select(sent, n_out)
        m.check("nothing appears that was not accepted", implies(ov, n_out.ult(n_in)))
        m.check("payload in order", implies(ov, od.eq(cur[0:w])))
        m.check("first travels with its word", implies(ov, of.eq(cur[w]) if fb is not None else of.eq(0)))
        m.check("last travels with its word", implies(ov, ol.eq(cur[w + 1]) if lb is not None else ol.eq(0)))
        m.check("accepts while there is room", implies((n_in - t.zext(acc, 9) - n_out).ult(depth), h.get(a.ready)))
        n_out = n_out + t.zext(land(ov, r), 9)
        h.tick()
        m.check("an accepted word is offered", implies(n_in.ugt(n_out), h.get(b.valid)))
    m.cover("words came through", n_out.ugt(3))


# ---------------------------------------------------------------- multiplexer and arbiter

def _drive(m, h, s, k, i, w=8, extra=()):
    vals = {}
    for f, fw in (("valid", 1), ("payload", w), ("first", 1), ("last", 1)) + tuple(extra):
        x = vals[f] = m.input("%s%d_%d" % (f[0] if (f, fw) not in extra else f, i, k), fw)
        h.set(s[f], x)
    return vals


def _fields(extra):
    return dict(extra_fields=list(extra)) if extra else {}


def _typed(w, extra):
    from amlib.stream import StreamInterface
    return dict(stream_type=lambda: StreamInterface(payload_width=w, **_fields(extra))) if extra or w != 8 else {}


@harness("C18", "multiplexer of 1 to 9 streams: every value of every field, several streams valid at once included",
         [dict(n=n) for n in (1, 2, 3, 5, 9)] + [dict(n=3, w=17, extra=(("id", 3), ("err", 1)))])
def stream_mux(m, n, w=8, extra=()):
    from amlib.stream.arbiter import StreamMultiplexer
    from amlib.stream import StreamInterface
    d = StreamMultiplexer(**_typed(w, extra))
    ss = [StreamInterface(**given(STREAM, name="s%d" % i, payload_width=w, **_fields(extra))) for i in range(n)]
    for s in ss:
        d.add_input(s)
    h = m.elab(d)
    for k in range(2):
        vs = [_drive(m, h, s, k, i, w, extra) for i, s in enumerate(ss)]
        r = m.input("r%d" % k)
        h.set(d.output.ready, r)
        anyv = lor(*[v["valid"] for v in vs])
        m.check("output valid when a stream is", h.get(d.output.valid).eq(anyv))
        got = {f: h.get(d.output[f]) for f in ("payload", "first", "last") + tuple(n for n, _ in extra)}
        rdy = [h.get(s.ready) for s in ss]
        for i in range(n):
            alone = land(vs[i]["valid"], *[lnot(v["valid"]) for j, v in enumerate(vs) if j != i])
            for f in got:
                m.check("the valid stream's %s is passed" % f, implies(alone, got[f].eq(vs[i][f])))
            m.check("the valid stream gets the consumer's ready", implies(alone, rdy[i].eq(r)))
            m.check("a stream without valid data is not acknowledged", implies(land(anyv, lnot(vs[i]["valid"])), lnot(rdy[i])))
            m.check("a word is only accepted from the stream that is shown",
                    implies(land(vs[i]["valid"], rdy[i]), land(*[got[f].eq(vs[i][f]) for f in got])))
            for j in range(i):
                m.check("at most one stream is acknowledged", lnot(land(vs[i]["valid"], rdy[i], vs[j]["valid"], rdy[j])))
    m.cover("end", O1)


@harness("C18", "arbiter of 1 to 9 streams from reset: every pattern of every input field over K cycles", 
         [dict(n=1, K=6), dict(n=2, K=8), dict(n=3, K=7), dict(n=4, K=6), dict(n=5, K=5), dict(n=3, K=6, domain="usb"),
          dict(n=2, K=6, w=17, extra=(("id", 3), ("err", 1))),
          dict(n=3, K=160, _plan=dict(v0_="0*5,1*70,0*9,1*2", v1_="1*40,0*1,1*6", v2_="1*3,0*2,1*90", r="1*30,0,1*2,0*3")),
          dict(n=2, K=300, _plan=dict(v0_="1*280,0*20", v1_="0*3,1*297", r="1*30,0*1")), dict(n=2, K=300, _plan=dict(v0_="0*3,1*297", v1_="1*290,0*10", r="1*30,0*1")),
          dict(n=7, K=4), dict(n=9, K=3),
          dict(n=3, K=14, _tier="thorough"), dict(n=8, K=8, _tier="thorough")])
def arbiter(m, n, K, domain="sync", w=8, extra=()):
    from amlib.stream.arbiter import StreamArbiter
    from amlib.stream import StreamInterface
    d = StreamArbiter(**given(DOMAIN, domain=domain), **_typed(w, extra))
    ss = [StreamInterface(**given(STREAM, name="s%d" % i, payload_width=w, **_fields(extra))) for i in range(n)]
    for s in ss:
        d.add_stream(s)
    h = m.elab(d, domain)
    F = ("payload", "first", "last") + tuple(f for f, _ in extra)
    served = [Z1] * n
    for k in range(K):
        vs = [_drive(m, h, s, k, i, w, extra) for i, s in enumerate(ss)]
        r = m.input("r%d" % k)
        h.set(d.source.ready, 1)
        own = [h.get(s.ready) for s in ss]          # who would be acknowledged if the consumer were ready
        h.set(d.source.ready, r)
        ov = h.get(d.source.valid)
        got = {f: h.get(d.source[f]) for f in F}
        rdy = [h.get(s.ready) for s in ss]
        idle = h.get(d.idle)
        anyv = lor(*[v["valid"] for v in vs])
        # which stream is connected is visible through ready (when the consumer is ready)
        acc = [land(v["valid"], x) for v, x in zip(vs, rdy)]
        m.check("a transfer on the output is a transfer of exactly one stream",
                iff(land(ov, r), lor(*acc)))
        for i in range(n):
            for j in range(i):
                m.check("at most one stream is acknowledged", lnot(land(rdy[i], rdy[j])))
            m.check("an accepted word appears unaltered on the output",
                    implies(land(own[i], vs[i]["valid"]), land(*[got[f].eq(vs[i][f]) for f in F])))
            m.check("ready only from the consumer", iff(rdy[i], land(own[i], r)))
            m.check("valid is the connected stream's", implies(own[i], iff(ov, vs[i]["valid"])))
        shown = lor(*[land(v["valid"], *[got[f].eq(v[f]) for f in F]) for v in vs])
        m.check("the output never invents data", implies(ov, shown))
        m.check("idle exactly when no stream wants to send", iff(idle, lnot(anyv)))
        if k:
            for i in range(n):
                m.check("a burst is not interrupted", implies(land(pown[i], pvs[i]["valid"], vs[i]["valid"]), land(ov, own[i], *[got[f].eq(vs[i][f]) for f in F])))
                others = [pvs[j]["valid"] for j in range(i)]
                m.check("with the output free the first waiting stream in order of addition is connected",
                        implies(land(lnot(pov), pvs[i]["valid"], lnot(lor(*others)) if others else O1, vs[i]["valid"]),
                                land(ov, own[i], *[got[f].eq(vs[i][f]) for f in F])))
        pown, pvs, pov = own, vs, ov
        served = [lor(a, b) for a, b in zip(served, acc)]
        h.tick()
    m.cover("every stream served" if n <= 2 else "two streams served", land(*served[:2]) if n > 1 else served[0])


# ---------------------------------------------------------------- generators

def _stream_type(vw, default=8):
    from amlib.stream import StreamInterface
    return lambda payload_width=default: StreamInterface(**given(STREAM, payload_width=payload_width, valid_width=vw))


_H = b"HELLO, WORLD?..."


@harness("C19", "constant stream generator from reset: start, ready, start position and (while idle) the maximum length are arbitrary in "
         "every cycle; data of 1 to 9 words of 4 to 32 bits, both byte orders, one valid bit per word or per byte; K cycles",
         [dict(data=_H[:5], K=12, ml=4), dict(data=_H[:4], K=10, ml=None), dict(data=_H[:1], K=7, ml=2), dict(data=_H[:8], K=13, ml=3),
          dict(data=_H[:9], K=12, ml=16, start0=True),
          dict(data=_H[:7], K=10, ml=4, w=32, vw=4), dict(data=_H[:8], K=10, ml=4, w=32, vw=4, end="big"), dict(data=_H[:7], K=9, ml=None, w=16, vw=2),
          dict(data=_H[:6], K=9, ml=None, w=32, vw=1), dict(data=_H[:6], K=9, ml=5, w=16, vw=1), dict(data=_H[:11], K=9, ml=16, w=32, vw=4),
          dict(data=(0x123, 0xfff, 0x800, 7, 0), K=10, ml=None, w=12), dict(data=(3, 0xa, 5), K=9, ml=3, w=4),
          dict(data=_H + _H[:4], K=9, ml=3, w=32, vw=4), dict(data=_H + _H[:7], K=9, ml=4, w=32, vw=1, end="big"), dict(data=_H[:12], K=9, ml=3, w=24, vw=3), dict(data=_H[:10], K=10, ml=3),
          dict(data=_H[:3], K=8, ml=3, domain="usb"), dict(data=_H[:7], K=9, ml=4, w=16, vw=2, by_type=True), dict(data=(0x1234, 0x8001, 0xffff), K=9, ml=None, w=17, by_type=True),
          dict(data=bytes((i * 37 + 5) % 256 for i in range(300)), K=760, ml=9, start0=True, _plan=dict(start="0,1,0*2", ml="511,300,400", rdy="1*40,0,1*7,0*3")),
          dict(data=bytes((i * 37 + 5) % 256 for i in range(70)), K=190, ml=7, _plan=dict(start="1", sp="3,0,69,65,90", ml="60,65,1,127", rdy="1*9,0,1*7,0*3")),
          dict(data=bytes((i * 91 + 5) % 256 for i in range(130)), K=90, ml=8, w=32, vw=4, _plan=dict(start="1", sp="0,5,31,32,0,7", ml="255,129,130,30,31,3", rdy="1*9,0,1*7,0*3")),
          dict(data=tuple((i * 1000003 + 5) % 2 ** 20 for i in range(40)), K=100, ml=None, w=20, _plan=dict(start="0*5,1", sp="0,17,39,63", rdy="1*19,0*7,1")),
          *[dict(data=bytes((i * 37 + 5) % 256 for i in range(i)), K=2 * i + 16, ml=None if i % 2 else 6, _plan=dict(start="1", sp="0,0,%d" % (i // 2), ml="63,%d,%d" % (i, i - 1), rdy="1*5,0")) for i in (2, 3, 6, 10, 12, 15, 16, 17, 20, 31, 32, 33)],
          dict(data=_H[:13], K=26, ml=5, _tier="thorough"), dict(data=_H[:15], K=16, ml=5, w=32, vw=4, _tier="thorough"),
          dict(data=_H[:15], K=16, ml=5, w=24, vw=3, _tier="thorough")])
def constant_generator(m, data, K, ml, w=8, vw=1, end="little", domain="sync", start0=False, by_type=False):
    from amlib.stream.generator import ConstantStreamGenerator
    kw = dict(max_length_width=ml) if ml else {}
    if w != 8 and not by_type:
        kw["data_width"] = w
    d = ConstantStreamGenerator(data, **given(GEN, stream_type=_stream_type(vw, w if by_type else 8), data_endianness=end, domain=domain, **kw))
    h = m.elab(d, domain)
    bpw = (w + 7) // 8
    if isinstance(data, bytes) and w > 8:
        chunks = [data[i:i + bpw] for i in range(0, len(data), bpw)]
        words = [int.from_bytes(c, end) for c in chunks]
        tail = len(chunks[-1])
    else:
        words, tail = list(data), vw
    n = len(words)
    # model
    P = 10
    busy, fin = Z1, Z1
    pos, startpos = const(0, P), const(0, P)
    sent = const(0, 20)
    cur_ml = const(0, ml or 1)
    transfers = const(0, 8)
    spw = len(d.start_position)
    for k in range(K):
        st, rdy = m.input("start%d" % k), m.input("rdy%d" % k)
        sp = m.input("sp%d" % k, spw) if spw and not start0 else const(0, max(spw, 1))
        h.set(d.start, st); h.set(d.stream.ready, rdy)
        if spw:
            h.set(d.start_position, sp)
        if ml:
            mlv = ite(lor(busy, fin), cur_ml, m.input("ml%d" % k, ml))
            h.set(d.max_length, mlv)
            cur_ml = mlv
            L = t.zext(mlv, 20)
        else:
            L = const(1 << 16, 20)
        v, p, f, la, done = h.get(d.stream.valid), h.get(d.stream.payload), h.get(d.stream.first), h.get(d.stream.last), h.get(d.done)
        atend = pos.eq(n - 1)
        bymax = L.ule(sent + bpw)
        last = lor(atend, bymax)
        nb = const(vw if vw > 1 else 1, 8)           # valid bytes of this word
        if vw > 1:
            lim = ite(atend, const(tail, 20), const(vw, 20))
            rest = L - sent
            lim = ite(rest.ult(lim), rest, lim)
            mask = t.concat(*[const(i, 20).ult(lim) for i in range(vw)])
            m.check("valid covers exactly the bytes of the word", implies(busy, v.eq(mask)))
            lastok = last
        else:
            m.check("valid while words are due", implies(busy, v.eq(1)))
        m.check("nothing is sent without a start", implies(lnot(busy), v.eq(0)))
        m.check("payload is the word at the position", implies(busy, p.eq(t.select([const(x, w) for x in words], pos))))
        m.check("first marks exactly the first word sent", implies(busy, iff(f, pos.eq(startpos))))
        m.check("last marks exactly the last word sent", implies(busy, iff(la, last)))
        m.check("done once after the last word is accepted", iff(done, fin))
        if ml and isinstance(data, bytes):
            m.check("output length is the smaller of data and limit",
                    t.zext(h.get(d.output_length), 20).eq(ite(L.ult(len(data)), L, const(len(data), 20))))
        go = land(lnot(busy), lnot(fin), st, L.ne(0))
        take = land(busy, rdy)
        fin_n = land(take, last)
        spn = t.zext(sp, 12)
        spn = ite(spn.ult(n), spn, const(n - 1, 12))[0:P]
        transfers = transfers + t.zext(fin_n, 8)
        pos = ite(go, spn, ite(land(take, lnot(last)), pos + 1, pos))
        startpos = ite(go, spn, startpos)
        sent = ite(go, const(0, 20), ite(take, sent + bpw, sent))
        busy = ite(go, O1, ite(fin_n, Z1, busy))
        fin = fin_n
        h.tick()
    m.cover("two transfers", transfers.ugt(1))


@harness("C20", "stream serializer from reset: start and ready arbitrary in every cycle, data and length limit arbitrary and held while a "
         "stream runs", [dict(n=4, K=11, ml=None), dict(n=5, K=12, ml=3), dict(n=1, K=7, ml=None), dict(n=3, K=9, ml=8, w=12), dict(n=8, K=12, ml=4),
                         dict(n=2, K=8, ml=1), dict(n=3, K=9, ml=2, domain="usb"), dict(n=7, K=24, ml=4, _tier="thorough"),
                         *[dict(n=i, K=2 * i + 14, ml=None if i % 2 else 5, _plan=dict(start="1", ml="31,%d,%d" % (i, i - 1), rdy="1*5,0")) for i in (2, 3, 6, 9, 10, 12, 13, 15, 16, 17, 18, 32)],
                         dict(n=20, K=70, ml=5, _plan=dict(start="1", ml="31,20,19,17,1", rdy="1*9,0,1*7,0*3")), dict(n=33, K=90, ml=None, w=16, _plan=dict(start="0*3,1", rdy="1*19,0*3,1"))])
def serializer(m, n, K, ml, w=8, domain="sync"):
    from amlib.stream.generator import StreamSerializer
    d = StreamSerializer(n, **given(GEN, data_width=w, domain=domain, **(dict(max_length_width=ml) if ml else {})))
    h = m.elab(d, domain)
    busy = fin = Z1
    pos = const(0, 6)
    data = [const(0, w)] * n
    L = const(0, 12)
    transfers = const(0, 8)
    for k in range(K):
        st, rdy = m.input("start%d" % k), m.input("rdy%d" % k)
        h.set(d.start, st); h.set(d.stream.ready, rdy)
        hold = lor(busy, fin)
        data = [ite(hold, data[i], m.input("d%d_%d" % (i, k), w)) for i in range(n)]
        for i in range(n):
            h.set(d.data[i], data[i])
        if ml:
            L = ite(hold, L, t.zext(m.input("ml%d" % k, ml), 12))
            h.set(d.max_length, L[0:ml])
        else:
            L = const(n, 12)
        v, p, f, la, done = h.get(d.stream.valid), h.get(d.stream.payload), h.get(d.stream.first), h.get(d.stream.last), h.get(d.done)
        P = t.zext(pos, 12)
        last = lor(pos.eq(n - 1), L.ule(P + 1))
        m.check("valid exactly while words are due", iff(v, busy))
        m.check("payload in array order", implies(busy, p.eq(t.select(data, pos))))
        m.check("first marks the first word", iff(f, land(busy, pos.eq(0))))
        m.check("last marks the last word", iff(la, land(busy, last)))
        m.check("done once after the last word is accepted", iff(done, fin))
        go = land(lnot(busy), lnot(fin), st, L.ne(0))
        take = land(busy, rdy)
        fin_n = land(take, last)
        pos = ite(go, const(0, 6), ite(land(take, lnot(last)), pos + 1, pos))
        busy = ite(go, O1, ite(fin_n, Z1, busy))
        fin = fin_n
        transfers = transfers + t.zext(fin_n, 8)
        h.tick()
    m.cover("two transfers", transfers.ugt(1))


@harness("C21", "packet list streamer from reset with the listed packets (all non-empty): start and ready arbitrary in every cycle for K "
         "cycles, then ready held until the list has been sent", 
         [dict(lens=(3, 1, 2), K=14), dict(lens=(4,), K=10), dict(lens=(1,), K=8), dict(lens=(4, 3, 1), K=14), dict(lens=(2, 2), K=12),
          dict(lens=(1, 1, 1), K=12), dict(lens=(3, 2), K=11, w=16), dict(lens=(2, 3), K=11, w=12), dict(lens=(3, 2), K=11, w=20, by_type=True), dict(lens=(5, 2, 1, 8), K=14), *[dict(lens=L, K=2 * sum(L) + 20, _plan=dict(start="1", rdy="1*5,0")) for L in ((6,), (9, 10), (16, 1), (8, 8, 8), (7, 9, 16), (5, 5, 5, 5, 5), (31, 2), (1, 32))], dict(lens=(20, 1, 33, 7, 64), K=170, _plan=dict(start="0*3,1", rdy="1*19,0*3,1")), dict(lens=(2,) * 20, K=120, w=24, _plan=dict(start="1", rdy="1*3,0")), dict(lens=(2, 5, 4, 3, 7), K=40, _tier="thorough")])
def packet_list(m, lens, K, w=8, by_type=False):
    from amlib.stream.generator import PacketListStreamer
    packets, c = [], 0
    for i, L in enumerate(lens):
        packets.append([((0x9d * (c + j) + 0x31 * i + 0x4b) * 0x101) & ((1 << w) - 1) for j in range(L)])
        c += L
    d = PacketListStreamer(packets, **(dict(stream_type=_stream_type(1, w)) if by_type else dict(data_width=w) if w != 8 else {}))
    h = m.elab(d)
    m.check("the stream has the requested width", const(int(len(d.stream.payload) == w), 1))
    flat = [(x, j == 0, j == len(p) - 1) for p in packets for j, x in enumerate(p)]
    N = len(flat)
    busy = Z1
    pos = const(0, 9)
    lists = const(0, 6)
    quiet = const(0, 4)
    drain = 2 * N + 4 * len(lens) + 6
    for k in range(K + drain):
        st = m.input("start%d" % k) if k < K else Z1
        rdy = m.input("rdy%d" % k) if k < K else O1
        h.set(d.start, st); h.set(d.stream.ready, rdy)
        v, p, f, la, done = h.get(d.stream.valid), h.get(d.stream.payload), h.get(d.stream.first), h.get(d.stream.last), h.get(d.done)
        m.check("nothing is sent without a start", implies(v, busy))
        m.check("no more words than the list has", implies(v, pos.ult(N)))
        m.check("payload in order", implies(v, p.eq(t.select([const(x, w) for x, _, _ in flat], pos))))
        m.check("first marks the packet's first word", implies(v, iff(f, t.select([const(int(a), 1) for _, a, _ in flat], pos))))
        m.check("last marks the packet's last word", implies(v, iff(la, t.select([const(int(a), 1) for _, _, a in flat], pos))))
        m.check("done only after the whole list", implies(done, land(busy, pos.eq(N))))
        take = land(v, rdy)
        quiet = ite(land(busy, lnot(v), lnot(done)), quiet + 1, const(0, 4))
        m.check("no stall between words", quiet.ult(6))
        go = land(lnot(busy), st)
        pos = ite(go, const(0, 9), ite(take, pos + 1, pos))
        busy = ite(go, O1, ite(done, Z1, busy))
        lists = lists + t.zext(done, 6)
        h.tick()
    m.check("every started list is finished", lnot(busy))
    m.cover("a list sent", lists.ne(0))
