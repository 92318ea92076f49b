from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from props.defaults import given, DOMAIN


@harness("C01", "TransactionalizedFIFO from reset: every history of write/read/commit/discard of the stated number of cycles, "
         "data fully symbolic; commit and discard of the same side not in the same cycle. With pre, the history is preceded by that many "
         "entries passed through one by one, so that the buffer's end is crossed; with fill, by that many committed entries",
         [dict(depth=1, width=4, K=12), dict(depth=2, width=4, K=12), dict(depth=3, width=3, K=12),
          dict(depth=4, width=3, K=11), dict(depth=2, width=3, K=8, domain="usb"), dict(depth=1, width=1, K=8, pre=5),
          dict(depth=6, width=2, K=9, pre=4), dict(depth=7, width=2, K=9, pre=6, fill=4), dict(depth=8, width=3, K=9, pre=6, fill=5),
          dict(depth=8, width=2, K=9, pre=8, fill=7), dict(depth=16, width=2, K=8, pre=14, fill=14), dict(depth=15, width=33, K=7, pre=13, fill=12),
          dict(depth=32, width=2, K=7, pre=30, fill=29),
          dict(depth=5, width=8, K=300, _plan=dict(we="~1:80:97", re="~2:70:89", wc="~3:50:20,0,1", wd="0*20,1,0", rc="~4:60:23,0", rd="0*23,1")),
          dict(depth=16, width=8, K=300, _plan=dict(we="~5:80:61,0*40", re="~6:60:89,0*20", wc="~7:50:40,0,1", wd="0*40,1,0", rc="~8:60:33,0", rd="0*33,1")),
          dict(depth=64, width=16, K=420, _plan=dict(we="1*90,0*50", re="0*60,1*55,0*10", wc="1*61,0,0", wd="0*61,1,0", rc="0*9,1*34,0", rd="0*43,1")),
          dict(depth=5, width=2, K=12, _tier="thorough"), dict(depth=8, width=2, K=12, pre=6, fill=5, _tier="thorough"),
          dict(depth=64, width=2, K=8, pre=62, fill=61, _tier="thorough")])
def tfifo(m, depth, width, K, domain="sync", pre=0, fill=0):
    from amlib.utils.fifo import TransactionalizedFIFO
    d = TransactionalizedFIFO(**given(DOMAIN, width=width, depth=depth, domain=domain))
    h = m.elab(d, domain)

    def one(sig, val=1):
        h.set(sig, const(val, len(sig)))
        h.tick()
        h.set(sig, const(0, len(sig)))
    for sig in (d.write_en, d.write_commit, d.write_discard, d.write_data, d.read_en, d.read_commit, d.read_discard):
        h.set(sig, const(0, len(sig)))
    for i in range(pre + fill):
        h.set(d.write_data, const((i + 1) % (1 << width), width))
        one(d.write_en)
        one(d.write_commit)
        if i < pre:
            one(d.read_en)
            one(d.read_commit)
    h.tick()
    # reference: absolute positions (never wrap within K), content by absolute position
    P = 10
    zero = const(0, P)
    rc = rp = zero                     # committed/current read
    wc = wp = const(fill, P)           # committed/current write
    mem = [const((pre + i + 1) % (1 << width), width) for i in range(fill)] + [const(0, width)] * (K + 1)
    for k in range(K):
        we, wcm, wd = m.input("we%d" % k), m.input("wc%d" % k), m.input("wd%d" % k)
        re, rcm, rd = m.input("re%d" % k), m.input("rc%d" % k), m.input("rd%d" % k)
        x = m.input("x%d" % k, width)
        m.assume(lnot(land(wcm, wd)))
        m.assume(lnot(land(rcm, rd)))
        for s, v in ((d.write_en, we), (d.write_commit, wcm), (d.write_discard, wd), (d.write_data, x),
                     (d.read_en, re), (d.read_commit, rcm), (d.read_discard, rd)):
            h.set(s, v)
        full, empty = h.get(d.full), h.get(d.empty)
        space = t.zext(h.get(d.space_available), P)
        used = wp - rc
        m.check("full iff no room counted from the committed read position", iff(full, used.eq(depth)))
        m.check("empty iff every committed entry has been read", iff(empty, rp.eq(wc)))
        m.check("space_available is depth minus stored entries", space.eq(const(depth, P) - used))
        m.check("read data is the next committed entry in order",
                implies(lnot(empty), h.get(d.read_data).eq(t.select(mem, rp))))
        m.cover("full with entries read but not committed", land(full, rc.ult(rp)))
        m.cover("reader makes progress", land(lnot(empty), rp.ugt(0)))
        dow = land(we, used.ne(depth))
        dor = land(re, rp.ne(wc))
        mem = [ite(land(dow, wp.eq(i)), x, mem[i]) for i in range(len(mem))]
        nwp = ite(wd, wc, ite(dow, wp + 1, wp))
        nwc = ite(wcm, wp, wc)
        nrp = ite(rd, rc, ite(dor, rp + 1, rp))
        nrc = ite(rcm, rp, rc)
        wp, wc, rp, rc = nwp, nwc, nrp, nrc
        h.tick()
