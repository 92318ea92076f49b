"""C43: the CRC model.  Plain Python, executed symbolically (symhdl.pysym); register and data are symbolic, widths are given.

Oracle: the register after n bits is (register * x^n + data * x^width) mod the generator, computed digit by digit as polynomial remainders,
with the generators, seeds and masks of the published algorithms listed here."""
from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import const, ite
from symhdl.pysym import Calls, low, SymInt
from symhdl.pysym import same as _same

MOD = "amlib.test.crc"
# width, generator without its leading term, seed, reflected, mask, result for "123456789"
PUBLISHED = dict(
    CRC32=(32, 0x04C11DB7, 0xFFFFFFFF, True, 0xFFFFFFFF, 0xCBF43926),
    CRC16=(16, 0x8005, 0, True, 0, 0xBB3D),
    CRC16_USB=(16, 0x8005, 0xFFFF, True, 0xFFFF, 0xB4C8),
    CRC_CCITT=(16, 0x1021, 0xFFFF, False, 0, 0x29B1),
    CRC_HDLC=(16, 0x1021, 0xFFFF, True, 0xFFFF, 0x906E),
    CRC8_SMBUS=(8, 0x07, 0, False, 0, 0xF4),
    CRC24=(24, 0x864CFB, 0xB704CE, False, 0, 0x21CF02),
    CRC15=(15, 0x4599, 0, False, 0, 0x059E),
    CRC32C=(32, 0x1EDC6F41, 0xFFFFFFFF, True, 0xFFFFFFFF, 0xE3069283),
    CRC5_USB=(5, 0x05, 0x1F, True, 0x1F, 0x19),
    CRC64=(64, 0x1B, 0, True, 0, 0x46A5A9388A5BEFFE),
)


def mirror(v, w):
    return sum(((v >> i) & 1) << (w - 1 - i) for i in range(w))


def power(k, w, poly):
    """x^k modulo the generator"""
    r, full = 1, (1 << w) | poly
    for _ in range(k):
        r <<= 1
        if r >> w:
            r ^= full
    return r


def digits_of(b, memo={}):
    """the exclusive or b as (set of its parts, constant)"""
    r = memo.get(b.id)
    if r is None:
        if b.op == "k":
            r = (frozenset(), b.v)
        elif b.op == "xor":
            (p, u), (q, v) = digits_of(b.a[0]), digits_of(b.a[1])
            r = (p ^ q, u ^ v)
        elif b.op == "not":
            p, u = digits_of(b.a[0])
            r = (p, u ^ 1)
        else:
            r = (frozenset([b]), 0)
        memo[b.id] = r
    return r


def parity(parts):
    """exclusive or of one digit terms in one fixed order, so that equal sets give the same term"""
    acc, k = frozenset(), 0
    for p in parts:
        q, v = digits_of(p)
        acc, k = acc ^ q, k ^ v
    r = const(0, 1)
    for p in sorted(acc, key=lambda p: p.id):
        r = r ^ p
    return r ^ const(k, 1)


def canon(v):
    return t.concat(*[parity([v[i]]) for i in range(v.w)])


def remainder(reg, data, w, poly):
    """register and data as terms, highest power in the highest digit of the register, data in the order processed"""
    n = len(data)
    terms = [(reg[i], power(n + i, w, poly)) for i in range(w)] + [(d, power(w + n - 1 - k, w, poly)) for k, d in enumerate(data)]
    return t.concat(*[parity([x for x, p in terms if p >> i & 1]) for i in range(w)])


def same(x, v):
    """x has the value v; equal exclusive ors are made the same term first"""
    x = SymInt.of(x)
    return t.const(0, 1) if x is None else _same(SymInt(canon(x.t), x.s), canon(v))


def flip(v):
    return t.concat(*[v[i] for i in range(v.w - 1, -1, -1)])


def expect(reg, data, w, poly, reflected):
    return flip(remainder(flip(reg), data, w, poly)) if reflected else remainder(reg, data, w, poly)


def bits_of(word, n, low_first):
    return [word[i] for i in (range(n) if low_first else range(n - 1, -1, -1))]


def summary(w, poly, reflected):
    """takeBit as the first harness shows it to be, without its branch"""
    def takeBit(self, bit):
        v = canon(SymInt.of(self.value).to(w))
        self.value = SymInt(expect(v, [SymInt.of(bit).to(1)], w, poly, reflected))
    return takeBit


@harness("C43", "one data bit from every register value; one octet for algorithms of 5 and 8 bits, words of 1 and 3 bits, in either order, from every register value; every predefined algorithm "
         "but the 256 bit one, and others with their data reflected against the register; the polynomial given as a number or as exponents in any order",
         [dict(name=n) for n in PUBLISHED] + [dict(name=n, data_low_first=d) for n, d in (("CRC5_USB", False), ("CRC8_SMBUS", True), ("CRC16", False))]
         + [dict(name=n, poly_as=f) for n, f in (("CRC5_USB", "int"), ("CRC8_SMBUS", "int"), ("CRC32", "int"), ("CRC15", "int"), ("CRC24", "list"), ("CRC16", "list"))])
def register(m, name, data_low_first=None, poly_as=None):
    C = Calls(m, MOD)
    m.note("CrcRegister.__init__, takeBit, takeWord, getValue, getFinalValue, reset (amlib/test/crc.py)")
    w, poly, seed, refl, mask, _ = PUBLISHED[name]
    lf = refl if data_low_first is None else data_low_first

    def alg(M):
        if poly_as == "int":                      # in the order of the register, without the leading term
            return M.CrcAlgorithm(w, mirror(poly, w) if refl else poly, seed=seed, lsbFirst=refl, xorMask=mask)
        if poly_as == "list":                     # in any order
            return M.CrcAlgorithm(w, [i for i in range(w + 1) if ((1 << w) | poly) >> i & 1], name, seed, refl, xorMask=mask)
        if data_low_first is None:
            return getattr(M, name)
        return M.CrcAlgorithm(width=w, polynomial=tuple(i for i in range(w, -1, -1) if ((1 << w) | poly) >> i & 1), seed=seed, lsbFirst=refl,
                              lsbFirstData=data_low_first, xorMask=mask)
    reg = m.input("register", w)
    M_ = const(mask, w)

    def reg_of(M):
        return M.CrcRegister(alg(M), C.int(reg ^ M_))
    show = lambda r: [low(r, w)]
    C.call("new register", lambda M: M.CrcRegister(alg(M)).getValue(), show, lambda r: [("seed", same(r, const(seed, w)))])
    C.call("given value", lambda M: reg_of(M).getValue(), show, lambda r: [("value", same(r, reg))])
    C.call("final value", lambda M: reg_of(M).getFinalValue(), show, lambda r: [("masked", same(r, reg ^ M_))])

    def reset(M):
        r = reg_of(M)
        r.reset()
        return r.getValue()
    C.call("reset", reset, show, lambda r: [("seed", same(r, const(seed, w)))])
    b = m.input("bit", 1)

    def bit(M):
        r = reg_of(M)
        r.takeBit(C.int(b))
        return r.getValue()
    C.call("bit", bit, show, lambda r: [("remainder", same(r, expect(reg, [b], w, poly, refl)))])
    for n in (1, 3, 8) if w <= 8 else (1, 3):
        word = m.input("word%d" % n, n)

        def take(M):
            r = reg_of(M)
            r.takeWord(*([C.int(word)] + ([n] if n != 8 else [])))
            return r.getValue()
        C.call("word of %d" % n, take, show, lambda r: [("remainder", same(r, expect(reg, bits_of(word, n, lf), w, poly, refl)))])
    wide = m.input("wide", 11)
    C.call("higher bits ignored", lambda M: alg(M).calcWord(C.int(wide), 2, C.int(reg ^ M_)), show,
           lambda r: [("remainder", same(r, expect(reg, bits_of(wide, 2, lf), w, poly, refl) ^ M_))])
    m.cover("register and data differ", reg[0] ^ b)


@harness("C43", "strings of 0 to 8 octets and words of up to 40 bits from the seed, from every earlier result and in parts; every predefined algorithm; the bit step "
         "is replaced by what the register harness shows it to be",
         [dict(name=n) for n in PUBLISHED])
def message(m, name):
    C = Calls(m, MOD)
    m.note("CrcAlgorithm.calcString, calcWord, CrcRegister.takeString (amlib/test/crc.py)")
    w, poly, seed, refl, mask, check = PUBLISHED[name]
    if not m.concrete:
        C.mod.CrcRegister.takeBit = summary(w, poly, refl)
    octets = [m.input("octet%d" % i, 8) for i in range(8)]
    prev = m.input("previous", w)
    M_ = const(mask, w)
    show = lambda r: [low(r, w)]
    data = lambda os: [b for o in os for b in bits_of(o, 8, refl)]
    for n in range(9):
        C.call("string of %d" % n, lambda M: getattr(M, name).calcString(C.text(octets[:n])), show,
               lambda r: [("remainder", same(r, expect(const(seed, w), data(octets[:n]), w, poly, refl) ^ M_))])
    C.call("continued", lambda M: getattr(M, name).calcString(C.text(octets[:2]), C.int(prev)), show,
           lambda r: [("remainder", same(r, expect(prev ^ M_, data(octets[:2]), w, poly, refl) ^ M_))])
    C.call("in parts", lambda M: getattr(M, name).calcString(C.text(octets[1:]), getattr(M, name).calcString(C.text(octets[:1]))), show,
           lambda r: [("remainder", same(r, expect(const(seed, w), data(octets), w, poly, refl) ^ M_))])
    digits = [const(ord(c), 8) for c in "123456789"]
    C.call("published check value", lambda M: getattr(M, name).calcString("123456789"), show,
           lambda r: [("published", same(r, const(check, w))), ("remainder", same(r, expect(const(seed, w), data(digits), w, poly, refl) ^ M_))])
    for n in (11, 40):
        word = m.input("word%d" % n, n)
        C.call("word of %d" % n, lambda M: getattr(M, name).calcWord(C.int(word), n), show,
               lambda r: [("remainder", same(r, expect(const(seed, w), bits_of(word, n, refl), w, poly, refl) ^ M_))])
    # a message followed by its own CRC, sent in the algorithm's bit order, leaves the same register for every message
    word = m.input("message", 16)
    if mask == 0:
        def own(M):
            a = getattr(M, name)
            c = a.calcWord(C.int(word), 16)
            both = (C.int(word) | (c << 16)) if refl else ((C.int(word) << w) | c)
            return a.calcWord(both, 16 + w)
        C.call("with its own remainder", own, show, lambda r: [("zero", same(r, const(0, w)))])
    m.cover("octets differ", t.any_bit(octets[0] ^ octets[1]))


@harness("C43", "reflecting values of 1 to 16 bits, every value; reflected and reversed algorithms against polynomial remainders for words of 8 and 16 bits; "
         "the reversed reflected algorithm undoes the algorithm; 16 bit and smaller algorithms without mask; other_order: their data reflected against the register",
         [dict(name=n) for n in ("CRC_CCITT", "CRC16", "CRC8_SMBUS", "CRC15")] + [dict(name=n, other_order=True) for n in ("CRC16", "CRC8_SMBUS")])
def transformed(m, name, other_order=False):
    C = Calls(m, MOD)
    m.note("reflect, CrcAlgorithm.reflect, CrcAlgorithm.reverse (amlib/test/crc.py)")
    w, poly, seed, refl, mask, _ = PUBLISHED[name]
    show = lambda r: [low(r, w)]

    def base(M):
        if not other_order:
            return getattr(M, name)
        return M.CrcAlgorithm(width=w, polynomial=tuple(i for i in range(w, -1, -1) if ((1 << w) | poly) >> i & 1), seed=seed, lsbFirst=refl,
                              lsbFirstData=not refl, xorMask=mask)
    v = m.input("value", w)
    for n in (1, 3, w):
        C.call("reflect %d" % n, lambda M: M.reflect(C.int(t.extract(v, 0, n)), n), lambda r: [low(r, n)], lambda r: [("mirrored", same(r, flip(t.extract(v, 0, n))))])
    reg, word = m.input("register", w), m.input("word", w)
    rpoly = mirror((1 << w) | poly, w + 1) & ((1 << w) - 1)

    def with_summary(p, r):
        if not m.concrete:
            C.mod.CrcRegister.takeBit = summary(w, p, r)
    real_bit = getattr(C.mod.CrcRegister, "takeBit")
    for what, f, p, r in (("reflected", lambda a: a.reflect(), poly, not refl), ("reversed", lambda a: a.reverse(), rpoly, refl),
                          ("both", lambda a: a.reverse().reflect(), rpoly, not refl)):
        b = m.input("bit " + what, 1)
        C.call(what + ", one bit", lambda M: f(base(M)).calcWord(C.int(b), 1, C.int(reg)), show, lambda x: [("remainder", same(x, expect(reg, [b], w, p, r)))])
        with_summary(p, r)
        C.call(what, lambda M: f(base(M)).calcWord(C.int(word), w, C.int(reg)), show,
               lambda x: [("remainder", same(x, expect(reg, bits_of(word, w, r ^ other_order), w, p, r)))])
        C.mod.CrcRegister.takeBit = real_bit
    C.call("original unchanged", lambda M: (base(M).reverse(), base(M).reflect(), base(M).calcWord(1, 1, C.int(reg)))[2], show,
           lambda x: [("remainder", same(x, expect(reg, [const(1, 1)], w, poly, refl)))])

    def undo(M):
        a = base(M)
        b = a.reverse().reflect()
        if m.concrete:
            return a.calcWord(b.calcWord(C.int(word), w, 0), w, 0)
        M.CrcRegister.takeBit = summary(w, rpoly, not refl)
        c = b.calcWord(C.int(word), w, 0)
        M.CrcRegister.takeBit = summary(w, poly, refl)
        return a.calcWord(c, w, 0)
    if not other_order:
        C.call("undone", undo, show, lambda x: [("same word", same(x, word))])
    C.mod.CrcRegister.takeBit = real_bit
    m.cover("asymmetric", v[0] ^ v[w - 1])
