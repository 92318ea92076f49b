"""C36: the bit sequence type.  Plain Python, executed symbolically (symhdl.pysym); the numbers are symbolic, lengths are given."""
from symhdl.runner import harness
from symhdl import terms as t
from symhdl.terms import land, lor, lnot, ite, const, implies, iff
from symhdl.pysym import Calls, same, low, SymInt, SymStr

Z1 = const(0, 1)
O1 = const(1, 1)
MOD = "amlib.utils.bits"


def _is(b, v, n):
    """the bits object b has length n and value v"""
    return land(const(int(len(b) == n), 1), same(b.to_int(), v) if n else same(b.to_int(), Z1))


def _show(n):
    return lambda b: [const(len(b), 8), low(b.to_int(), max(n, 1))]


def _pad(v, w):
    return t.zext(v, w) if v.w < w else v


def _val(m, name, n):
    return m.input(name, n) if n else Z1


def _truth(x):
    """a truth value, symbolic or not, as a term"""
    from symhdl.pysym import _cond
    return _cond(x)


def _slices(n):
    return [(i, j) for i in range(-n, n + 1) for j in range(-n, n + 2)]


@harness("C36", "making sequences from integers of either sign, digits, octets in both orders and iterables, and back; lengths 0 to 13, 32, 64, 72 and 130, every value",
         [dict(n=n) for n in (0, 1, 2, 5, 8, 9, 13, 32, 64, 72, 130)])
def conversions(m, n):
    C = Calls(m, MOD)
    m.note("bits.from_int, from_str, from_iter, from_bytes, __new__, to_int, to_str, to_bytes, __iter__, __len__ (amlib/utils/bits.py)")
    v = _val(m, "v", n)
    nb = (n + 7) // 8
    full = _pad(v, 8 * nb) if nb else None
    octets = [t.extract(full, 8 * i, 8) for i in range(nb)]
    digits = [v[i] for i in range(n)] if n else []
    S = _show(n)
    C.call("integer", lambda M: M.bits(C.int(v), n), S, lambda b: [("value", _is(b, v, n))])
    for e, sg in ((3, False), (1, True), (4, True)):
        w = m.input("w%d%d" % (e, sg), n + e)
        C.call("integer with more digits, signed %s, %d" % (sg, e), lambda M: M.bits(C.int(w, sg), n), S, lambda b: [("low digits", _is(b, t.extract(w, 0, n) if n else Z1, n))])
    if n <= 13:
        C.call("integer without length", lambda M: M.bits(C.int(v)), S,
               lambda b: [("value", same(b.to_int(), v)), ("shortest", O1 if len(b) == 0 else _truth(b.to_int() >= (1 << (len(b) - 1)))),
                          ("long enough", _truth(b.to_int() < (1 << len(b))))])
        s = m.input("s", n + 1)
        C.call("integer of any sign without length", lambda M: M.bits(C.int(s, True)), S, lambda b: [], raises=(ValueError, s[n]))
    C.call("digits", lambda M: M.bits(C.str(digits[::-1])), S, lambda b: [("value", _is(b, v, n))])
    seps = [" ", "_", "\t", "\n", "\r\n", "  ", " _ ", "\v", "\f"]
    text = [x for i, d in enumerate(digits[::-1]) for x in (seps[i % len(seps)], d)] + ["\n "]
    C.call("digits with space between them", lambda M: M.bits(C.spaced(text)), S, lambda b: [("value", _is(b, v, n))])
    C.call("digits with a sign", lambda M: M.bits(C.spaced(["+"] + digits[::-1])) if n else M.bits(""), S, lambda b: [("value", _is(b, v, n))])
    C.call("to digits", lambda M: M.bits(C.int(v), n).to_str(), lambda r: [const(len(r), 8)],
           lambda r: [("digits", const(int(r == ""), 1) if not n else _truth(SymStr.of(r) == SymStr(digits[::-1])))])
    C.call("iterable", lambda M: M.bits([C.int(d) for d in digits]), S, lambda b: [("value", _is(b, v, n))])
    C.call("to iterable", lambda M: list(M.bits(C.int(v), n)), lambda r: [low(x, 2) for x in r],
           lambda r: [("digits", land(const(int(len(r) == n), 1), *[same(x, d) for x, d in zip(r, digits)]))])
    C.call("copy", lambda M: M.bits(M.bits(C.int(v), n)), S, lambda b: [("value", _is(b, v, n))])
    for k in (n // 2, n + 3):
        C.call("copy to length %d" % k, lambda M: M.bits(M.bits(C.int(v), n), k), _show(k), lambda b: [("value", _is(b, _pad(v, k) if k >= n else t.extract(v, 0, max(k, 1)) if k else Z1, k))])
    for order, os in (("little", octets), ("big", octets[::-1])):
        C.call("octets " + order, lambda M: M.bits(C.bytes(os), n, byteorder=order), S, lambda b: [("value", _is(b, v, n))])
        C.call("from_bytes " + order, lambda M: M.bits.from_bytes(C.bytes(os), length=n, byteorder=order), S, lambda b: [("value", _is(b, v, n))])
        C.call("to octets " + order, lambda M: M.bits(C.int(v), n).to_bytes(order), lambda r: [low(x, 8) for x in r],
               lambda r: [("octets", land(const(int(len(r) == nb), 1), *[same(x, o) for x, o in zip(r, os)]))])
    C.call("octets without order", lambda M: M.bits.from_bytes(M.bits(C.int(v), n).to_bytes(), n), S, lambda b: [("value", _is(b, v, n))])
    C.call("truth", lambda M: bool(M.bits(C.int(v), n)), lambda r: [], lambda r: [("not empty", const(int(r == (n > 0)), 1))])
    m.cover("highest digit set", v[v.w - 1] if n else O1)


@harness("C36", "digits and slices from every position, negative ones included, and from some outside (refused or zero), lengths 1 to 11, every value; reversal; repetition; comparison with "
         "every sequence of the same and of other lengths",
         [dict(n=n) for n in (1, 2, 5, 8, 11)])
def parts(m, n):
    C = Calls(m, MOD)
    m.note("bits.__getitem__, reversed, __mul__, __eq__ (amlib/utils/bits.py)")
    v = m.input("v", n)
    for i in range(-n, n):
        C.call("digit %d" % i, lambda M: M.bits(C.int(v), n)[i], lambda r: [low(r, 2)], lambda r: [("digit", same(r, v[i % n]))])
    def outside(M, i):
        try:
            return M.bits(C.int(v), n)[i]
        except (ValueError, IndexError):
            return 0
    for i in (-n - 1, -2 * n, -2 * n - 1, n, n + 1, 2 * n, 64 + n):
        C.call("position %d outside" % i, lambda M: outside(M, i), lambda r: [low(r, 2)], lambda r: [("no digit of the sequence", same(r, Z1))])
    for i, j in _slices(n) if n <= 5 else [(0, n), (0, 0), (2, 7), (-3, n), (1, -1), (n, n), (4, 2), (-5, -2), (n - 1, n + 1)]:
        a, b_, _ = slice(i, j).indices(n)
        k = max(0, b_ - a)
        C.call("slice %d:%d" % (i, j), lambda M: M.bits(C.int(v), n)[i:j], _show(n), lambda b: [("part", _is(b, t.extract(v, a, k) if k else Z1, k))])
    C.call("open slices", lambda M: M.bits(C.int(v), n)[n // 2:] + M.bits(C.int(v), n)[:n // 2], _show(n),
           lambda b: [("halves", _is(b, t.concat(t.extract(v, n // 2, n - n // 2), t.extract(v, 0, n // 2)) if n > 1 else v, n))])
    if n <= 8:
        C.call("reversed", lambda M: M.bits(C.int(v), n).reversed(), _show(n), lambda b: [("mirror", _is(b, t.concat(*[v[n - 1 - i] for i in range(n)]), n))])
    for k in (0, 1, 3):
        for side in "lr":
            C.call("repeated %d %s" % (k, side), lambda M: M.bits(C.int(v), n) * k if side == "r" else k * M.bits(C.int(v), n), _show(n * k),
                   lambda b: [("copies", _is(b, t.concat(*[v] * k) if k else Z1, n * k))])
    u = m.input("u", n)
    C.call("equal", lambda M: M.bits(C.int(v), n) == M.bits(C.int(u), n), lambda r: [_truth(r)], lambda r: [("exactly when the same", iff(_truth(r), v.eq(u)))])
    C.call("longer", lambda M: M.bits(C.int(v), n) == M.bits(C.int(v), n + 1), lambda r: [_truth(r)], lambda r: [("not equal", lnot(_truth(r)))])
    C.call("digits", lambda M: M.bits(C.int(v), n) == C.str([u[i] for i in range(n - 1, -1, -1)]), lambda r: [_truth(r)], lambda r: [("exactly when the same", iff(_truth(r), v.eq(u)))])
    C.call("something else", lambda M: M.bits(C.int(v), n) == 1.5, lambda r: [_truth(r)], lambda r: [("not equal", lnot(_truth(r)))])
    m.cover("ends differ", lnot(iff(v[0], v[n - 1])) if n > 1 else v)


@harness("C36", "concatenation, and, or, exclusive or of sequences of lengths 0 to 9 and 32, every pair of values; with integers, digits and iterables on either side",
         [dict(a=a, b=b) for a, b in ((0, 3), (3, 0), (0, 0), (1, 1), (3, 4), (4, 4), (5, 2), (2, 6), (9, 8), (32, 20))])
def pairs(m, a, b):
    C = Calls(m, MOD)
    m.note("bits.__add__, __and__, __or__, __xor__ and their reflected versions (amlib/utils/bits.py)")
    x, y = _val(m, "x", a), _val(m, "y", b)
    n = max(a, b)
    X, Y = _pad(x, max(n, 1)), _pad(y, max(n, 1))
    ydigits = [y[i] for i in range(b)] if b else []
    cat = t.concat(x, y) if a and b else x if a else y
    rcat = t.concat(y, x) if a and b else x if a else y
    ops = [("add", lambda p, q: p + q, cat, rcat, a + b), ("and", lambda p, q: p & q, X & Y, X & Y, n), ("or", lambda p, q: p | q, X | Y, X | Y, n), ("xor", lambda p, q: p ^ q, X ^ Y, X ^ Y, n)]
    for name, f, want, rwant, ln in ops:
        C.call(name, lambda M: f(M.bits(C.int(x), a), M.bits(C.int(y), b)), _show(a + b), lambda r: [("result", _is(r, want, ln))])
        C.call(name + " digits", lambda M: f(M.bits(C.int(x), a), C.str(ydigits[::-1])), _show(a + b), lambda r: [("result", _is(r, want, ln))])
        C.call(name + " iterable", lambda M: f(M.bits(C.int(x), a), [C.int(d) for d in ydigits]), _show(a + b), lambda r: [("result", _is(r, want, ln))])
        if b <= 9:
            C.call("iterable " + name, lambda M: f(tuple(C.int(d) for d in ydigits), M.bits(C.int(x), a)), _show(a + b), lambda r: [("result", _is(r, rwant, ln))])
        if b <= 6:
            # an integer stands for its shortest sequence
            def shortest(r, side, name=name):
                # y's length on this path
                out = []
                for k in range(b + 1):
                    here = land(lnot(_any(y, k)), O1 if k == 0 else y[k - 1])
                    L = a + k if name == "add" else max(a, k)
                    yy = t.extract(y, 0, k) if k else None
                    if name == "add":
                        w = (t.concat(x, yy) if side == "r" else t.concat(yy, x)) if a and k else x if a else yy if k else Z1
                    else:
                        w = {"and": X & Y, "or": X | Y, "xor": X ^ Y}[name]
                    out.append(("result for an integer of %d digits" % k, implies(here, land(const(int(len(r) == L), 1), same(r.to_int(), w)))))
                return out
            C.call(name + " integer", lambda M: f(M.bits(C.int(x), a), C.int(y)), _show(a + b), lambda r: shortest(r, "r"))
            C.call("integer " + name, lambda M: f(C.int(y), M.bits(C.int(x), a)), _show(a + b), lambda r: shortest(r, "l"))
    same_ = land(const(int(a == b), 1), X.eq(Y))
    for name, o in (("sequence", lambda M: M.bits(C.int(y), b)), ("digits", lambda M: C.str(ydigits[::-1])), ("iterable", lambda M: [C.int(d) for d in ydigits])):
        C.call("equal " + name, lambda M: M.bits(C.int(x), a) == o(M), lambda r: [_truth(r)], lambda r: [("exactly when of one length and value", iff(_truth(r), same_))])
        C.call("unequal " + name, lambda M: M.bits(C.int(x), a) != o(M), lambda r: [_truth(r)], lambda r: [("exactly when not equal", iff(_truth(r), lnot(same_)))])
    m.cover("both set", land(_any(x, 0), _any(y, 0)) if a and b else O1)


def _any(v, k):
    """any digit from k upwards"""
    return t.any_bit(t.extract(v, k, v.w - k)) if k < v.w else Z1
