"""Bit-vector term DAG: hash-consed, simplified on construction, translated to z3 for queries.

Every term has a width in bits; truth values are 1-bit terms. Constants fold, so a symbolic
execution whose control is concrete stays concrete and only the data stays symbolic.
"""
import sys
sys.setrecursionlimit(1000000)

_table = {}
_LEAF_LIMIT = 96


class Width(AssertionError):
    """values of widths that do not fit together: a port of the design is not as wide as the documentation has it"""


class T:
    __slots__ = ("op", "w", "a", "v", "id", "leaves", "__weakref__")

    def __bool__(self):
        raise TypeError("symbolic term used as a Python truth value: %s" % (show(self),))

    def __repr__(self):
        return "T<%s>" % show(self, 3)

    # conveniences for harnesses (modular arithmetic; ints are coerced to our width)
    def _c(self, o):
        return o if isinstance(o, T) else const(o, self.w)

    def __add__(self, o):  return add(*_same(self, self._c(o)))
    def __radd__(self, o): return add(self._c(o), self)
    def __sub__(self, o):  return sub(*_same(self, self._c(o)))
    def __and__(self, o):  return band(*_same(self, self._c(o)))
    def __rand__(self, o): return band(self._c(o), self)
    def __or__(self, o):   return bor(*_same(self, self._c(o)))
    def __ror__(self, o):  return bor(self._c(o), self)
    def __xor__(self, o):  return bxor(*_same(self, self._c(o)))
    def __invert__(self):  return bnot(self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            start, stop, step = k.indices(self.w)
            assert step == 1
            return extract(self, start, stop - start)
        if k < 0:
            k += self.w
        return extract(self, k, 1)

    def __len__(self):
        return self.w

    def eq(self, o):  return eq(*_same(self, self._c(o)))
    def ne(self, o):  return bnot(eq(*_same(self, self._c(o))))
    def ult(self, o): return ult(*_same(self, self._c(o)))
    def ule(self, o): return bnot(ult(*_same(self._c(o), self)))
    def ugt(self, o): return ult(*_same(self._c(o), self))
    def uge(self, o): return bnot(ult(*_same(self, self._c(o))))

    @property
    def is_const(self):
        return self.op == "k"


def _same(a, b):
    if a.w < b.w:
        a = zext(a, b.w)
    elif b.w < a.w:
        b = zext(b, a.w)
    return a, b


def _mk(op, w, a=(), v=None, leaves=0):
    key = (op, w, v) + tuple([x.id for x in a])
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.w = w; t.a = a; t.v = v; t.id = len(_table); t.leaves = leaves
        _table[key] = t
    return t


def reset_table():
    """Forget all terms (between independent harness runs)."""
    global TRUE, FALSE
    _table.clear()
    _xmemo.clear()
    _rmemo.clear()
    _amemo.clear()
    _eqmemo.clear()
    _consts.clear()
    TRUE = const(1, 1)
    FALSE = const(0, 1)


_consts = {}


def const(v, w):
    if w > 0:
        v &= (1 << w) - 1
    else:
        v = 0
    key = (v, w)
    t = _consts.get(key)
    if t is None:
        t = _mk("k", w, (), v, 1)
        _consts[key] = t
    return t


def var(name, w):
    return _mk("var", w, (), name)


def _lift1(key, f, x):
    """Apply f to every constant leaf of an ite tree x."""
    memo = {}
    def go(n):
        if n.op == "k":
            return f(n)
        r = memo.get(n.id)
        if r is None:
            r = ite(n.a[0], go(n.a[1]), go(n.a[2]))
            memo[n.id] = r
        return r
    return go(x)


_xmemo = {}


def extract(x, lo, w):
    if w == x.w:
        return x
    if x.op == "k":
        if lo < 0 or lo + w > x.w:
            raise Width("bits %d to %d of %d" % (lo, lo + w - 1, x.w))
        return const(x.v >> lo, w)
    key = (x.id, lo, w)
    r = _xmemo.get(key)
    if r is None:
        r = _xmemo[key] = _extract(x, lo, w)
    return r


def _extract(x, lo, w):
    if lo < 0 or lo + w > x.w:
        raise Width("bits %d to %d of %d" % (lo, lo + w - 1, x.w))
    if w == 0:
        return const(0, 0)
    op = x.op
    if op == "k":
        return const(x.v >> lo, w)
    if op == "extract":
        return extract(x.a[0], x.v + lo, w)
    if op == "concat":          # a = parts, low first
        parts = []
        off = 0
        for p in x.a:
            a = max(lo, off)
            b = min(lo + w, off + p.w)
            if a < b:
                parts.append(extract(p, a - off, b - a))
            off += p.w
        return concat(*parts)
    if op == "sext":
        y = x.a[0]
        if lo + w <= y.w:
            return extract(y, lo, w)
        if lo < y.w:
            return sext(extract(y, lo, y.w - lo), w)
        return sext(extract(y, y.w - 1, 1), w)
    if op in ("and", "or", "xor"):
        return _mkbit(op, extract(x.a[0], lo, w), extract(x.a[1], lo, w))
    if op == "not":
        return bnot(extract(x.a[0], lo, w))
    if op == "ite":
        if x.leaves or x.a[1].op in ("k",) or x.a[2].op in ("k",) or w == 1:
            return ite(x.a[0], extract(x.a[1], lo, w), extract(x.a[2], lo, w))
        return ite(x.a[0], extract(x.a[1], lo, w), extract(x.a[2], lo, w))
    if op == "lin":
        if lo == 0:
            d, k = {}, x.v[1]
            for c, y in zip(x.v[0], x.a):
                k += _decompose(extract(y, 0, w), c, d, w)
            return _lin(w, d, k)
        if lo + w < x.w:
            return extract(extract(x, 0, lo + w), lo, w)
    if LIN and op in ("add", "mul") and lo > 0 and lo + w < x.w:
        return extract(extract(x, 0, lo + w), lo, w)
    if op in ("add", "sub", "mul") and lo == 0:
        f = {"add": add, "sub": sub, "mul": mul}[op]
        return f(extract(x.a[0], 0, w), extract(x.a[1], 0, w))
    return _mk("extract", w, (x,), lo)


def concat(*parts):
    """Concatenate, low part first."""
    out = []
    for p in parts:
        if p.w == 0:
            continue
        for q in (p.a if p.op == "concat" else (p,)):
            if out:
                l = out[-1]
                if l.op == "k" and q.op == "k":
                    out[-1] = const(l.v | (q.v << l.w), l.w + q.w)
                    continue
                if q.op == "extract" and l.op == "extract" and l.a[0] is q.a[0] and l.v + l.w == q.v:
                    out[-1] = extract(q.a[0], l.v, l.w + q.w)
                    continue
                if LIN and l.w > 1:
                    bit = q if q.w == 1 else q.a[0] if q.op == "sext" else None
                    if bit is not None and bit.w == 1 and bit.op != "k" and bit is extract(l, l.w - 1, 1):
                        out[-1] = sext(l, l.w + q.w)
                        continue
            out.append(q)
    if not out:
        return const(0, 0)
    if len(out) == 1:
        return out[0]
    # zero extension of a small-leaf ite: keep leaves constant
    if len(out) == 2 and out[1].op == "k" and out[0].op == "ite" and out[0].leaves:
        k = out[1]
        return _lift1(None, lambda n: const(n.v | (k.v << n.w), n.w + k.w), out[0])
    return _mk("concat", sum(p.w for p in out), tuple(out))


def zext(x, w):
    if w == x.w:
        return x
    if w < x.w:
        return extract(x, 0, w)
    return concat(x, const(0, w - x.w))


def sext(x, w):
    if w <= x.w:
        return extract(x, 0, w)
    if x.w == 0:
        return const(0, w)
    if x.op == "k":
        v = x.v
        if v >> (x.w - 1):
            v -= 1 << x.w
        return const(v, w)
    if x.op == "sext":
        return sext(x.a[0], w)
    if x.op == "concat" and x.a[-1].op == "k" and not (x.a[-1].v >> (x.a[-1].w - 1)):
        return zext(x, w)
    if x.op == "ite" and x.leaves:
        return _lift1(None, lambda n: sext(n, w), x)
    return _mk("sext", w, (x,))


def ext(x, w, signed):
    if w <= x.w:
        return extract(x, 0, w)
    return sext(x, w) if signed else zext(x, w)


def bnot(x):
    if x.op == "k":
        return const(~x.v, x.w)
    if x.op == "not":
        return x.a[0]
    if x.op == "ite" and x.leaves:
        return _lift1(None, bnot, x)
    return _mk("not", x.w, (x,))


def _mkbit(op, x, y):
    return band(x, y) if op == "and" else bor(x, y) if op == "or" else bxor(x, y)


def _leafy(x):
    return x.op == "ite" and x.leaves


def band(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    if x is y:
        return x
    if x.op == "k":
        x, y = y, x
    w = x.w
    if y.op == "k":
        if x.op == "k":
            return const(x.v & y.v, w)
        if y.v == 0:
            return y
        if y.v == (1 << w) - 1:
            return x
        if _leafy(x) and w > 1:
            return _lift1(None, lambda n: const(n.v & y.v, w), x)
        if w > 1:
            return _bykmask(x, y, "and")
    if (x.op == "not" and x.a[0] is y) or (y.op == "not" and y.a[0] is x):
        return const(0, w)
    if w == 1:
        # absorption with one level of nesting
        for p, q in ((x, y), (y, x)):
            if p.op == "and" and (p.a[0] is q or p.a[1] is q):
                return p
            if p.op == "or" and (p.a[0] is q or p.a[1] is q):
                return q
            if p.op == "and":
                nq = bnot(q)
                if p.a[0] is nq or p.a[1] is nq:
                    return const(0, 1)
    if y.id < x.id:
        x, y = y, x
    return _mk("and", w, (x, y))


def _bykmask(x, k, op):
    """x op k for a mixed constant: split into runs so that constant bits propagate."""
    w = x.w
    v = k.v
    runs = []
    i = 0
    while i < w:
        b = (v >> i) & 1
        j = i
        while j < w and ((v >> j) & 1) == b:
            j += 1
        runs.append((i, j - i, b))
        i = j
    if len(runs) > 8:
        return _mk(op, w, (x, k))
    parts = []
    for lo, n, b in runs:
        if op == "and":
            parts.append(extract(x, lo, n) if b else const(0, n))
        else:
            parts.append(const(-1, n) if b else extract(x, lo, n))
    return concat(*parts)


def bor(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    if x is y:
        return x
    if x.op == "k":
        x, y = y, x
    w = x.w
    if y.op == "k":
        if x.op == "k":
            return const(x.v | y.v, w)
        if y.v == 0:
            return x
        if y.v == (1 << w) - 1:
            return y
        if _leafy(x) and w > 1:
            return _lift1(None, lambda n: const(n.v | y.v, w), x)
        if w > 1:
            return _bykmask(x, y, "or")
    if (x.op == "not" and x.a[0] is y) or (y.op == "not" and y.a[0] is x):
        return const(-1, w)
    if w > 1 and (x.op == "concat" or y.op == "concat"):
        # disjoint or: zero-padded pieces combine into a concatenation
        r = _disjoint(x, y)
        if r is not None:
            return r
    if w == 1:
        for p, q in ((x, y), (y, x)):
            if p.op == "or" and (p.a[0] is q or p.a[1] is q):
                return p
            if p.op == "and" and (p.a[0] is q or p.a[1] is q):
                return q
            if p.op == "or":
                nq = bnot(q)
                if p.a[0] is nq or p.a[1] is nq:
                    return const(1, 1)
    if y.id < x.id:
        x, y = y, x
    return _mk("or", w, (x, y))


def _cuts(x):
    if x.op != "concat":
        return [0, x.w]
    c = [0]
    for p in x.a:
        c.append(c[-1] + p.w)
    return c


def _disjoint(x, y):
    cuts = sorted(set(_cuts(x)) | set(_cuts(y)))
    if len(cuts) > 40:
        return None
    parts = []
    for lo, hi in zip(cuts, cuts[1:]):
        a = extract(x, lo, hi - lo)
        b = extract(y, lo, hi - lo)
        if a.op == "k" and a.v == 0:
            parts.append(b)
        elif b.op == "k" and b.v == 0:
            parts.append(a)
        else:
            return None
    return concat(*parts)


def bxor(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    w = x.w
    if x is y:
        return const(0, w)
    if x.op == "k":
        x, y = y, x
    if y.op == "k":
        if x.op == "k":
            return const(x.v ^ y.v, w)
        if y.v == 0:
            return x
        if y.v == (1 << w) - 1:
            return bnot(x)
        if _leafy(x):
            return _lift1(None, lambda n: const(n.v ^ y.v, w), x)
    if x.op == "not" and y.op == "not":
        return bxor(x.a[0], y.a[0])
    if x.op == "not":
        return bnot(bxor(x.a[0], y))
    if y.op == "not":
        return bnot(bxor(x, y.a[0]))
    # cancellation x ^ (x ^ z)
    for p, q in ((x, y), (y, x)):
        if p.op == "xor":
            if p.a[0] is q:
                return p.a[1]
            if p.a[1] is q:
                return p.a[0]
    if y.id < x.id:
        x, y = y, x
    return _mk("xor", w, (x, y))


# Linear normal form (opt in): sums of constant multiples are kept as one flat node at the least width that holds every
# value, so that the same linear function of the same terms is the same term however it was written.
LIN = False
_rmemo = {}


def srange(x):
    """interval of x read as a signed number"""
    r = _rmemo.get(x.id)
    if r is None:
        r = _rmemo[x.id] = _srange(x)
    return r


def _full(w):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if w else (0, 0)


def _srange(x):
    op, w = x.op, x.w
    if op == "k":
        v = x.v - (1 << w) if w and x.v >> (w - 1) else x.v
        return v, v
    if op == "sext":
        return srange(x.a[0])
    if op == "concat" and x.a[-1].op == "k" and x.a[-1].v == 0:
        return 0, (1 << (w - x.a[-1].w)) - 1
    if op == "add":
        l, h = srange(x.a[0])
        k = srange(x.a[1])[0]
        f = _full(w)
        return (l + k, h + k) if f[0] <= l + k and h + k <= f[1] else f
    if op == "lin":
        f = _full(w)
        r = _linfit(x, *f)
        return r[2:] if r else f
    if op == "extract" and x.v + w == x.a[0].w:
        lo, hi = srange(x.a[0])
        return lo >> x.v, hi >> x.v
    if op == "ite" and not x.leaves:
        a, b = srange(x.a[1]), srange(x.a[2])
        return min(a[0], b[0]), max(a[1], b[1])
    return _full(w)


def _linfit(x, least, most):
    """coefficients and constant, of the same residues, with which the sum over the integers stays within least..most; None if none are found"""
    cs, k = x.v
    m = 1 << x.w
    half = m >> 1
    ranges = [srange(y) for y in x.a]
    seen = []
    for cand in (cs, tuple(half if c == -half else c for c in cs), tuple(c % m for c in cs)):
        if cand in seen:
            continue
        seen.append(cand)
        lo = hi = 0
        for c, (l, h) in zip(cand, ranges):
            lo += c * (l if c > 0 else h)
            hi += c * (h if c > 0 else l)
        if hi - lo > most - least:
            continue
        # the constant of this residue that is the least to keep the sum at or above the lower end
        j = least - lo + (k - (least - lo)) % m
        if hi + j <= most:
            return cand, j, lo + j, hi + j
    return None


def _raise(y, w):
    """some w bit term congruent to y modulo 2**y.w"""
    if y.op == "k":
        return const(y.v, w)
    if y.op == "sext":
        return sext(y.a[0], w)
    if y.op == "extract" and y.v == 0 and y.a[0].w >= w:
        return extract(y.a[0], 0, w)
    return zext(y, w)


_amemo = {}


def _affine(x):
    """a choice between constants as a weighted sum of bits: {bit: weight} and a constant; None if it is not one"""
    if x.op == "k":
        return {}, x.v
    r = _amemo.get(x.id, 0)
    if r == 0:
        r = None
        if x.op == "ite" and x.leaves:
            a, b = _affine(x.a[1]), _affine(x.a[2])
            if a and b and a[0] == b[0]:
                m = (1 << x.w) - 1
                d = dict(b[0])
                d[x.a[0]] = d.get(x.a[0], 0) + (a[1] - b[1] & m)
                r = d, b[1]
        _amemo[x.id] = r
    return r


def _decompose(x, f, d, w):
    """add f * x to the linear form d (term -> coefficient) modulo 2**w; returns the constant part"""
    if x.op == "k":
        return f * x.v
    if x.op == "lin":
        cs, k = x.v
        for c, y in zip(cs, x.a):
            d[y] = d.get(y, 0) + f * c
        return f * k
    if x.op == "add":
        return _decompose(x.a[0], f, d, w) + _decompose(x.a[1], f, d, w)
    if x.op == "ite" and x.a[1].op == "k" and x.a[2].op == "k":
        return f * x.a[2].v + _decompose(zext(x.a[0], w), f * (x.a[1].v - x.a[2].v), d, w)
    if x.leaves > 2:
        r = _affine(x)
        if r:
            for c, n in r[0].items():
                y = zext(c, w)
                d[y] = d.get(y, 0) + f * n
            return f * r[1]
    if x.op == "concat" and x.a[0].op == "k" and x.a[0].v == 0:
        n = x.a[0].w
        y = concat(*x.a[1:])
        if y.op == "lin":
            cs, k = y.v
            r = k * f << n
            for c, z in zip(cs, y.a):
                r += _decompose(_raise(z, w), c * f << n, d, w)
            return r
        return _decompose(_raise(y, w), f << n, d, w)
    q = None
    if x.op == "sext" and x.a[0].op == "lin":
        q = x.a[0]
        ok = _full(q.w)
    elif x.op == "concat" and len(x.a) == 2 and x.a[1].op == "k" and x.a[1].v == 0 and x.a[0].op == "lin":
        q = x.a[0]
        ok = (0, (1 << q.w) - 1)
    if q is not None:
        fit = _linfit(q, *ok)
        if fit:
            cs, k = fit[:2]
            r = f * k
            for c, z in zip(cs, q.a):
                r += _decompose(sext(z, w), c * f, d, w)
            return r
    d[x] = d.get(x, 0) + f
    return 0


def _lin(w, d, k):
    half = 1 << (w - 1)
    cs = {}
    for y, c in d.items():
        c &= (1 << w) - 1
        if c:
            cs[y] = c - (1 << w) if c >= half else c
    k &= (1 << w) - 1
    k = k - (1 << w) if k >= half else k
    if not cs:
        return const(k, w)
    if len(cs) == 1:
        (y, c), = cs.items()
        if (c, k) != (1, 0) and y.op == "concat" and len(y.a) == 2 and y.a[0].w == 1 and y.a[1].op == "k" and y.a[1].v == 0:
            return ite(y.a[0], const(k + c, w), const(k, w))
        if c == 1:
            return y if k == 0 else _mk("add", w, (y, const(k, w))) if not _leafy(y) else _lift1(None, lambda n: const(n.v + k, w), y)
        if _leafy(y):
            return _lift1(None, lambda n: const(n.v * c + k, w), y)
    lo = hi = k
    for y, c in cs.items():
        l, h = srange(y)
        lo += c * (l if c > 0 else h)
        hi += c * (h if c > 0 else l)
    if lo >= 0:
        m = hi.bit_length()
    else:
        m = max(hi.bit_length(), (-lo - 1).bit_length()) + 1
    if m == 0:
        return const(0, w)
    if m < w and any(c not in (1, -1) or y.op == "sext" for y, c in cs.items()):
        d2 = {}
        for y, c in cs.items():
            k += _decompose(extract(y, 0, m), c, d2, m)
        r = _lin(m, d2, k)
        return zext(r, w) if lo >= 0 else sext(r, w)
    ts = sorted(cs, key=lambda y: y.id)
    return _mk("lin", w, tuple(ts), (tuple(cs[y] for y in ts), k))


def _linsum(w, *parts):
    d, k = {}, 0
    for f, x in parts:
        k += _decompose(x, f, d, w)
    return _lin(w, d, k)


def add(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    w = x.w
    if LIN and w > 1 and not (x.op == "k" and y.op == "k"):
        return _linsum(w, (1, x), (1, y))
    if x.op == "k":
        x, y = y, x
    if y.op == "k":
        if x.op == "k":
            return const(x.v + y.v, w)
        if y.v == 0:
            return x
        if _leafy(x):
            return _lift1(None, lambda n: const(n.v + y.v, w), x)
        if x.op == "add" and x.a[1].op == "k":
            return add(x.a[0], const(x.a[1].v + y.v, w))
        if w == 1:
            return bnot(x)
        return _mk("add", w, (x, y))
    if w == 1:
        return bxor(x, y)
    if x.op == "add" and x.a[1].op == "k":
        return add(add(x.a[0], y), x.a[1])
    if y.op == "add" and y.a[1].op == "k":
        return add(add(x, y.a[0]), y.a[1])
    if y.id < x.id:
        x, y = y, x
    return _mk("add", w, (x, y))


def neg(x):
    return sub(const(0, x.w), x)


def sub(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    w = x.w
    if x is y:
        return const(0, w)
    if LIN and w > 1 and not (x.op == "k" and y.op == "k"):
        return _linsum(w, (1, x), (-1, y))
    if y.op == "k":
        return add(x, const(-y.v, w))
    if x.op == "k" and _leafy(y):
        return _lift1(None, lambda n: const(x.v - n.v, w), y)
    if w == 1:
        return bxor(x, y)
    return _mk("sub", w, (x, y))


def mul(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    w = x.w
    if x.op == "k":
        x, y = y, x
    if y.op == "k":
        if x.op == "k":
            return const(x.v * y.v, w)
        if y.v == 0:
            return y
        if y.v == 1:
            return x
        if LIN and w > 1:
            return _linsum(w, (y.v - (1 << w) if y.v >> (w - 1) else y.v, x))
        if y.v & (y.v - 1) == 0:
            return shlk(x, y.v.bit_length() - 1)
        if _leafy(x):
            return _lift1(None, lambda n: const(n.v * y.v, w), x)
        nv = (1 << w) - y.v
        if nv & (nv - 1) == 0:
            return neg(shlk(x, nv.bit_length() - 1))
    if y.id < x.id and y.op != "k":
        x, y = y, x
    return _mk("mul", w, (x, y))


def shlk(x, n):
    if n >= x.w:
        return const(0, x.w)
    if n == 0:
        return x
    return concat(const(0, n), extract(x, 0, x.w - n))


def lshrk(x, n):
    if n >= x.w:
        return const(0, x.w)
    return zext(extract(x, n, x.w - n), x.w)


def ashrk(x, n):
    n = min(n, x.w - 1)
    return sext(extract(x, n, x.w - n), x.w)


def shl(x, y):
    """x << y, y any width (unsigned)."""
    return _shift(x, y, shlk, lambda x: const(0, x.w))


def lshr(x, y):
    return _shift(x, y, lshrk, lambda x: const(0, x.w))


def ashr(x, y):
    return _shift(x, y, ashrk, lambda x: sext(extract(x, x.w - 1, 1), x.w))


def _shift(x, y, f, full):
    if y.op == "k":
        return f(x, y.v)
    if _leafy(y):
        memo = {}
        def go(n):
            if n.op == "k":
                return f(x, n.v)
            r = memo.get(n.id)
            if r is None:
                r = memo[n.id] = ite(n.a[0], go(n.a[1]), go(n.a[2]))
            return r
        return go(y)
    r = x
    over = const(0, 1)
    for i in range(y.w):
        b = extract(y, i, 1)
        if (1 << i) >= x.w:
            over = bor(over, b)
        else:
            r = ite(b, f(r, 1 << i), r)
    return ite(over, full(x), r)


def udiv(x, y):
    """unsigned division; division by zero is zero (the HDL's convention)."""
    if y.op == "k":
        if y.v == 0:
            return const(0, x.w)
        if x.op == "k":
            return const(x.v // y.v, x.w)
        if y.v & (y.v - 1) == 0:
            return lshrk(x, y.v.bit_length() - 1)
        if _leafy(x):
            return _lift1(None, lambda n: const(n.v // y.v, x.w), x)
        return _mk("udiv", x.w, (x, y))
    return ite(eq(y, const(0, y.w)), const(0, x.w), _mk("udiv", x.w, (x, y)))


def urem(x, y):
    if y.op == "k":
        if y.v == 0:
            return const(0, x.w)
        if x.op == "k":
            return const(x.v % y.v, x.w)
        if y.v & (y.v - 1) == 0:
            return zext(extract(x, 0, y.v.bit_length() - 1), x.w)
        if _leafy(x):
            return _lift1(None, lambda n: const(n.v % y.v, x.w), x)
        return _mk("urem", x.w, (x, y))
    return ite(eq(y, const(0, y.w)), const(0, x.w), _mk("urem", x.w, (x, y)))


def sdiv_floor(x, y):
    w = x.w
    sx = extract(x, w - 1, 1); sy = extract(y, w - 1, 1)
    ax = ite(sx, neg(x), x); ay = ite(sy, neg(y), y)
    q = udiv(ax, ay); r = urem(ax, ay)
    diff = bxor(sx, sy)
    nq = neg(q)
    fl = ite(eq(r, const(0, w)), nq, sub(nq, const(1, w)))
    return ite(eq(y, const(0, w)), const(0, w), ite(diff, fl, q))


def smod_floor(x, y):
    return ite(eq(y, const(0, y.w)), const(0, x.w), sub(x, mul(sdiv_floor(x, y), y)))


_eqmemo = {}


def eq(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    if x is y:
        return const(1, 1)
    if x.op == "k" and y.op == "k":
        return const(int(x.v == y.v), 1)
    key = (x.id, y.id)
    r = _eqmemo.get(key)
    if r is None:
        r = _eqmemo[key] = _eq(x, y)
    return r


def _eq(x, y):
    if x.op == "k":
        x, y = y, x
    w = x.w
    if w == 0:
        return const(1, 1)
    if y.op == "k":
        if x.op == "k":
            return const(int(x.v == y.v), 1)
        if w == 1:
            return x if y.v else bnot(x)
        if _leafy(x):
            return _lift1(None, lambda n: const(int(n.v == y.v), 1), x)
        if x.op == "concat":
            r = const(1, 1)
            off = 0
            # constant parts first: quick refutation
            for p in x.a:
                if p.op == "k" and p.v != ((y.v >> off) & ((1 << p.w) - 1)):
                    return const(0, 1)
                off += p.w
            if len(x.a) <= 3:
                off = 0
                for p in x.a:
                    r = band(r, eq(p, const(y.v >> off, p.w)))
                    off += p.w
                return r
        if x.op == "not":
            return eq(x.a[0], const(~y.v, w))
        if x.op == "add" and x.a[1].op == "k":
            return eq(x.a[0], const(y.v - x.a[1].v, w))
        if x.op == "ite" and (x.a[1].op == "k" or x.a[2].op == "k"):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    elif w == 1:
        return bnot(bxor(x, y))
    elif x.op == "concat" and y.op == "concat" and [p.w for p in x.a] == [p.w for p in y.a] and len(x.a) <= 3:
        r = const(1, 1)
        for p, q in zip(x.a, y.a):
            r = band(r, eq(p, q))
        return r
    elif _leafy(x) and _leafy(y) and x.leaves * y.leaves <= 256:
        return _lift1(None, lambda n: eq(y, n), x)
    if y.id < x.id and y.op != "k":
        x, y = y, x
    return _mk("eq", 1, (x, y))


def ult(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    w = x.w
    if x is y:
        return const(0, 1)
    if x.op == "k" and y.op == "k":
        return const(int(x.v < y.v), 1)
    if y.op == "k":
        if y.v == 0:
            return const(0, 1)
        if y.v == 1:
            return eq(x, const(0, w))
        if _leafy(x):
            return _lift1(None, lambda n: const(int(n.v < y.v), 1), x)
    if x.op == "k":
        if x.v == (1 << w) - 1:
            return const(0, 1)
        if x.v == 0:
            return bnot(eq(y, x))
        if _leafy(y):
            return _lift1(None, lambda n: const(int(x.v < n.v), 1), y)
    # common zero top
    zx = x.a[-1].w if x.op == "concat" and x.a[-1].op == "k" and x.a[-1].v == 0 else \
        (w - x.v.bit_length() if x.op == "k" else 0)
    zy = y.a[-1].w if y.op == "concat" and y.a[-1].op == "k" and y.a[-1].v == 0 else \
        (w - y.v.bit_length() if y.op == "k" else 0)
    z = min(zx, zy, w - 1)
    if z > 0:
        return ult(extract(x, 0, w - z), extract(y, 0, w - z))
    if zx and y.op == "k" and y.v >> (w - zx):
        return const(1, 1)
    if zy and x.op == "k" and x.v >> (w - zy):
        return const(0, 1)
    if w == 1:
        return band(bnot(x), y)
    return _mk("ult", 1, (x, y))


def slt(x, y):
    if x.w != y.w:
        raise Width("%d and %d bits" % (x.w, y.w))
    w = x.w
    if x is y or w == 0:
        return const(0, 1)
    def s(v):
        return v - (1 << w) if v >> (w - 1) else v
    if x.op == "k" and y.op == "k":
        return const(int(s(x.v) < s(y.v)), 1)
    if y.op == "k" and _leafy(x):
        return _lift1(None, lambda n: const(int(s(n.v) < s(y.v)), 1), x)
    if x.op == "k" and _leafy(y):
        return _lift1(None, lambda n: const(int(s(x.v) < s(n.v)), 1), y)
    if y.op == "k" and y.v == 0:
        return extract(x, w - 1, 1)
    top = 1 << (w - 1)
    sx = extract(x, w - 1, 1); sy = extract(y, w - 1, 1)
    if sx.op == "k" and sy.op == "k":
        if sx.v != sy.v:
            return const(sx.v, 1)
        return ult(x, y)
    return _mk("slt", 1, (x, y))


def _swidth(x):
    """bits needed for x as a signed number, if that is plain to see"""
    if x.op == "sext":
        return x.a[0].w
    if x.op == "k":
        v = x.v - (1 << x.w) if x.v >> (x.w - 1) else x.v
        return (v if v >= 0 else ~v).bit_length() + 1
    return x.w


def ite(c, a, b):
    if c.w != 1 or a.w != b.w:
        raise Width("%d, %d and %d bits" % (c.w, a.w, b.w))
    if c.op == "k":
        return a if c.v else b
    if a is b:
        return a
    if c.op == "not":
        c = c.a[0]
        a, b = b, a
    w = a.w
    if w == 1:
        if a.op == "k":
            return bor(c, b) if a.v else band(bnot(c), b)
        if b.op == "k":
            return bor(bnot(c), a) if b.v else band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y);  ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
    if b.op == "ite":
        if b.a[1] is a:
            return ite(bor(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    if a.op == "ite":
        if a.a[2] is b:
            return ite(band(c, a.a[0]), a.a[1], b)
        if a.a[1] is b:
            return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if a.op == "concat" and b.op == "concat":
        # factor common constant/equal top part (zero extensions)
        if a.a[-1] is b.a[-1]:
            n = a.a[-1].w
            return concat(ite(c, extract(a, 0, w - n), extract(b, 0, w - n)), a.a[-1])
    if LIN and w > 1 and (a.op == "lin" or b.op == "lin"):
        # a choice between sums that differ by a constant is one sum
        d, e = {}, {}
        k = _decompose(a, 1, d, w)
        j = _decompose(b, 1, e, w)
        if d == e:
            return _linsum(w, (1, b), ((k - j), zext(c, w)))
    if LIN and (a.op == "sext" or b.op == "sext"):
        # a choice between sign extensions is the sign extension of the choice
        na, nb = _swidth(a), _swidth(b)
        n = max(na, nb)
        if n < w and min(na, nb):
            return sext(ite(c, extract(a, 0, n), extract(b, 0, n)), w)
    la = a.leaves if (a.op in ("k", "ite")) else 0
    lb = b.leaves if (b.op in ("k", "ite")) else 0
    if LIN and w > 1 and la == lb and la > 4:
        p, q = _affine(a), _affine(b)
        if p and q and p[0] == q[0]:
            return _linsum(w, (1, b), (p[1] - q[1], zext(c, w)))
    leaves = la + lb if la and lb and la + lb <= _LEAF_LIMIT else 0
    return _mk("ite", w, (c, a, b), None, leaves)


def land(*xs):
    r = const(1, 1)
    for x in xs:
        if isinstance(x, bool) or isinstance(x, int):
            x = const(int(bool(x)), 1)
        r = band(r, x)
    return r


def lor(*xs):
    r = const(0, 1)
    for x in xs:
        if isinstance(x, bool) or isinstance(x, int):
            x = const(int(bool(x)), 1)
        r = bor(r, x)
    return r


def lnot(x):
    return bnot(x)


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return bnot(bxor(a, b))


def any_bit(x):
    return bnot(eq(x, const(0, x.w)))


def all_bits(x):
    return eq(x, const(-1, x.w))


def parity(x):
    r = const(0, 1)
    for i in range(x.w):
        r = bxor(r, extract(x, i, 1))
    return r


def select(elems, index):
    """elems[index], out of range -> last element; index a term."""
    n = len(elems)
    if index.op == "k":
        return elems[min(index.v, n - 1)]
    if _leafy(index) and index.leaves <= 16:
        memo = {}
        def go(t):
            if t.op == "k":
                return elems[min(t.v, n - 1)]
            r = memo.get(t.id)
            if r is None:
                r = memo[t.id] = ite(t.a[0], go(t.a[1]), go(t.a[2]))
            return r
        return go(index)
    # binary tree on the index bits
    bits = max(1, (n - 1).bit_length())
    level = list(elems)
    last = elems[-1]
    for i in range(min(bits, index.w)):
        b = extract(index, i, 1)
        nxt = []
        for j in range(0, len(level), 2):
            hi = level[j + 1] if j + 1 < len(level) else last
            nxt.append(ite(b, hi, level[j]))
        level = nxt
    r = level[0]
    for i in range(bits, index.w):
        r = ite(extract(index, i, 1), last, r)
    return r


# ---------------------------------------------------------------------------------------------

def topo(roots, *known):
    """All nodes reachable from roots, children first; not below nodes listed in known."""
    seen = set()
    order = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        if any(n.id in k for k in known):
            continue
        stack.append((n, True))
        for c in n.a:
            if c.id not in seen:
                stack.append((c, False))
    return order


_EVAL = {
    "not": lambda w, a: ~a[0].v,
}


def evaluate(roots, env):
    """Concrete evaluation of terms under env: var name -> int (missing -> 0)."""
    vals = {}
    for n in topo(roots):
        vals[n.id] = _eval1(n, vals, env)
    return [vals[r.id] for r in roots]


def _eval1(n, vals, env):
    op = n.op
    m = (1 << n.w) - 1
    if op == "k":
        return n.v
    if op == "var":
        return env.get(n.v, 0) & m
    a = [vals[c.id] for c in n.a]
    if op == "not": return ~a[0] & m
    if op == "and": return a[0] & a[1]
    if op == "or": return a[0] | a[1]
    if op == "xor": return a[0] ^ a[1]
    if op == "add": return (a[0] + a[1]) & m
    if op == "sub": return (a[0] - a[1]) & m
    if op == "lin": return (sum(c * v for c, v in zip(n.v[0], a)) + n.v[1]) & m
    if op == "mul": return (a[0] * a[1]) & m
    if op == "udiv": return (a[0] // a[1]) & m if a[1] else m
    if op == "urem": return (a[0] % a[1]) & m if a[1] else a[0]
    if op == "eq": return int(a[0] == a[1])
    if op == "ult": return int(a[0] < a[1])
    if op == "slt":
        w = n.a[0].w
        s = lambda v: v - (1 << w) if v >> (w - 1) else v
        return int(s(a[0]) < s(a[1]))
    if op == "ite": return a[1] if a[0] else a[2]
    if op == "extract": return (a[0] >> n.v) & m
    if op == "concat":
        r = 0; off = 0
        for c, v in zip(n.a, a):
            r |= v << off
            off += c.w
        return r
    if op == "sext":
        w = n.a[0].w
        return (a[0] - (1 << w) if a[0] >> (w - 1) else a[0]) & m
    raise NotImplementedError(op)


def variables(roots):
    return [n for n in topo(roots) if n.op == "var"]


def show(t, depth=4):
    if t.op == "k":
        return "%d'%d" % (t.w, t.v)
    if t.op == "var":
        return t.v
    if depth == 0:
        return "..."
    return "%s(%s%s)" % (t.op, ",".join(show(x, depth - 1) for x in t.a), "" if t.v is None else ";%s" % (t.v,))


class Z3Bridge:
    """Translate terms to z3; width-1 operator results live as Bool."""

    def __init__(self):
        import z3
        self.z3 = z3
        self.bv = {}
        self.bo = {}

    def B(self, t):
        r = self.bo.get(t.id)
        if r is None:
            r = self.bv[t.id] == self.z3.BitVecVal(1, 1)
            self.bo[t.id] = r
        return r

    def V(self, t):
        r = self.bv.get(t.id)
        if r is None:
            z3 = self.z3
            r = z3.If(self.bo[t.id], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            self.bv[t.id] = r
        return r

    def conv(self, roots):
        z3 = self.z3
        for n in topo(roots, self.bv, self.bo):
            op, a, w = n.op, n.a, n.w
            if op == "k":
                if w == 1:
                    self.bo[n.id] = z3.BoolVal(bool(n.v))
                    self.bv[n.id] = z3.BitVecVal(n.v, 1)
                elif w:
                    self.bv[n.id] = z3.BitVecVal(n.v, w)
                continue
            if op == "var":
                if w == 1:
                    self.bo[n.id] = z3.Bool(n.v)
                else:
                    self.bv[n.id] = z3.BitVec(n.v, w)
                continue
            if op == "eq":
                if a[0].w == 1:
                    self.bo[n.id] = self.B(a[0]) == self.B(a[1])
                else:
                    self.bo[n.id] = self.V(a[0]) == self.V(a[1])
                continue
            if op == "ult":
                self.bo[n.id] = z3.ULT(self.V(a[0]), self.V(a[1])); continue
            if op == "slt":
                self.bo[n.id] = self.V(a[0]) < self.V(a[1]); continue
            if w == 1:
                if op == "not": self.bo[n.id] = z3.Not(self.B(a[0])); continue
                if op == "and": self.bo[n.id] = z3.And(self.B(a[0]), self.B(a[1])); continue
                if op == "or":  self.bo[n.id] = z3.Or(self.B(a[0]), self.B(a[1])); continue
                if op == "xor": self.bo[n.id] = z3.Xor(self.B(a[0]), self.B(a[1])); continue
                if op == "ite":
                    self.bo[n.id] = z3.If(self.B(a[0]), self.B(a[1]), self.B(a[2])); continue
            if op == "not": r = ~self.V(a[0])
            elif op == "and": r = self.V(a[0]) & self.V(a[1])
            elif op == "or": r = self.V(a[0]) | self.V(a[1])
            elif op == "xor": r = self.V(a[0]) ^ self.V(a[1])
            elif op == "add": r = self.V(a[0]) + self.V(a[1])
            elif op == "lin":
                r = z3.BitVecVal(n.v[1], w) if n.v[1] else None
                for c, y in zip(n.v[0], a):
                    y = self.V(y)
                    if r is None:
                        r = y if c == 1 else -y if c == -1 else y * z3.BitVecVal(c, w)
                    else:
                        r = r + y if c == 1 else r - y if c == -1 else r + y * z3.BitVecVal(c, w) if c > 0 else r - y * z3.BitVecVal(-c, w)
            elif op == "sub": r = self.V(a[0]) - self.V(a[1])
            elif op == "mul": r = self.V(a[0]) * self.V(a[1])
            elif op == "udiv": r = z3.UDiv(self.V(a[0]), self.V(a[1]))
            elif op == "urem": r = z3.URem(self.V(a[0]), self.V(a[1]))
            elif op == "ite": r = z3.If(self.B(a[0]), self.V(a[1]), self.V(a[2]))
            elif op == "extract": r = z3.Extract(n.v + w - 1, n.v, self.V(a[0]))
            elif op == "concat": r = z3.Concat(*[self.V(x) for x in reversed(a)])
            elif op == "sext": r = z3.SignExt(w - a[0].w, self.V(a[0]))
            else:
                raise NotImplementedError(op)
            self.bv[n.id] = r

    def cond(self, t):
        self.conv([t])
        return self.B(t)


TRUE = const(1, 1)
FALSE = const(0, 1)
