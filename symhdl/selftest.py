"""Checks the term layer against z3: random expressions are built twice, once through the simplifying constructors and
once as plain z3 expressions, and z3 must show that no assignment tells them apart. Both modes (with and without the
linear normal form). Also compares the evaluator used for counterexamples with z3's model evaluation."""
import random
import sys
import time
from . import terms as t


def build(rng, n, widths):
    import z3
    pool = []
    for i in range(4):
        w = rng.choice(widths)
        pool.append((t.var("x%d" % i, w), z3.BitVec("x%d" % i, w) if w > 1 else z3.If(z3.Bool("x%d" % i), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))
    for i in range(2):
        w = rng.choice(widths)
        v = rng.choice([0, 1, (1 << w) - 1, rng.getrandbits(w)])
        pool.append((t.const(v, w), z3.BitVecVal(v & ((1 << w) - 1), w)))

    def fit(p, w):
        a, z = p
        if a.w == w:
            return p
        if a.w > w:
            lo = rng.randrange(a.w - w + 1)
            return t.extract(a, lo, w), z3.Extract(lo + w - 1, lo, z)
        if rng.random() < 0.5:
            return t.zext(a, w), z3.ZeroExt(w - a.w, z)
        return t.sext(a, w), z3.SignExt(w - a.w, z)
    b1 = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    for _ in range(n):
        op = rng.choice(["add", "add", "sub", "mulk", "mul", "and", "or", "xor", "not", "ite", "eq", "ult", "slt", "extract", "concat",
                         "shlk", "lshrk", "ashrk", "sext", "zext", "shl", "lshr", "ashr", "select", "neg", "kite", "udiv", "urem", "top"])
        p, q, r = (rng.choice(pool[-10:] if rng.random() < 0.7 else pool) for _ in range(3))
        w = rng.choice([p[0].w, p[0].w, min(p[0].w + rng.randrange(4), 14)])
        (a, x), (b, y) = fit(p, w), fit(q, w)
        if op == "add": e = t.add(a, b), x + y
        elif op == "sub": e = t.sub(a, b), x - y
        elif op == "neg": e = t.neg(a), -x
        elif op == "mulk":
            k = rng.getrandbits(w)
            e = t.mul(a, t.const(k, w)), x * z3.BitVecVal(k, w)
        elif op == "mul":
            if w > 5: continue
            e = t.mul(a, b), x * y
        elif op == "and": e = t.band(a, b), x & y
        elif op == "or": e = t.bor(a, b), x | y
        elif op == "xor": e = t.bxor(a, b), x ^ y
        elif op == "not": e = t.bnot(a), ~x
        elif op == "ite":
            c, z = fit(r, 1)
            e = t.ite(c, a, b), z3.If(z == 1, x, y)
        elif op == "kite":
            c, z = fit(r, 1)
            k1, k2 = rng.getrandbits(w), rng.getrandbits(w)
            e = t.ite(c, t.const(k1, w), t.const(k2, w)), z3.If(z == 1, z3.BitVecVal(k1, w), z3.BitVecVal(k2, w))
        elif op == "eq": e = t.eq(a, b), b1(x == y)
        elif op == "ult": e = t.ult(a, b), b1(z3.ULT(x, y))
        elif op == "slt": e = t.slt(a, b), b1(x < y)
        elif op == "extract":
            lo = rng.randrange(w); n_ = rng.randrange(1, w - lo + 1)
            e = t.extract(a, lo, n_), z3.Extract(lo + n_ - 1, lo, x)
        elif op == "top":
            lo = rng.randrange(w)
            e = t.extract(a, lo, w - lo), z3.Extract(w - 1, lo, x)
        elif op == "concat":
            if w > 10: continue
            e = t.concat(a, b), z3.Concat(y, x)
        elif op in ("shlk", "lshrk", "ashrk"):
            k = rng.randrange(w + 2)
            f = {"shlk": t.shlk, "lshrk": t.lshrk, "ashrk": t.ashrk}[op]
            z = {"shlk": lambda: x << k, "lshrk": lambda: z3.LShR(x, k), "ashrk": lambda: x >> min(k, w - 1)}[op]() if k < (1 << w) else \
                (x >> (w - 1) if op == "ashrk" else z3.BitVecVal(0, w))
            e = f(a, k), z
        elif op in ("shl", "lshr", "ashr"):
            s, zs = fit(r, 3)
            if w < 3: continue
            zz = z3.ZeroExt(w - 3, zs)
            e = {"shl": t.shl, "lshr": t.lshr, "ashr": t.ashr}[op](a, s), {"shl": lambda: x << zz, "lshr": lambda: z3.LShR(x, zz), "ashr": lambda: x >> zz}[op]()
        elif op == "sext":
            e = t.sext(a, w + 3), z3.SignExt(3, x)
        elif op == "zext":
            e = t.zext(a, w + 3), z3.ZeroExt(3, x)
        elif op == "select":
            els = [fit(rng.choice(pool), w) for _ in range(rng.randrange(1, 6))]
            s, zs = fit(r, 3)
            z = els[-1][1]
            for i in range(len(els) - 2, -1, -1):
                z = z3.If(zs == i, els[i][1], z)
            e = t.select([q_[0] for q_ in els], s), z
        elif op in ("udiv", "urem"):
            if w > 6: continue
            k = rng.randrange(1, 1 << w) if rng.random() < 0.7 else 0
            if not k: continue
            e = (t.udiv(a, t.const(k, w)), z3.UDiv(x, z3.BitVecVal(k, w))) if op == "udiv" else (t.urem(a, t.const(k, w)), z3.URem(x, z3.BitVecVal(k, w)))
        if e[0].w > 20:
            continue
        assert e[0].w == e[1].size(), (op, e[0].w, e[1].size())
        pool.append(e)
    return pool


def main(rounds=60, seed=1):
    import z3
    t0 = time.time()
    proved = folded = 0
    for r in range(rounds):
        rng = random.Random(seed * 1000 + r)
        t.reset_table()
        t.LIN = bool(r & 1)
        pool = build(rng, 40, rng.choice([[1, 2, 3], [4, 5, 8], [1, 4, 7]]))
        br = t.Z3Bridge()
        for a, x in pool[6:]:
            br.conv([a])
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 20000)
            s.add(br.V(a) != x)
            res = s.check()
            if res == z3.sat:
                print("selftest: simplified term differs, round", r, t.show(a, 5), s.model())
                return 1
            if res == z3.unsat:
                proved += 1
        env = {v.v: rng.getrandbits(v.w) for v in t.variables([a for a, _ in pool])}
        vals = t.evaluate([a for a, _ in pool], env)
        sub = [(z3.BitVec(n, v.w) if v.w > 1 else z3.Bool(n), z3.BitVecVal(env[n], v.w) if v.w > 1 else z3.BoolVal(bool(env[n])))
               for v in t.variables([a for a, _ in pool]) for n in [v.v]]
        for (a, x), v in zip(pool, vals):
            got = z3.simplify(z3.substitute(x, *sub))
            if not z3.is_bv_value(got) or got.as_long() != v:
                print("selftest: evaluator differs, round", r, t.show(a, 4), v, got)
                return 1
    print("selftest: %d simplified terms proved equal to their plain z3 form in %.1f s" % (proved, time.time() - t0))
    return 0
