"""Compile an Amaranth fragment (the result of running the real elaborate()) into a symbolic
simulator over terms.py.  Semantics follow amaranth.sim (pysim), the reference simulator."""
import warnings
from amaranth.hdl import ast, ir
from amaranth.hdl.ast import SignalDict, SignalSet, Shape
from amaranth.hdl.xfrm import LHSGroupAnalyzer, LHSGroupFilter
from . import terms as t


class Unsupported(Exception):
    pass


class CombLoop(Exception):
    pass


class _Group:
    __slots__ = ("signals", "run", "busy")


class Design:
    """A compiled fragment. Signals are numbered; see SymSim for execution."""

    def __init__(self, fragment):
        self.index = SignalDict()
        self.signals = []
        self.fragment = fragment
        self.comb_of = {}      # signal index -> _Group
        self.sync = {}         # domain -> list of (signals idx, run)
        self.domain_of = {}
        self.clks = {}
        self._walk(fragment)
        for g in set(self.comb_of.values()):
            pass

    def primary(self):
        """names of the domains whose clock comes from outside"""
        return [n for n, cd in self.clks.items() if self.idx(cd.clk) not in self.comb_of]

    def idx(self, signal):
        try:
            return self.index[signal]
        except KeyError:
            i = len(self.signals)
            self.index[signal] = i
            self.signals.append(signal)
            return i

    def _walk(self, frag):
        if isinstance(frag, ir.Instance) and frag.type not in ("$mem_v2",):
            if frag.type == "$initstate":
                raise Unsupported("Initial()")
            raise Unsupported("Instance " + frag.type)
        for dom, sigs in frag.drivers.items():
            stmts = LHSGroupFilter(sigs)(frag.statements)
            if dom is None:
                groups = LHSGroupAnalyzer()(stmts)
                covered = SignalSet()
                for g in groups.values():
                    g = SignalSet(s for s in g if s in sigs)
                    if g:
                        self._comb(g, LHSGroupFilter(g)(stmts))
                        covered |= g
                rest = SignalSet(s for s in sigs if s not in covered)
                for s in rest:
                    self._comb(SignalSet([s]), [])
            else:
                cd = frag.domains[dom]
                name = cd.name
                while self.clks.setdefault(name, cd) is not cd:       # local domains may share a name
                    name += "'"
                idxs = [self.idx(s) for s in sigs]
                for i in idxs:
                    if i in self.domain_of:
                        raise Unsupported("signal driven twice: " + self.signals[i].name)
                    self.domain_of[i] = name
                run = self._stmts(stmts)
                self.sync.setdefault(name, []).append((idxs, run))
        for sub, name in frag.subfragments:
            self._walk(sub)

    def _comb(self, sigs, stmts):
        g = _Group()
        g.signals = [self.idx(s) for s in sigs]
        g.run = self._stmts(stmts)
        g.busy = False
        for i in g.signals:
            if i in self.comb_of:
                raise Unsupported("signal driven twice: " + self.signals[i].name)
            self.comb_of[i] = g

    # ---- statements: closures run(sim, env); env: idx -> next value (missing: base(idx)) ----

    def _stmts(self, stmts):
        runs = [self._stmt(s) for s in stmts]
        if len(runs) == 1:
            return runs[0]
        def run(sim, env):
            for r in runs:
                r(sim, env)
        return run

    def _stmt(self, s):
        if isinstance(s, ast.Assign):
            rhs = self.value(s.rhs)
            signed = s.rhs.shape().signed
            wl = len(s.lhs)
            ext = t.ext
            store = self.lhs(s.lhs)
            def run(sim, env):
                store(sim, env, ext(rhs(sim), wl, signed), None)
            return run
        if isinstance(s, ast.Switch):
            test = self.value(s.test)
            cases = []
            for patterns, stmts in s.cases.items():
                cases.append((self._patterns(patterns, len(s.test)), self._stmts(list(stmts))))
            def run(sim, env):
                self._switch(sim, env, test(sim), cases, 0)
            return run
        if isinstance(s, ast._StatementList) or isinstance(s, (list, tuple)):
            return self._stmts(list(s))
        raise Unsupported("statement " + type(s).__name__)

    def _patterns(self, patterns, w):
        if not patterns:
            return None
        out = []
        for p in patterns:
            mask = int("".join("0" if b == "-" else "1" for b in p) or "0", 2)
            val = int("".join("0" if b == "-" else b for b in p) or "0", 2)
            out.append((mask, val))
        return out

    def _match(self, pats, x):
        if pats is None:
            return t.const(1, 1)
        r = t.const(0, 1)
        full = (1 << x.w) - 1
        for mask, val in pats:
            if mask == full:
                c = t.eq(x, t.const(val, x.w))
            else:
                c = t.eq(t.band(x, t.const(mask, x.w)), t.const(val, x.w))
            r = t.bor(r, c)
        return r

    def _switch(self, sim, env, x, cases, i):
        n = len(cases)
        # concrete decisions first
        conds = []
        rest = t.const(1, 1)      # no earlier case matched
        live = []
        while i < n:
            pats, run = cases[i]
            c = self._match(pats, x)
            if c.op == "k":
                if c.v:
                    live.append((None, run))
                    break
            else:
                live.append((c, run))
            i += 1
        if not live:
            return
        if live[0][0] is None:
            live[0][1](sim, env)
            return
        # symbolic: run each case on a copy, merge (earlier cases take precedence)
        outs = []
        for c, run in live:
            e = _Env(env)
            run(sim, e)
            outs.append((c, e.new))
        keys = set()
        for c, e in outs:
            keys.update(e)
        for k in keys:
            base = env.get(sim, k)
            if outs[-1][0] is None:
                acc = outs[-1][1].get(k, base)
                seq = outs[:-1]
            else:
                acc = base
                seq = outs
            for c, e in reversed(seq):
                acc = t.ite(c, e.get(k, base), acc)
            env.put(k, acc)

    # ---- lvalues: store(sim, env, value, cond) ----

    def lhs(self, v):
        if isinstance(v, ast.Signal):
            i = self.idx(v)
            def store(sim, env, x, cond):
                if cond is not None:
                    x = t.ite(cond, x, env.get(sim, i))
                env.put(i, x)
            return store
        if isinstance(v, ast.Slice):
            inner = self.lhs(v.value)
            read = self.lread(v.value)
            lo, hi, full = v.start, v.stop, len(v.value)
            def store(sim, env, x, cond):
                old = read(sim, env)
                new = t.concat(t.extract(old, 0, lo), x, t.extract(old, hi, full - hi))
                inner(sim, env, new, cond)
            return store
        if isinstance(v, ast.Part):
            inner = self.lhs(v.value)
            read = self.lread(v.value)
            off = self.value(v.offset)
            stride, width, full = v.stride, v.width, len(v.value)
            def store(sim, env, x, cond):
                old = read(sim, env)
                o = off(sim)
                if o.op == "k":
                    new = _splice(old, o.v * stride, x)
                else:
                    new = old
                    for k in range(0, (full - 1) // stride + 1):
                        if k >> o.w:
                            break
                        new = t.ite(t.eq(o, t.const(k, o.w)), _splice(old, k * stride, x), new)
                inner(sim, env, new, cond)
            return store
        if isinstance(v, ast.Cat):
            parts = [(self.lhs(p), len(p)) for p in v.parts]
            def store(sim, env, x, cond):
                o = 0
                for st, w in parts:
                    st(sim, env, t.extract(x, o, w), cond)
                    o += w
            return store
        if isinstance(v, ast.ArrayProxy):
            elems = [ast.Value.cast(e) for e in v.elems]
            stores = [(self.lhs(e), len(e)) for e in elems]
            index = self.value(v.index)
            n = len(elems)
            signed = v.shape().signed
            def store(sim, env, x, cond):
                if not stores:
                    return
                ix = index(sim)
                if ix.op == "k":
                    st, w = stores[min(ix.v, n - 1)]
                    st(sim, env, t.ext(x, w, signed), cond)
                    return
                for k in range(n):
                    st, w = stores[k]
                    if k >> ix.w and k < n - 1:
                        continue
                    if k == n - 1:
                        if k >> ix.w:
                            continue
                        c = t.bnot(t.ult(ix, t.const(k, ix.w)))
                    else:
                        c = t.eq(ix, t.const(k, ix.w))
                    if cond is not None:
                        c = t.band(cond, c)
                    if c.op == "k" and not c.v:
                        continue
                    st(sim, env, t.ext(x, w, signed), c)
            return store
        if isinstance(v, ast.Operator) and v.operator in ("u", "s"):
            return self.lhs(v.operands[0])
        if isinstance(v, ast.ValueCastable):
            return self.lhs(ast.Value.cast(v))
        if isinstance(v, ast.UserValue):
            return self.lhs(v._lazy_lower())
        if hasattr(v, "fields") and isinstance(v, ast.Value):   # Record
            return self.lhs(ast.Cat(v.fields.values()))
        raise Unsupported("lvalue " + type(v).__name__)

    def lread(self, v):
        """Read of an lvalue's pending (next) contents, for read-modify-write."""
        if isinstance(v, ast.Signal):
            i = self.idx(v)
            return lambda sim, env: env.get(sim, i)
        if isinstance(v, ast.Slice):
            inner = self.lread(v.value)
            lo, w = v.start, v.stop - v.start
            return lambda sim, env: t.extract(inner(sim, env), lo, w)
        if isinstance(v, ast.Cat):
            parts = [self.lread(p) for p in v.parts]
            return lambda sim, env: t.concat(*[p(sim, env) for p in parts])
        if isinstance(v, ast.Operator) and v.operator in ("u", "s"):
            return self.lread(v.operands[0])
        if isinstance(v, ast.ArrayProxy):
            elems = [ast.Value.cast(e) for e in v.elems]
            parts = [self.lread(e) for e in elems]
            w = len(v)
            sg = [e.shape().signed for e in elems]
            index = self.value(v.index)
            def rd(sim, env):
                return t.select([t.ext(p(sim, env), w, s) for p, s in zip(parts, sg)], index(sim))
            return rd
        if isinstance(v, ast.UserValue):
            return self.lread(v._lazy_lower())
        if hasattr(v, "fields") and isinstance(v, ast.Value):
            return self.lread(ast.Cat(v.fields.values()))
        raise Unsupported("lvalue read " + type(v).__name__)

    # ---- rvalues: f(sim) -> term of width len(v) ----

    def value(self, v):
        if isinstance(v, ast.Const):
            k = (v.value, len(v))
            return lambda sim: t.const(*k)
        if isinstance(v, ast.Signal):
            i = self.idx(v)
            return lambda sim: sim.read(i)
        if isinstance(v, ast.Operator):
            return self._operator(v)
        if isinstance(v, ast.Slice):
            inner = self.value(v.value)
            lo, w = v.start, v.stop - v.start
            return lambda sim: t.extract(inner(sim), lo, w)
        if isinstance(v, ast.Part):
            inner = self.value(v.value)
            signed = v.value.shape().signed
            off = self.value(v.offset)
            stride, width, full = v.stride, v.width, len(v.value)
            def part(sim):
                x = inner(sim)
                o = off(sim)
                n = (full - 1) // stride + 1 if full else 1
                x = t.ext(x, max(full, n * stride + width), signed)
                fill = t.sext(t.extract(x, x.w - 1, 1), width) if signed and full else t.const(0, width)
                if o.op == "k":
                    lo = o.v * stride
                    return t.extract(x, lo, width) if lo + width <= x.w else fill
                elems = []
                for k in range(min(n, 1 << o.w)):
                    elems.append(t.extract(x, k * stride, width))
                if (1 << o.w) > n:
                    elems.append(fill)
                return t.select(elems, o)
            return part
        if isinstance(v, ast.Cat):
            parts = [self.value(p) for p in v.parts]
            return lambda sim: t.concat(*[p(sim) for p in parts])
        if isinstance(v, ast.ArrayProxy):
            elems = [ast.Value.cast(e) for e in v.elems]
            if not elems:
                w0 = len(v)
                return lambda sim: t.const(0, w0)
            vals = [(self.value(e), e.shape().signed) for e in elems]
            w = len(v)
            index = self.value(v.index)
            n = len(vals)
            def arr(sim):
                ix = index(sim)
                if ix.op == "k":
                    f, s = vals[min(ix.v, n - 1)]
                    return t.ext(f(sim), w, s)
                # never look at elements the index cannot reach
                m = min(n, 1 << ix.w)
                xs = [t.ext(f(sim), w, s) for f, s in vals[:m]]
                return t.select(xs, ix)
            return arr
        if isinstance(v, ast.ValueCastable) and not isinstance(v, ast.Value):
            return self.value(ast.Value.cast(v))
        if isinstance(v, ast.UserValue):
            return self.value(v._lazy_lower())
        if hasattr(v, "fields") and isinstance(v, ast.Value):
            return self.value(ast.Cat(v.fields.values()))
        raise Unsupported("value " + type(v).__name__)

    def _operator(self, v):
        op = v.operator
        w = len(v)
        ops = [self.value(o) for o in v.operands]
        sg = [o.shape().signed for o in v.operands]
        ln = [len(o) for o in v.operands]
        if len(ops) == 1:
            a = ops[0]
            s = sg[0]
            if op == "~": return lambda sim: t.bnot(t.ext(a(sim), w, s))
            if op == "-": return lambda sim: t.neg(t.ext(a(sim), w, s))
            if op in ("b", "r|"): return lambda sim: t.any_bit(a(sim))
            if op == "r&": return lambda sim: t.all_bits(a(sim))
            if op == "r^": return lambda sim: t.parity(a(sim))
            if op in ("u", "s"): return lambda sim: a(sim)
        elif len(ops) == 2:
            a, b = ops
            sa, sb = sg
            if op in ("+", "-", "*", "&", "|", "^"):
                f = {"+": t.add, "-": t.sub, "*": t.mul, "&": t.band, "|": t.bor, "^": t.bxor}[op]
                return lambda sim: f(t.ext(a(sim), w, sa), t.ext(b(sim), w, sb))
            if op in ("==", "!=", "<", "<=", ">", ">="):
                cw = max(ln[0] + (1 if sb and not sa else 0), ln[1] + (1 if sa and not sb else 0))
                lt = t.slt if (sa or sb) else t.ult
                def cmp(sim):
                    x = t.ext(a(sim), cw, sa)
                    y = t.ext(b(sim), cw, sb)
                    if op == "==": return t.eq(x, y)
                    if op == "!=": return t.bnot(t.eq(x, y))
                    if op == "<": return lt(x, y)
                    if op == ">": return lt(y, x)
                    if op == "<=": return t.bnot(lt(y, x))
                    return t.bnot(lt(x, y))
                return cmp
            if op == "<<":
                if sb: raise Unsupported("shift by signed")
                return lambda sim: t.shl(t.ext(a(sim), w, sa), b(sim))
            if op == ">>":
                if sb: raise Unsupported("shift by signed")
                wx = max(w, ln[0])
                f = t.ashr if sa else t.lshr
                return lambda sim: t.ext(f(t.ext(a(sim), wx, sa), b(sim)), w, sa)
            if op in ("//", "%"):
                cw = max(ln[0], ln[1]) + 2
                if sa or sb:
                    f = t.sdiv_floor if op == "//" else t.smod_floor
                else:
                    f = t.udiv if op == "//" else t.urem
                return lambda sim: t.ext(f(t.ext(a(sim), cw, sa), t.ext(b(sim), cw, sb)), w, True)
        elif len(ops) == 3 and op == "m":
            c, a, b = ops
            _, sa, sb = sg
            def mux(sim):
                x = c(sim)
                if x.w != 1:
                    x = t.any_bit(x)
                if x.op == "k":
                    return t.ext(a(sim), w, sa) if x.v else t.ext(b(sim), w, sb)
                return t.ite(x, t.ext(a(sim), w, sa), t.ext(b(sim), w, sb))
            return mux
        raise Unsupported("operator " + op)


def _splice(old, lo, x):
    full = old.w
    if lo >= full:
        return old
    w = min(x.w, full - lo)
    return t.concat(t.extract(old, 0, lo), t.extract(x, 0, w), t.extract(old, lo + w, full - lo - w))


class _Env:
    """Overlay of pending assignments."""
    __slots__ = ("new", "parent")

    def __init__(self, parent):
        self.new = {}
        self.parent = parent

    def get(self, sim, i):
        e = self
        while e is not None:
            if type(e) is _Root:
                return e.get(sim, i)
            r = e.new.get(i)
            if r is not None:
                return r
            e = e.parent

    def put(self, i, v):
        self.new[i] = v


class _Root:
    __slots__ = ("new", "comb", "consts")

    def __init__(self, comb):
        self.new = {}
        self.comb = comb

    def get(self, sim, i):
        r = self.new.get(i)
        if r is None:
            s = sim.d.signals[i]
            if self.comb:
                r = t.const(s.reset, len(s))
            else:
                r = sim.read(i)
        return r

    def put(self, i, v):
        self.new[i] = v


class SymSim:
    """Symbolic execution of a Design: set inputs, read anything, tick clocks."""

    def __init__(self, design):
        self.d = design
        self.state = {}          # idx -> term: registers and inputs
        self.cache = {}          # comb values of the present cycle
        self.force = {}

    def reset_value(self, i):
        s = self.d.signals[i]
        return t.const(s.reset, len(s))

    def read(self, i):
        r = self.cache.get(i)
        if r is not None:
            return r
        g = self.d.comb_of.get(i)
        if g is None:
            r = self.state.get(i)
            if r is None:
                r = self.reset_value(i)
            return r
        if g.busy:
            raise CombLoop(self.d.signals[i].name)
        g.busy = True
        try:
            env = _Root(True)
            g.run(self, env)
        finally:
            g.busy = False
        for j in g.signals:
            v = env.new.get(j)
            self.cache[j] = v if v is not None else self.reset_value(j)
        return self.cache[i]

    def set(self, i, term):
        if i in self.d.comb_of or i in self.d.domain_of:
            raise Unsupported("driving the driven signal " + self.d.signals[i].name)
        old = self.state.get(i)
        if old is not term:
            self.state[i] = term
            self.cache.clear()

    def ticking(self, domains):
        """the domains that see an edge when the given ones (None: all) have one: those, and those clocked by one of them"""
        d = self.d
        prim = d.primary()
        out = set(prim if domains is None else [n for n in prim if n in domains])
        for name, cd in d.clks.items():
            if name in prim:
                continue
            if cd.async_reset and cd.rst is not None:
                r = self.read(d.idx(cd.rst))
                if r.op != "k" or r.v:
                    raise Unsupported("asynchronous reset in use")
            lvl = []
            for v in (0, 1):
                for n in out & set(prim):
                    self.set(d.idx(d.clks[n].clk), t.const(v, 1))
                lvl.append(self.read(d.idx(cd.clk)))
            for n in out & set(prim):
                self.set(d.idx(d.clks[n].clk), t.const(0, 1))
            if any(x.op != "k" for x in lvl):
                raise Unsupported("gated clock")
            if [x.v for x in lvl] == [0, 1]:
                out.add(name)
            elif lvl[0].v != lvl[1].v:
                raise Unsupported("inverted clock")
        return out

    def tick(self, domains=None):
        upd = {}
        if len(self.d.clks) > 1:
            domains = self.ticking(domains)
        for dom, groups in self.d.sync.items():
            if domains is not None and dom not in domains:
                continue
            for idxs, run in groups:
                env = _Root(False)
                run(self, env)
                upd.update(env.new)
        self.state.update(upd)
        self.cache.clear()
