"""The two machines a harness runs on.

SymMachine  executes the real elaborated design symbolically and collects proof obligations.
SimMachine  executes the same harness on Amaranth's own simulator (pysim) with concrete inputs;
            it is used to replay counterexamples and to validate the translation.
"""
import random
import time
import warnings
from amaranth.hdl import ast, ir
from amaranth.hdl.ir import Fragment
from . import terms as t
from .compile import Design, SymSim, Unsupported


def _prepare(obj):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Fragment.get(obj, None).prepare()


class _Handle:
    def __init__(self, m, obj):
        self.m = m
        self.top = obj
        self.frag = _prepare(obj)
        self.design = Design(self.frag)
        self._vals = {}

    def _value(self, v):
        if isinstance(v, ast.Signal):
            return None, self.design.idx(v)
        f = self._vals.get(id(v))
        if f is None:
            f = self._vals[id(v)] = (self.design.value(ast.Value.cast(v)), v)
        return f[0], None

    def get(self, v):
        """Term for the present value of a signal / expression."""
        f, i = self._value(v)
        r = self._read(i) if f is None else f(self)
        self.m.log.append(r)
        return r

    def _as_term(self, x, w, signed=False):
        if isinstance(x, t.T):
            return t.zext(x, w) if x.w < w else t.extract(x, 0, w)
        return t.const(int(x), w)

    def set(self, sig, x):
        if isinstance(sig, ast.Signal):
            self._set(sig, self._as_term(x, len(sig)))
        else:
            if hasattr(sig, "fields"):
                parts = list(sig.fields.values())
            elif isinstance(sig, ast.Cat):
                parts = list(sig.parts)
            else:
                raise TypeError(type(sig))
            x = self._as_term(x, len(sig))
            off = 0
            for p in parts:
                self.set(p, t.extract(x, off, len(p)))
                off += len(p)

    def is_input(self, sig):
        i = self.design.idx(sig)
        return i not in self.design.comb_of and i not in self.design.domain_of


class _SymHandle(_Handle):
    def __init__(self, m, obj):
        super().__init__(m, obj)
        self.sim = SymSim(self.design)
        self.n = 0

    def read(self, i):
        return self.sim.read(i)
    _read = read

    def _set(self, sig, x):
        self.sim.set(self.design.idx(sig), x)

    def poke(self, sig, x):
        """put a register into the given state"""
        self.sim.state[self.design.idx(sig)] = self._as_term(x, len(sig))
        self.sim.cache.clear()

    def tick(self, domains=None):
        self.sim.tick(self.only if domains is None else domains)
        self.n += 1
        self.m.cycles += 1

    def stats(self):
        return dict(signals=len(self.design.signals),
                    registers=len(self.design.domain_of),
                    register_bits=sum(len(self.design.signals[i]) for i in self.design.domain_of))


class _PyHandle(_Handle):
    def __init__(self, m, obj):
        super().__init__(m, obj)
        from amaranth.sim.pysim import PySimEngine
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.eng = PySimEngine(self.frag)
        self.dirty = True

    def _slot(self, sig):
        st = self.eng._state
        return st.slots[st.get_signal(sig)]

    def _settle(self):
        if self.dirty:
            self.dirty = False
            self.eng._step()

    def read(self, i):
        self._settle()
        s = self.design.signals[i]
        return t.const(self._slot(s).curr, len(s))
    _read = read

    def poke(self, sig, x):
        self._set(sig, self._as_term(x, len(sig)))

    def _set(self, sig, x):
        assert x.op == "k", "symbolic value in a concrete run"
        v = x.v
        if sig.shape().signed and v >> (len(sig) - 1):
            v -= 1 << len(sig)
        self._slot(sig).set(v)
        self.dirty = True

    def tick(self, domains=None):
        domains = self.only if domains is None else domains
        self._settle()
        cds = [self.design.clks[n] for n in self.design.primary() if domains is None or n in domains]
        for cd in cds:
            self._slot(cd.clk).set(1 if cd.clk_edge == "pos" else 0)
        self.eng._step()
        for cd in cds:
            self._slot(cd.clk).set(0 if cd.clk_edge == "pos" else 1)
        self.eng._step()
        self.m.cycles += 1


class _Machine:
    concrete = False

    def __init__(self):
        self.log = []
        self.inputs = {}         # name -> width
        self.pc = t.const(1, 1)
        self.cycles = 0
        self.encoded = []
        self.handles = []
        self.notes = []

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def elab(self, obj, domain=None):
        """the elaborated object; with a domain, its tick() is an edge of that clock domain alone"""
        h = self._H(self, obj)
        h.only = domain and [domain]
        self.handles.append(h)
        self.encoded.append(obj)
        return h

    plan = None

    def planned(self, name, w):
        """the value the configuration's schedule fixes for this input, or None"""
        if self.plan:
            base = name.rstrip("0123456789")
            seq = self.plan.get(base)
            if seq and base != name:
                v = seq[int(name[len(base):]) % len(seq)]
                if v is not None:
                    return t.const(v & ((1 << w) - 1), w)
        return None

    def range(self, name, w, lo, hi):
        """Input constrained to lo..hi inclusive."""
        x = self.input(name, w)
        self.assume(t.land(t.bnot(t.ult(x, t.const(lo, w))), t.bnot(t.ult(t.const(hi, w), x))))
        return x


class SymMachine(_Machine):
    _H = _SymHandle

    def __init__(self):
        super().__init__()
        self.obligations = []    # (name, cycle, pc, cond)
        self.covers = []         # (name, pc, cond)

    def input(self, name, w=1):
        p = self.planned(name, w)
        if p is not None:
            return p
        assert name not in self.inputs, name
        self.inputs[name] = w
        return t.var(name, w)

    def assume(self, c):
        self.pc = t.band(self.pc, c)

    def check(self, name, c):
        self.obligations.append((name, self.cycles, self.pc, c))

    def cover(self, name, c):
        self.covers.append((name, self.pc, c))


class SimMachine(_Machine):
    concrete = True
    _H = _PyHandle

    def __init__(self, assignment, rng=None):
        super().__init__()
        self.assignment = assignment
        self.rng = rng
        self.failures = []
        self.covered = set()
        self.assumed = True
        self.used = {}

    def input(self, name, w=1):
        p = self.planned(name, w)
        if p is not None:
            return p
        if name in self.assignment:
            v = self.assignment[name]
        elif self.rng is not None:
            v = self.rng.getrandbits(w) if w else 0
        else:
            v = 0
        self.used[name] = v
        return t.const(v, w)

    def assume(self, c):
        assert c.op == "k"
        if not c.v:
            self.assumed = False

    def check(self, name, c):
        assert c.op == "k", (name, c)
        if not c.v and self.assumed:
            self.failures.append((name, self.cycles))

    def cover(self, name, c):
        if c.v and self.assumed:
            self.covered.add(name)
