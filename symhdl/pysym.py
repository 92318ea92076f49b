"""Symbolic execution of plain Python code from /repo: integers and bytes whose value is a term.

The source of the module under test is compiled unchanged; only the names `int`, `bool`, `bytes`, `format`, `operator` and `re` it sees
are replaced, so that a symbolic integer passes for an int.  A symbolic condition that decides a branch splits the execution: `explore`
runs the code once per decision sequence and gives every result its path condition, so the union of the paths covers every input.
Integers carry exact (growing) widths and a sign, there is no wrap around."""
import builtins
import operator as _operator
import re as _re
import types
from . import terms as t


class Paths(BaseException):
    """the code does something this execution does not support"""


_ctx = None


class _Ctx:
    def __init__(self, prefix):
        self.prefix, self.taken, self.pc = prefix, [], t.const(1, 1)

    def decide(self, c):
        if c.op == "k":
            return bool(c.v)
        k = len(self.taken)
        v = self.prefix[k] if k < len(self.prefix) else True
        self.taken.append(v)
        self.pc = t.land(self.pc, c if v else t.lnot(c))
        return v


def explore(f, limit=4096):
    """[(path condition, result or exception)] over all decision sequences"""
    global _ctx
    out, todo = [], [[]]
    SymStr._chars.clear()
    while todo:
        prefix = todo.pop()
        old, _ctx = _ctx, _Ctx(prefix)
        try:
            try:
                r = f()
            except Exception as e:
                r = e
            c = _ctx
        finally:
            _ctx = old
        if not (c.pc.op == "k" and not c.pc.v):
            out.append((c.pc, r))
        for i in range(len(prefix), len(c.taken)):
            todo.append(c.taken[:i] + [False])
        if len(out) + len(todo) > limit:
            raise Paths("more than %d paths" % limit)
    return out


class SymBool:
    __slots__ = ["c"]

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if _ctx is None:
            raise Paths("branch on a symbolic condition outside explore")
        return _ctx.decide(self.c)

    def __xor__(self, o):
        return SymBool(self.c ^ _cond(o))
    __rxor__ = __xor__

    def __and__(self, o):
        return SymBool(t.land(self.c, _cond(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(t.lor(self.c, _cond(o)))
    __ror__ = __or__

    def __invert__(self):
        raise TypeError

    def __lshift__(self, n):
        return SymInt(self.c) << n

    def __eq__(self, o):
        return SymBool(t.iff(self.c, _cond(o)))
    __hash__ = None


def _cond(o):
    if isinstance(o, SymBool):
        return o.c
    if isinstance(o, SymInt):
        return t.any_bit(o.t)
    return t.const(int(builtins.bool(o)), 1)


def _sbits(v):
    """width of a concrete integer in two's complement"""
    return v.bit_length() + 1


class SymInt:
    """an integer; t is its two's complement (s) or plain binary (not s) representation"""
    __slots__ = ["t", "s"]

    def __init__(self, term, s=False):
        self.t, self.s = term, s

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(x.c)
        if isinstance(x, builtins.int):
            v = builtins.int(x)
            return SymInt(t.const(v, max(1, v.bit_length())), False) if v >= 0 else SymInt(t.const(v, _sbits(v)), True)
        return None

    def width(self):
        """bits needed in two's complement"""
        return self.t.w + (0 if self.s else 1)

    def to(self, w):
        return t.ext(self.t, w, self.s) if self.t.w <= w else t.extract(self.t, 0, w)

    def _bit(self, o, f):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        if not self.s and not o.s:
            w = max(self.t.w, o.t.w)
            return SymInt(f(self.to(w), o.to(w)))
        w = max(self.width(), o.width())
        return SymInt(f(self.to(w), o.to(w)), True)

    def __and__(self, o):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        # a nonnegative operand bounds the result
        if not self.s or not o.s:
            w = min(x.t.w for x in (self, o) if not x.s)
            return SymInt(self.to(w) & o.to(w))
        return self._bit(o, t.band)
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, t.bor)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, t.bxor)
    __rxor__ = __xor__

    def __invert__(self):
        w = self.width()
        return SymInt(t.bnot(self.to(w)), True)

    def _arith(self, o, f, extra):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        w = extra(self.width(), o.width())
        return SymInt(f(self.to(w), o.to(w)), True)

    def __add__(self, o):
        o2 = SymInt.of(o)
        if o2 is None:
            return NotImplemented
        if not self.s and not o2.s:
            w = max(self.t.w, o2.t.w) + 1
            return SymInt(self.to(w) + o2.to(w))
        return self._arith(o, lambda a, b: a + b, lambda a, b: max(a, b) + 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: max(a, b) + 1)

    def __rsub__(self, o):
        return SymInt.of(o) - self

    def __neg__(self):
        return 0 - self

    def __mul__(self, o):
        if not isinstance(o, (SymInt, SymBool, builtins.int)):
            return NotImplemented
        o = SymInt.of(o)
        if not self.s and not o.s:
            w = self.t.w + o.t.w
            return SymInt(t.mul(self.to(w), o.to(w)))
        return self._arith(o, t.mul, lambda a, b: a + b)
    __rmul__ = __mul__

    def _amount(self, n):
        n = _operator.index(n)
        if n < 0:
            raise ValueError("negative shift count")
        return n

    def __lshift__(self, n):
        n = self._amount(n)
        return SymInt(t.concat(t.const(0, n), self.t) if n else self.t, self.s)

    def __rlshift__(self, o):
        return o << _operator.index(self)

    def __rrshift__(self, o):
        return o >> _operator.index(self)

    def __rshift__(self, n):
        n = self._amount(n)
        if n >= self.t.w:
            return SymInt(t.ext(t.extract(self.t, self.t.w - 1, 1), 1, True), True) if self.s else SymInt(t.const(0, 1))
        return SymInt(t.extract(self.t, n, self.t.w - n), self.s)

    def _cmp(self, o, f):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        w = max(self.width(), o.width())
        return SymBool(f(self.to(w), o.to(w)))

    def __eq__(self, o):
        r = self._cmp(o, t.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else SymBool(t.lnot(r.c))

    def __lt__(self, o):
        return self._cmp(o, t.slt)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: t.slt(b, a))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: t.lnot(t.slt(b, a)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: t.lnot(t.slt(a, b)))
    __hash__ = None

    def __bool__(self):
        return builtins.bool(SymBool(t.any_bit(self.t)))

    def __index__(self):
        """the concrete value; when it is symbolic the execution splits, bit by bit, over all values"""
        v = self.t
        if v.op != "k":
            v = sum(builtins.bool(SymBool(v[i])) << i for i in range(v.w))
        else:
            v = v.v
        return v - (1 << self.t.w) if self.s and v >> (self.t.w - 1) else v
    __int__ = __index__

    def __format__(self, spec):
        m = _re.fullmatch(r"0?(\d+)b|b", spec)
        w = builtins.int(m.group(1) or 0) if m else 0
        if m and w >= self.t.w and not self.s:
            v = self.to(w)
            return SymStr([v[i] for i in range(w - 1, -1, -1)])
        if self.t.op != "k" and spec in ("", "d"):
            # decimal text, for messages; nothing reads it
            return "\ue000"
        return builtins.format(_operator.index(self), spec)

    def __str__(self):
        return self.__format__("")
    __repr__ = __str__

    def _div(self, o, f):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        if self.s or o.s or o.t.op != "k":
            # split over the values
            return getattr(_operator, f)(_operator.index(self), _operator.index(o))
        d = o.t.v
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if d & (d - 1) == 0:
            n = d.bit_length() - 1
            return self >> n if f == "floordiv" else self & (d - 1)
        w = max(self.t.w, o.t.w)
        return SymInt((t.udiv if f == "floordiv" else t.urem)(self.to(w), o.to(w)))

    def __floordiv__(self, o):
        return self._div(o, "floordiv")

    def __mod__(self, o):
        return self._div(o, "mod")

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return SymInt.of(o) // self

    def __rmod__(self, o):
        return SymInt.of(o) % self

    def __pow__(self, n):
        return _operator.index(self) ** n

    def __rpow__(self, o):
        return o ** _operator.index(self)

    def __abs__(self):
        if not self.s:
            return self
        v = -self if builtins.bool(self < 0) else self
        return SymInt(v.t)

    def __pos__(self):
        return self

    def bit_count(self):
        r = SymInt(t.const(0, 1))
        for i in range(self.t.w):
            r = r + SymInt(self.t[i])
        return r

    def bit_length(self):
        if self.s:
            return abs(self).bit_length() if self.t.w > 1 else builtins.int(builtins.bool(self))
        for n in range(self.t.w, 0, -1):
            if builtins.bool(SymBool(self.t[n - 1])):
                return n
        return 0

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            raise Paths("to_bytes signed")
        if builtins.bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not self.s and self.t.w > 8 * length and builtins.bool(SymInt(t.extract(self.t, 8 * length, self.t.w - 8 * length)) != 0):
            raise OverflowError("int too big to convert")
        x = self.to(8 * length)
        r = [SymInt(t.extract(x, 8 * i, 8)) for i in range(length)]
        return SymBytes(r if byteorder == "little" else r[::-1])


class SymBytes:
    """a bytes object of known length"""
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        return SymBytes(self.items[k]) if isinstance(k, slice) else self.items[k]

    def __iter__(self):
        return iter(self.items)

    def __add__(self, o):
        return SymBytes(self.items + list(o))

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, builtins.bytes, bytearray)):
            return False
        if len(o) != len(self):
            return False
        return SymBool(t.land(t.const(1, 1), *[(SymInt.of(a) == b).c for a, b in zip(self.items, o)]))
    __hash__ = None


class SymStr(str):
    """a string of binary digits, as terms; what is not defined here is refused.  The text holds one private character per
    term, so that strings joined by the interpreter itself can be read back."""
    _chars = []

    def __new__(cls, digits):
        digits = list(digits)
        text = ""
        for d in digits:
            for i, c in enumerate(cls._chars):
                if c is d:
                    break
            else:
                i = len(cls._chars)
                cls._chars.append(d)
            text += chr(0xf0000 + i)
        self = super().__new__(cls, text)
        self.digits = digits
        return self

    def __len__(self):
        return len(self.digits)

    def __getitem__(self, k):
        return SymStr(self.digits[k] if isinstance(k, slice) else [self.digits[k]])

    def __iter__(self):
        return (SymStr([d]) for d in self.digits)

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            raise Paths("format of a symbolic string")
        return self

    def __add__(self, o):
        return SymStr(self.digits + SymStr.of(o).digits)

    def __radd__(self, o):
        return SymStr.of(o) + self

    @staticmethod
    def of(o):
        if isinstance(o, SymStr):
            return o
        if isinstance(o, str) and all(c in "01" or ord(c) >= 0xf0000 for c in o):
            return SymStr([t.const(builtins.int(c), 1) if c in "01" else SymStr._chars[ord(c) - 0xf0000] for c in o])
        raise Paths("symbolic string with other text")

    def zfill(self, n):
        return SymStr([t.const(0, 1)] * (n - len(self)) + self.digits)

    def strip(self, *a):
        return self
    lstrip = rstrip = strip

    def replace(self, a, b, *n):
        if set(a) & set("01"):
            raise Paths("replace in a symbolic string")
        return self

    def startswith(self, p):
        if not set(p) <= set("01"):
            return False
        return self[:len(p)] == p

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if not isinstance(o, SymStr) and not all(c in "01" or ord(c) >= 0xf0000 for c in o):
            return False
        o = SymStr.of(o).digits
        if len(o) != len(self.digits):
            return False
        return SymBool(t.land(t.const(1, 1), *[t.iff(a, b) for a, b in zip(self.digits, o)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    __hash__ = None


def _refuse(name):
    def f(self, *a, **k):
        raise Paths("str.%s on a symbolic string" % name)
    return f


for _n in dir(str):
    if _n not in SymStr.__dict__ and _n not in dir(object):
        setattr(SymStr, _n, _refuse(_n))
for _n in ("__lt__", "__gt__", "__le__", "__ge__", "__contains__", "__mod__", "__mul__", "__rmul__"):
    setattr(SymStr, _n, _refuse(_n))


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._accept)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._accept)


class int_(metaclass=_Meta):
    _accept = (builtins.int, SymInt)

    def __new__(cls, x=0, *base):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(x.c)
        if isinstance(x, builtins.str) and (isinstance(x, SymStr) or any(ord(c) >= 0xf0000 for c in x)):
            if base != (2,):
                raise Paths("int of symbolic digits in another base")
            if not isinstance(x, SymStr):
                x = x.strip().replace("_", "")
            return SymInt(t.concat(*SymStr.of(x).digits[::-1]))
        return builtins.int(x, *base)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if isinstance(b, SymBytes):
            if signed or byteorder not in ("little", "big"):
                raise Paths("from_bytes")
            items = [SymInt.of(x).to(8) for x in b]
            return SymInt(t.concat(*(items if byteorder == "little" else items[::-1]))) if items else 0
        return builtins.int.from_bytes(b, byteorder, signed=signed)


class bool_(metaclass=_Meta):
    _accept = (builtins.bool, SymBool)

    def __new__(cls, x=False):
        if isinstance(x, (SymInt, SymBool)):
            return SymBool(_cond(x))
        return builtins.bool(x)


class bytes_(metaclass=_Meta):
    _accept = (builtins.bytes, SymBytes)

    def __new__(cls, *a):
        return a[0] if a and isinstance(a[0], SymBytes) else builtins.bytes(*a)


class str_(metaclass=_Meta):
    _accept = (builtins.str, SymStr)

    def __new__(cls, *a):
        if a and not isinstance(a[0], (builtins.str, builtins.bytes, builtins.int)) and hasattr(type(a[0]), "__str__"):
            return type(a[0]).__str__(a[0])
        return builtins.str(*a)


def format_(x, spec=""):
    return x.__format__(spec) if isinstance(x, SymInt) else builtins.format(x, spec)


def bin_(x):
    if isinstance(x, SymInt):
        x = _operator.index(x)
    return builtins.bin(x)


def ord_(x):
    return x if isinstance(x, SymInt) else builtins.ord(x)


_op = types.SimpleNamespace(**{k: getattr(_operator, k) for k in dir(_operator) if not k.startswith("__")})
_op.index = lambda x: x if isinstance(x, SymInt) else _operator.index(x)
_rx = types.SimpleNamespace(**{k: getattr(_re, k) for k in dir(_re) if not k.startswith("__")})


def _sub(pat, rep, s, *a):
    """re.sub; symbolic digits match what both 0 and 1 match"""
    if not isinstance(s, builtins.str) or all(ord(c) < 0xf0000 for c in builtins.str.__str__(s)):
        return _re.sub(pat, rep, s, *a)
    raw = "".join([builtins.str.__getitem__(s, i) for i in range(builtins.str.__len__(s))])
    if a or not isinstance(rep, builtins.str) or "\\" in rep:
        raise Paths("substitution in a symbolic string")
    spans = [[x.span() for x in _re.finditer(pat, "".join(d if ord(c) >= 0xf0000 else c for c in raw))] for d in "01"]
    if spans[0] != spans[1]:
        raise Paths("substitution that depends on symbolic digits")
    out, at = "", 0
    for i, j in spans[0]:
        out, at = out + raw[at:i] + rep, j
    out += raw[at:]
    return SymStr.of(out) if isinstance(s, SymStr) else out


_rx.sub = _sub

SHIMS = dict(int=int_, bool=bool_, bytes=bytes_, str=str_, format=format_, bin=bin_, ord=ord_)


class substituted:
    """while it lasts, imports of these module names give the given modules"""
    def __init__(self, mods):
        self.mods = mods

    def __enter__(self):
        import sys
        self.old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        import sys
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


def load(module_name):
    """the module's source, executed with the names above replaced; imports of operator and re are redirected afterwards"""
    import importlib.util
    spec = importlib.util.find_spec(module_name)
    src = open(spec.origin).read()
    mod = types.ModuleType(module_name)
    mod.__file__ = spec.origin
    mod.__package__ = module_name.rpartition(".")[0]
    mod.__dict__.update(SHIMS)
    exec(compile(src, spec.origin, "exec"), mod.__dict__)
    for k, v in (("operator", _op), ("re", _rx)):
        if k in mod.__dict__:
            mod.__dict__[k] = v
    return mod


def real(module_name):
    import importlib
    return importlib.import_module(module_name)


class Calls:
    """Calls into a module of plain Python: symbolic on the symbolic machine, the module itself with plain values in a concrete run.

    call(name, f, show, check): f(mod) is executed on every path; show(result) -> [term...] of fixed widths that describe the result,
    compared between encoding and real run; check(result) -> [(what, condition)] must hold on every path."""
    def __init__(self, m, module_name, also=()):
        self.m = m
        self.subst = substituted({} if m.concrete else {k: load(k) for k in also})
        with self.subst:
            self.mod = real(module_name) if m.concrete else load(module_name)
        self.name = module_name

    def spaced(self, parts):
        """a string of the given digits (terms) with other text between them"""
        return "".join(x if isinstance(x, builtins.str) else builtins.str.__str__(self.str([x])) for x in parts)

    def int(self, term, signed=False):
        if not self.m.concrete:
            return SymInt(term, signed)
        v = term.v
        return v - (1 << term.w) if signed and v >> (term.w - 1) else v

    def bytes(self, terms):
        return builtins.bytes(x.v for x in terms) if self.m.concrete else SymBytes([SymInt(x) for x in terms])

    def text(self, terms):
        """a string of characters with these codes; code that looks at them otherwise than with ord is not encoded"""
        return "".join(builtins.chr(x.v) for x in terms) if self.m.concrete else [SymInt(x) for x in terms]

    def str(self, terms):
        return "".join(builtins.str(x.v) for x in terms) if self.m.concrete else SymStr(terms)

    def call(self, name, f, show, check, raises=None):
        m = self.m

        def run():
            try:
                r = f(self.mod)
            except Exception as e:
                return e, None, None
            return r, show(r), check(r)
        try:
            with self.subst:
                paths = explore(run)
        except Paths as e:
            # a construct this execution does not support: nothing is claimed for this call
            m.note("not encoded: %s (%s)" % (name, e))
            return 0
        merged = None
        for pc, x in paths:
            if isinstance(x, Exception):
                x = (x, None, None)
            r, shown, conds = x
            if isinstance(r, Exception):
                m.check("%s: raises %s as it should" % (name, type(r).__name__) if raises is not None else "%s: raises nothing" % name,
                        t.lnot(pc) if raises is None or not isinstance(r, raises[0]) else t.implies(pc, raises[1]))
                continue
            if raises is not None:
                m.check("%s: raises" % name, t.implies(pc, t.lnot(raises[1])))
            for what, c in conds:
                m.check("%s: %s" % (name, what), t.implies(pc, c))
            merged = shown if merged is None else [t.ite(pc, a, b) for a, b in zip(shown, merged)]
        if raises is None and merged is not None:
            m.log.extend(merged)
        return len(paths)


def same(x, term, signed=False):
    """the integer x, symbolic or not, has the value of the term"""
    x = SymInt.of(x)
    return t.const(0, 1) if x is None else (x == SymInt(term, signed)).c


def low(x, w):
    """the low w bits of an integer as a term"""
    x = SymInt.of(x)
    return t.const(0, w) if x is None else x.to(w)
