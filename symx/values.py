"""Symbolic values.

SymInt   exact Python integers: a bit-vector read as signed, with a tracked
         interval; every operation widens the vector so that nothing wraps.
SymBool  a Z3 Boolean; truth-testing it is a decision of the engine.
SymFloat an opaque IEEE-754 pattern.
SymStr / SymBytes  sequences of concrete length whose elements may be symbolic.
Rope     bytes of symbolic length, made of slices of symbolic buffers.
"""

import math
import z3
from .engine import Engine, PathAbort


class Unsupported(BaseException):
    """Operation without a symbolic model; callers concretise instead"""


def modelled(*real):
    """Stand-in for a class or module: what the real one has and this one lacks is unsupported, not an AttributeError"""
    names = {n for r in real for n in (r if isinstance(r, (list, tuple)) else dir(r))}

    def decorate(cls):
        def __getattr__(self, name):
            if name in names and not name.startswith('_'):
                raise Unsupported(f"{cls.__name__}.{name} is not modelled")
            raise AttributeError(f"{cls.__name__!r} object has no attribute {name!r}", name=name, obj=self)
        cls.__getattr__ = __getattr__
        return cls
    return decorate


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base class of all symbolic proxies"""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def need_bits(lo, hi):
    """Width of a signed vector able to hold lo..hi"""
    n = max(hi.bit_length() if hi >= 0 else (-hi - 1).bit_length(),
            lo.bit_length() if lo >= 0 else (-lo - 1).bit_length())
    return n + 1


def sext(e, w):
    n = e.size()
    if n == w:
        return e
    if n < w:
        return z3.SignExt(w - n, e)
    return z3.Extract(w - 1, 0, e)


MAX_WIDTH = 1024


def mkint(e, lo, hi):
    if lo == hi:
        return lo
    w = need_bits(lo, hi)
    if w > MAX_WIDTH:
        raise Unsupported('integer too wide')
    return SymInt(sext(e, w), lo, hi)


def mkbool(c):
    if isinstance(c, (bool, SymBool)):
        return c
    return SymBool(c)


def zbool(c):
    """Z3 Boolean from bool or SymBool"""
    if isinstance(c, SymBool):
        return c.c
    return z3.BoolVal(bool(c))


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c.c)
        elif not c:
            return False
    if not out:
        return True
    return SymBool(z3.And(*out) if len(out) > 1 else out[0])


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c.c)
        elif c:
            return True
    if not out:
        return False
    return SymBool(z3.Or(*out) if len(out) > 1 else out[0])


def Not(c):
    if isinstance(c, SymBool):
        return SymBool(z3.Not(c.c))
    return not c


class SymBool(Sym):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return Engine.cur.branch(self.c)

    def as_int(self):
        return SymInt(z3.If(self.c, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return And(self, o)
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return Or(self, o)
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.Xor(self.c, zbool(o)))
        return self.as_int() ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return ~self.as_int()

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.c == zbool(o))
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return f"SymBool({self.c})"

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))


def _bool_arith(name):
    def f(self, o):
        return getattr(self.as_int(), name)(o)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lshift', 'rlshift', 'rshift', 'rrshift', 'floordiv', 'mod', 'lt', 'le', 'gt', 'ge', 'truediv'):
    setattr(SymBool, f'__{_n}__', _bool_arith(f'__{_n}__'))


def toint(o):
    """int or SymInt from an int-like operand, None if it is not one"""
    if isinstance(o, SymInt):
        return o
    if isinstance(o, SymBool):
        return o.as_int()
    if isinstance(o, int):
        return int(o)
    return None


def bounds(o):
    return (o.lo, o.hi) if isinstance(o, SymInt) else (o, o)


def bv(o, w):
    if isinstance(o, SymInt):
        return sext(o.e, w)
    return z3.BitVecVal(o, w)


def ubv(o, w):
    """Low w bits, as a bit-vector"""
    if isinstance(o, SymInt):
        return sext(o.e, w)
    return z3.BitVecVal(o & ((1 << w) - 1), w)


def _round(o, up):
    """The integer to compare with instead of a float"""
    if isinstance(o, float) and math.isfinite(o):
        return math.ceil(o) if up else math.floor(o)
    return o


class SymInt(Sym):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    @staticmethod
    def from_ubv(v):
        n = v.size()
        return SymInt(z3.ZeroExt(1, v), 0, (1 << n) - 1)

    @staticmethod
    def from_sbv(v):
        n = v.size()
        return SymInt(v, -(1 << (n - 1)), (1 << (n - 1)) - 1)

    # arithmetic

    def _bin(self, o, f, lo, hi):
        w = max(need_bits(lo, hi), need_bits(*bounds(self)), need_bits(*bounds(o)))
        if w > MAX_WIDTH:
            raise Unsupported('integer too wide')
        return mkint(f(bv(self, w), bv(o, w)), lo, hi)

    def __add__(self, o):
        o = toint(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        ol, oh = bounds(o)
        return self._bin(o, lambda a, b: a + b, self.lo + ol, self.hi + oh)
    __radd__ = __add__

    def __sub__(self, o):
        o = toint(o)
        if o is None:
            return NotImplemented
        if o is self:
            return 0
        ol, oh = bounds(o)
        return self._bin(o, lambda a, b: a - b, self.lo - oh, self.hi - ol)

    def __rsub__(self, o):
        o = toint(o)
        if o is None:
            return NotImplemented
        ol, oh = bounds(o)
        return self._bin(o, lambda a, b: b - a, ol - self.hi, oh - self.lo)

    def __neg__(self):
        return self.__rsub__(0)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        m = -self
        w = max(need_bits(self.lo, self.hi), need_bits(*bounds(m)))
        a = bv(self, w)
        return mkint(z3.If(a < 0, -a, a), 0, max(abs(self.lo), abs(self.hi)))

    def __mul__(self, o):
        oi = toint(o)
        if oi is None:
            return NotImplemented
        o = oi
        ol, oh = bounds(o)
        ps = (self.lo * ol, self.lo * oh, self.hi * ol, self.hi * oh)
        return self._bin(o, lambda a, b: a * b, min(ps), max(ps))

    __rmul__ = __mul__

    def __and__(self, o):
        o = toint(o)
        if o is None:
            return NotImplemented
        ol, oh = bounds(o)
        if self.lo >= 0 and ol >= 0:
            lo, hi = 0, min(self.hi, oh)
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        elif ol >= 0:
            lo, hi = 0, oh
        else:
            w = max(need_bits(self.lo, self.hi), need_bits(ol, oh))
            lo, hi = -(1 << (w - 1)), max(self.hi, oh)
        return self._bin(o, lambda a, b: a & b, lo, hi)
    __rand__ = __and__

    def _orx(self, o, f):
        o = toint(o)
        if o is None:
            return NotImplemented
        ol, oh = bounds(o)
        w = max(need_bits(self.lo, self.hi), need_bits(ol, oh))
        if self.lo >= 0 and ol >= 0:
            lo, hi = 0, (1 << (w - 1)) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bin(o, f, lo, hi)

    def __or__(self, o):
        return self._orx(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._orx(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        k = concrete_small(toint(o))
        if k < 0:
            raise ValueError("negative shift count")
        if k > MAX_WIDTH:
            raise Unsupported('shift')
        return mkint(sext(self.e, self.e.size() + k) << k, self.lo << k, self.hi << k)

    def __rlshift__(self, o):
        k = concrete_small(self)
        return o << k

    def __rshift__(self, o):
        k = concrete_small(toint(o))
        if k < 0:
            raise ValueError("negative shift count")
        if k >= self.e.size():
            k = self.e.size() - 1
        return mkint(self.e >> k, self.lo >> k, self.hi >> k)

    def __rrshift__(self, o):
        k = concrete_small(self)
        return o >> k

    def _divmod(self, o):
        o = toint(o)
        if o is None:
            return None
        if isinstance(o, SymInt):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if o.lo >= 0 and self.lo >= 0:
                w = max(need_bits(self.lo, self.hi), need_bits(o.lo, o.hi))
                a, b = bv(self, w), bv(o, w)
                return mkint(z3.UDiv(a, b), 0, self.hi), mkint(z3.URem(a, b), 0, min(self.hi, max(o.hi - 1, 0)))
            return self._divmod(concrete_small(o))
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            q, r = (-self)._divmod(-o)
            return q, -r
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            return self >> k, self & (o - 1)
        K = 0
        x = self
        if self.lo < 0:
            K = -(self.lo // o)
            x = self + K * o
        w = max(need_bits(x.lo, x.hi), need_bits(o, o))
        a, b = bv(x, w), z3.BitVecVal(o, w)
        q = mkint(z3.UDiv(a, b), x.lo // o, x.hi // o)
        r = mkint(z3.URem(a, b), 0, min(o - 1, x.hi))
        return q - K, r

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def _lift(self, o):
        return SymInt(z3.BitVecVal(o, need_bits(o, o)), o, o)

    def __rfloordiv__(self, o):
        return self._lift(toint(o))._divmod(self)[0]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return self._lift(toint(o))._divmod(self)[1]

    def __rdivmod__(self, o):
        return self._lift(toint(o))._divmod(self)

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o, mod=None):
        return pow(concrete_small(self), o, mod)

    def __rpow__(self, o, mod=None):
        return pow(o, concrete_small(self), mod)

    # comparisons

    def _cmp(self, o, f, always, never):
        o = toint(o)
        if o is None:
            return NotImplemented
        ol, oh = bounds(o)
        if always(self.lo, self.hi, ol, oh):
            return True
        if never(self.lo, self.hi, ol, oh):
            return False
        w = max(need_bits(self.lo, self.hi), need_bits(ol, oh))
        return SymBool(f(bv(self, w), bv(o, w)))

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, float):
            return self == int(o) if o.is_integer() else False
        return self._cmp(o, lambda a, b: a == b, lambda *a: False, lambda l, h, ol, oh: h < ol or oh < l)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __lt__(self, o):
        o = _round(o, True)
        return self._cmp(o, lambda a, b: a < b, lambda l, h, ol, oh: h < ol, lambda l, h, ol, oh: l >= oh)

    def __le__(self, o):
        o = _round(o, False)
        return self._cmp(o, lambda a, b: a <= b, lambda l, h, ol, oh: h <= ol, lambda l, h, ol, oh: l > oh)

    def __gt__(self, o):
        o = _round(o, False)
        return self._cmp(o, lambda a, b: a > b, lambda l, h, ol, oh: l > oh, lambda l, h, ol, oh: h <= ol)

    def __ge__(self, o):
        o = _round(o, True)
        return self._cmp(o, lambda a, b: a >= b, lambda l, h, ol, oh: l >= oh, lambda l, h, ol, oh: h < ol)

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else Engine.cur.branch(r.c)

    # concretisation

    def __index__(self):
        return concrete_int(self)
    __int__ = __index__

    def __hash__(self):
        return hash(concrete_int(self))

    def __float__(self):
        return float(concrete_int(self))

    def __format__(self, spec):
        return format(concrete_int(self), spec)

    def __str__(self):
        return str(concrete_int(self))

    def __repr__(self):
        return f"SymInt[{self.lo},{self.hi}]"

    def bit_length(self):
        n = 0
        x = abs(self)
        while x >> n:
            n += 1
        return n

    def bit_count(self):
        n = 0
        for i in range(self.e.size()):
            n = n + ((self >> i) & 1)
        return n

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed:
            ok = And(self >= -(1 << (8 * length - 1)), self < (1 << (8 * length - 1)))
        else:
            ok = And(self >= 0, self < (1 << (8 * length)))
        if not ok:
            raise OverflowError("int too big to convert")
        elems = [(self >> (8 * i)) & 255 for i in range(length)]
        return mkbytes(elems if byteorder == 'little' else elems[::-1])


MAX_ENUM = 64


def concrete_int(x):
    """Enumerate the feasible values of x as decisions"""
    if not isinstance(x, SymInt):
        return int(x)
    eng = Engine.cur
    if eng is None or eng.dead:
        return x.lo
    n = 0
    while True:
        v = eng.pick(x.e)
        if eng.branch(x.e == v):
            return v
        n += 1
        if n >= MAX_ENUM:
            mark_incomplete('value enumeration')
            eng.abort('enumeration')


def concrete_small(x):
    return concrete_int(x) if isinstance(x, Sym) else x


def mark_incomplete(reason):
    eng = Engine.cur
    if eng is not None and not eng.dead:
        eng.stats.concretised += 1
        eng.incomplete.add(reason)


class SymFloat(Sym):
    """Opaque float: only its bit pattern (and whether it came from 4 or 8 bytes) is known"""
    __slots__ = ('bits', 'size')

    def __init__(self, bits, size):
        self.bits = bits
        self.size = size

    def __eq__(self, o):
        if isinstance(o, SymFloat):
            return And(self.size == o.size, self.bits == o.bits)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        raise TypeError("unhashable symbolic float")

    def concrete(self):
        import struct
        b = concrete_int(self.bits)
        return struct.unpack('<f' if self.size == 4 else '<d', b.to_bytes(self.size, 'little'))[0]

    def __float__(self):
        return self.concrete()

    def __repr__(self):
        return 'SymFloat'


class Opaque:
    """A text fragment known only by how it was made: (tag, payload)"""
    __slots__ = ('tag', 'payload')

    def __init__(self, tag, payload):
        self.tag = tag
        self.payload = payload

    def eq(self, o):
        if not isinstance(o, Opaque) or o.tag != self.tag:
            return False
        return symeq(self.payload, o.payload)


def symeq(a, b):
    """Equality of two plain or symbolic values, without forking where possible"""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return And(*[symeq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return r


def elem_eq(a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(a, Opaque):
            return a.eq(b)
        return False
    return a == b


# ---------------------------------------------------------------- sequences

def _norm_slice(s, n):
    """Concrete slice indices for a sequence of concrete length n"""
    def f(v):
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, SymInt):
            # clamp before enumerating, to bound the number of cases
            if v >= n:
                return n
            if v < -n:
                return -n - 1
            return concrete_int(v)
        return concrete_int(v)
    return slice(f(s.start), f(s.stop), f(s.step))


class SymSeq(Sym):
    """Sequence of elements (ints or SymInts), concrete length"""
    __slots__ = ('_el',)
    native = None

    @property
    def el(self):
        return self._el

    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return len(self.el) > 0

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        """Native value, enumerating the feasible ones"""
        return self._native([concrete_int(x) if not isinstance(x, Opaque) else self._opaque_concrete(x) for x in self.el])

    def _opaque_concrete(self, x):
        mark_incomplete('opaque text')
        return 0xfffd

    def _coerce(self, o):
        """Elements of a compatible operand, None otherwise"""
        if isinstance(o, type(self)):
            return o.el
        if isinstance(o, self.native):
            return self._elems_of(o)
        return None

    def __eq__(self, o):
        if o is self:
            return True
        oe = self._coerce(o)
        if oe is None:
            return NotImplemented
        if len(oe) != len(self.el):
            return False
        return And(*[elem_eq(a, b) for a, b in zip(self.el, oe)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def _lex(self, o):
        """-1, 0, 1 by forking"""
        oe = self._coerce(o)
        if oe is None:
            return None
        for a, b in zip(self.el, oe):
            if elem_eq(a, b):
                continue
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('order of opaque text')
            return -1 if a < b else 1
        return (len(self.el) > len(oe)) - (len(self.el) < len(oe))

    def __lt__(self, o):
        c = self._lex(o)
        return NotImplemented if c is None else c < 0

    def __le__(self, o):
        c = self._lex(o)
        return NotImplemented if c is None else c <= 0

    def __gt__(self, o):
        c = self._lex(o)
        return NotImplemented if c is None else c > 0

    def __ge__(self, o):
        c = self._lex(o)
        return NotImplemented if c is None else c >= 0

    def __add__(self, o):
        oe = self._coerce(o)
        if oe is None:
            return NotImplemented
        return self.make(list(self.el) + list(oe))

    def __radd__(self, o):
        oe = self._coerce(o)
        if oe is None:
            return NotImplemented
        return self.make(list(oe) + list(self.el))

    def __mul__(self, n):
        if not isinstance(n, (int, SymInt)):
            return NotImplemented
        return self.make(list(self.el) * concrete_small(n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.make(self.el[_norm_slice(i, len(self.el))])
        return self._item(select(self.el, i))

    def __iter__(self):
        return iter([self._item(x) for x in self.el])

    def _find_at(self, sub, i):
        if i + len(sub) > len(self.el):
            return False
        return And(*[elem_eq(a, b) for a, b in zip(self.el[i:i + len(sub)], sub)])

    def _sub(self, x):
        r = self._coerce(x)
        if r is None:
            raise TypeError(f"must be {self.native.__name__}, not {type(x).__name__}")
        return r

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        sub = self._sub(x)
        return Or(*[self._find_at(sub, i) for i in range(len(self.el) - len(sub) + 1)])

    def _range(self, start, end):
        n = len(self.el)
        sl = _norm_slice(slice(start, end), n)
        lo, hi, _ = sl.indices(n)
        start = concrete_small(start) if start is not None else 0
        return lo, hi, start

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        lo, hi, _ = self._range(start, end)
        if len(sub) == 0:
            return lo if (start is None or concrete_small(start) <= len(self.el)) and lo <= hi else -1
        for i in range(lo, hi - len(sub) + 1):
            if self._find_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        lo, hi, _ = self._range(start, end)
        for i in range(hi - len(sub), lo - 1, -1):
            if self._find_at(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = self._sub(sub)
        lo, hi, _ = self._range(start, end)
        n, i = 0, lo
        if not sub:
            return hi - lo + 1
        while i <= hi - len(sub):
            if self._find_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return as_seq(self[slice(start, end)]).startswith(p)
        if isinstance(p, tuple):
            return Or(*[self.startswith(x) for x in p])
        return self._find_at(self._sub(p), 0)

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return as_seq(self[slice(start, end)]).endswith(p)
        if isinstance(p, tuple):
            return Or(*[self.endswith(x) for x in p])
        sub = self._sub(p)
        if len(sub) > len(self.el):
            return False
        return self._find_at(sub, len(self.el) - len(sub))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.el) - len(p)] if len(p) and self.endswith(p) else self

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self.native(), self.native()
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.native(), self.native(), self
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def _is_space(self, c):
        if isinstance(c, Opaque):
            return False
        return Or(*[c == x for x in self._spaces])

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            i = 0
            el = self.el
            n = len(el)
            while i < n:
                if self._is_space(el[i]):
                    i += 1
                    continue
                if maxsplit >= 0 and len(out) >= maxsplit:
                    rest = as_seq(self.make(el[i:])).rstrip() if True else None
                    out.append(rest)
                    return out
                j = i
                while j < n and not self._is_space(el[j]):
                    j += 1
                out.append(self.make(el[i:j]))
                i = j
            return out
        sub = self._sub(sep)
        if not sub:
            raise ValueError("empty separator")
        i = start = 0
        while i <= len(self.el) - len(sub):
            if (maxsplit < 0 or len(out) < maxsplit) and self._find_at(sub, i):
                out.append(self.make(self.el[start:i]))
                i += len(sub)
                start = i
            else:
                i += 1
        out.append(self.make(self.el[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        sub = self._sub(sep)
        out = []
        end = len(self.el)
        i = end - len(sub)
        while i >= 0:
            if len(out) < maxsplit and end - i >= len(sub) and self._find_at(sub, i):
                out.append(self.make(self.el[i + len(sub):end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(self.make(self.el[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        out = []
        i = start = 0
        el = self.el
        while i < len(el):
            c = el[i]
            if isinstance(c, Opaque):
                i += 1
                continue
            if c == 13:
                j = i + 1
                if j < len(el) and not isinstance(el[j], Opaque) and el[j] == 10:
                    j += 1
            elif Or(*[c == x for x in self._linebreaks]):
                j = i + 1
            else:
                i += 1
                continue
            out.append(self.make(el[start:j] if keepends else el[start:i]))
            start = i = j
        if start < len(el):
            out.append(self.make(el[start:]))
        return out

    def _strip(self, chars, left, right):
        if chars is None:
            test = self._is_space
        else:
            cs = self._sub(chars)
            def test(c):
                return Or(*[elem_eq(c, x) for x in cs])
        i, j = 0, len(self.el)
        if left:
            while i < j and test(self.el[i]):
                i += 1
        if right:
            while j > i and test(self.el[j - 1]):
                j -= 1
        return self.make(self.el[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, old, new, count=-1):
        old, new = self._sub(old), list(self._sub(new))
        count = concrete_small(count)
        if not old:
            raise Unsupported('replace of empty string')
        out, i, n = [], 0, 0
        while i < len(self.el):
            if (count < 0 or n < count) and i + len(old) <= len(self.el) and self._find_at(old, i):
                out += new
                i += len(old)
                n += 1
            else:
                out.append(self.el[i])
                i += 1
        return self.make(out)

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out += list(self.el)
            out += list(self._sub(x))
        return self.make(out)

    def _map(self, f):
        return self.make([c if isinstance(c, Opaque) else f(self._ascii(c)) for c in self.el])

    def _ascii(self, c):
        return c

    def lower(self):
        return self._map(lambda c: ite_range(c, 65, 90, 32))

    def upper(self):
        return self._map(lambda c: ite_range(c, 97, 122, -32))

    def swapcase(self):
        el = []
        for c in self.el:
            if not isinstance(c, Opaque):
                if self.native is str and isinstance(c, SymInt) and not c < 128:
                    raise Unsupported('swapcase')
                if self._other(c):
                    raise Unsupported('swapcase')
                c = ite_range(c, 65, 90, 32) if c <= 90 else ite_range(c, 97, 122, -32)
            el.append(c)
        return self.make(el)

    def _other(self, c):
        """Character which is not ASCII (its value is then known)"""
        return self.native is str and isinstance(c, int) and c >= 128

    def _all(self, test, *ranges):
        if not len(self.el):
            return False
        return And(*[False if isinstance(c, Opaque) else getattr(chr(c), test)() if self._other(c) else Or(*[And(c >= a, c <= b) for a, b in ranges]) for c in map(self._ascii1, self.el)])

    def _ascii1(self, c):
        return c if isinstance(c, Opaque) else self._ascii(c)

    def isdigit(self):
        return self._all('isdigit', (48, 57))

    def isdecimal(self):
        return self._all('isdecimal', (48, 57))

    def isnumeric(self):
        return self._all('isnumeric', (48, 57))

    def isalpha(self):
        return self._all('isalpha', (65, 90), (97, 122))

    def isalnum(self):
        return self._all('isalnum', (48, 57), (65, 90), (97, 122))

    def isspace(self):
        return self._all('isspace', (9, 13), (28, 32)) if self.native is str else self._all('isspace', (9, 13), (32, 32))

    def _cased(self, lower):
        some, no = [], []
        for c in map(self._ascii1, self.el):
            if isinstance(c, Opaque):
                raise Unsupported('islower')
            if self._other(c):
                some.append(chr(c).islower() if lower else chr(c).isupper())
                no.append(chr(c).isupper() or chr(c).istitle() if lower else chr(c).islower() or chr(c).istitle())
            else:
                low, up = And(c >= 97, c <= 122), And(c >= 65, c <= 90)
                some.append(low if lower else up)
                no.append(up if lower else low)
        return And(Or(*some), Not(Or(*no)))

    def islower(self):
        return self._cased(True)

    def isupper(self):
        return self._cased(False)

    def isascii(self):
        return And(*[False if isinstance(c, Opaque) else c < 128 for c in self.el])

    def zfill(self, w):
        w = concrete_small(w)
        n = w - len(self.el)
        if n <= 0:
            return self
        if self.el and Or(self.el[0] == 43, self.el[0] == 45):
            return self.make([self.el[0]] + [48] * n + list(self.el[1:]))
        return self.make([48] * n + list(self.el))

    def _fill(self, fill):
        return 32 if fill is None else self._sub(fill)[0]

    def ljust(self, w, fill=None):
        return self.make(list(self.el) + [self._fill(fill)] * (concrete_small(w) - len(self.el)))

    def rjust(self, w, fill=None):
        return self.make([self._fill(fill)] * (concrete_small(w) - len(self.el)) + list(self.el))

    def center(self, w, fill=None):
        n = max(concrete_small(w) - len(self.el), 0)
        left = n // 2 + (n & concrete_small(w) & 1)
        return self.make([self._fill(fill)] * left + list(self.el) + [self._fill(fill)] * (n - left))

    def translate(self, table):
        raise Unsupported('translate')


def ite_range(c, a, b, delta):
    """c + delta if a <= c <= b else c"""
    if not isinstance(c, SymInt):
        return c + delta if a <= c <= b else c
    cond = And(c >= a, c <= b)
    if isinstance(cond, bool):
        return c + delta if cond else c
    lo, hi = min(c.lo, c.lo + delta), max(c.hi, c.hi + delta)
    lo = max(lo, 0)
    w = need_bits(min(lo, c.lo), hi) + 1
    e = sext(c.e, w)
    return mkint(z3.If(cond.c, e + delta, e), lo, hi)


def ite(cond, a, b):
    """Integer if-then-else"""
    if isinstance(cond, bool):
        return a if cond else b
    al, ah = bounds(a)
    bl, bh = bounds(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = need_bits(lo, hi)
    return mkint(z3.If(cond.c, bv(a, w), bv(b, w)), lo, hi)


def select(el, i):
    """el[i] for a possibly symbolic index"""
    if isinstance(i, SymBool):
        i = i.as_int()
    if not isinstance(i, SymInt):
        return el[i]
    n = len(el)
    if And(i >= 0, i < n):
        pass
    elif And(i < 0, i >= -n):
        i = i + n
        if not isinstance(i, SymInt):
            return el[i]
    else:
        raise IndexError("index out of range")
    if all(isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in el):
        lo, hi = max(i.lo, 0), min(i.hi, n - 1)
        r = el[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = ite(i == k, el[k], r)
        return r
    return el[concrete_int(i)]


class SymStr(SymSeq):
    """Text; may be built lazily (f-strings that are only logged are never expanded)"""
    __slots__ = ('_thunk',)
    native = str
    _spaces = (32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 0x85, 0xa0)
    _linebreaks = (10, 11, 12, 28, 29, 30, 0x85, 0x2028, 0x2029)

    def __init__(self, el=None, thunk=None):
        self._el = tuple(el) if el is not None else None
        self._thunk = thunk

    @property
    def el(self):
        if self._el is None:
            s = self._thunk()
            self._el = tuple(s.el) if isinstance(s, SymStr) else tuple(map(ord, s))
            self._thunk = None
        return self._el

    @staticmethod
    def make(el):
        return mkstr(el)

    @staticmethod
    def _native(xs):
        return ''.join(map(chr, xs))

    @staticmethod
    def _elems_of(s):
        return tuple(map(ord, s))

    def _item(self, x):
        return mkstr([x])

    def _ascii(self, c):
        if isinstance(c, SymInt) and c.hi >= 128:
            if not (c < 128):
                return concrete_int(c)
            return SymInt(z3.ZeroExt(1, z3.Extract(6, 0, c.e)), 0, 127)
        return c

    def casefold(self):
        return self._map(lambda c: ite_range(c, 65, 90, 32), str.casefold)

    def lower(self):
        return self._map(lambda c: ite_range(c, 65, 90, 32), str.lower)

    def upper(self):
        return self._map(lambda c: ite_range(c, 97, 122, -32), str.upper)

    def _map(self, f, other):
        out = []
        for c in self.el:
            if isinstance(c, Opaque):
                out.append(c)
                continue
            c = self._ascii(c)
            if isinstance(c, int) and c >= 128:
                out += map(ord, other(chr(c)))
            else:
                out.append(f(c))
        return mkstr(out)

    def capitalize(self):
        return as_seq(self[:1]).upper() + as_seq(self[1:]).lower()

    def title(self):
        raise Unsupported('title')

    def encode(self, encoding='utf-8', errors='strict'):
        encoding = encoding.lower().replace('_', '-')
        out = []
        for i, c in enumerate(self.el):
            if isinstance(c, Opaque):
                if c.tag == 'utf8r' and encoding in ('utf-8', 'utf8'):
                    out += list(c.payload)
                    continue
                if c.tag == 'json':
                    out.append(c)
                    continue
                raise Unsupported('encode opaque')
            if encoding == 'ascii':
                if c < 128:
                    out.append(c)
                elif errors == 'ignore':
                    pass
                elif errors == 'replace':
                    out.append(63)
                else:
                    raise UnicodeEncodeError('ascii', '?', i, i + 1, "ordinal not in range(128)")
            elif encoding in ('latin-1', 'latin1', 'iso-8859-1'):
                if c < 256:
                    out.append(c)
                else:
                    raise UnicodeEncodeError('latin-1', '?', i, i + 1, "ordinal not in range(256)")
            elif encoding in ('utf-8', 'utf8'):
                if c < 0x80:
                    out.append(c)
                elif c < 0x800:
                    out += [0xc0 | (c >> 6), 0x80 | (c & 0x3f)]
                elif And(c >= 0xd800, c <= 0xdfff):
                    raise UnicodeEncodeError('utf-8', '?', i, i + 1, "surrogates not allowed")
                elif c < 0x10000:
                    out += [0xe0 | (c >> 12), 0x80 | ((c >> 6) & 0x3f), 0x80 | (c & 0x3f)]
                else:
                    out += [0xf0 | (c >> 18), 0x80 | ((c >> 12) & 0x3f), 0x80 | ((c >> 6) & 0x3f), 0x80 | (c & 0x3f)]
            else:
                raise Unsupported(f'encoding {encoding}')
        return mkbytes(out)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __str__(self):
        return self.concrete()

    def __fspath__(self):
        return self.concrete()

    def __repr__(self):
        if self._el is None:
            return 'SymStr<lazy>'
        return 'SymStr(%s)' % ''.join(chr(c) if isinstance(c, int) else '?' for c in self._el)


class SymBytes(SymSeq):
    __slots__ = ()
    native = bytes
    _spaces = (32, 9, 10, 11, 12, 13)
    _linebreaks = (10,)

    def __init__(self, el):
        self._el = tuple(el)

    @staticmethod
    def make(el):
        return mkbytes(el)

    @staticmethod
    def _native(xs):
        return bytes(xs)

    @staticmethod
    def _elems_of(s):
        return tuple(s)

    def _coerce(self, o):
        if isinstance(o, SymBytes):
            return o.el
        if isinstance(o, (bytes, bytearray, memoryview)):
            return tuple(bytes(o))
        if isinstance(o, SymByteArray):
            return tuple(o.data)
        return None

    def _sub(self, x):
        if isinstance(x, (int, SymInt)):
            return (x,)
        return super()._sub(x)

    def _item(self, x):
        return x

    def __eq__(self, o):
        if isinstance(o, Rope):
            return o == self
        return super().__eq__(o)

    def __add__(self, o):
        if isinstance(o, Rope):
            return mkrope([self] + o.segs)
        return super().__add__(o)

    def decode(self, encoding='utf-8', errors='strict'):
        encoding = encoding.lower().replace('_', '-')
        if encoding in ('utf-8', 'utf8'):
            return mkstr(utf8_decode(self.el, errors))
        if encoding == 'utf-8-sig':
            s = self
            if self.startswith(b'\xef\xbb\xbf'):
                s = self[3:]
            return mkstr(utf8_decode(elements(s), errors))
        if encoding == 'ascii':
            out = []
            for i, c in enumerate(self.el):
                if c < 128:
                    out.append(c)
                elif errors == 'replace':
                    out.append(0xfffd)
                elif errors != 'ignore':
                    raise UnicodeDecodeError('ascii', b'', i, i + 1, "ordinal not in range(128)")
            return mkstr(out)
        if encoding in ('latin-1', 'latin1', 'iso-8859-1'):
            return mkstr(self.el)
        raise Unsupported(f'encoding {encoding}')

    def hex(self):
        out = []
        for c in self.el:
            out += [hexdigit((c >> 4) & 15), hexdigit(c & 15)]
        return mkstr(out)

    def tobytes(self):
        return self

    def __bytes__(self):
        return self.concrete()

    def __repr__(self):
        return 'SymBytes(%s)' % ' '.join('%02x' % c if isinstance(c, int) else '??' for c in self._el)


def hexdigit(n, upper=False):
    if isinstance(n, int):
        return ord(('%X' if upper else '%x') % n)
    e = z3.ZeroExt(4, ubv(n, 4))
    r = z3.If(z3.ULT(e, 10), e + 48, e + (55 if upper else 87))
    return SymInt(r, 48, 102)  # fits 8-bit signed (max 102)


def utf8_decode(el, errors):
    """Exact UTF-8 decoder (CPython's error handling), forking on byte classes"""
    out = []
    i, n = 0, len(el)

    def bad(i, j, why):
        if errors == 'replace':
            out.append(0xfffd)
        elif errors == 'ignore':
            pass
        elif errors == 'strict':
            raise UnicodeDecodeError('utf-8', b'?' * n, i, j, why)
        else:
            raise Unsupported(f'errors={errors}')

    def cont(k, lo=0x80, hi=0xbf):
        return k < n and bool(And(el[k] >= lo, el[k] <= hi))

    while i < n:
        c = el[i]
        if isinstance(c, Opaque):
            out.append(c)
            i += 1
        elif c < 0x80:
            out.append(c)
            i += 1
        elif c < 0xc2:
            bad(i, i + 1, 'invalid start byte')
            i += 1
        elif c < 0xe0:
            if not cont(i + 1):
                bad(i, i + 1, 'unexpected end of data' if i + 1 >= n else 'invalid continuation byte')
                i += 1
            else:
                out.append(((c & 0x1f) << 6) | (el[i + 1] & 0x3f))
                i += 2
        elif c < 0xf0:
            if c == 0xe0:
                ok = cont(i + 1, 0xa0, 0xbf)
            elif c == 0xed:
                ok = cont(i + 1, 0x80, 0x9f)
            else:
                ok = cont(i + 1)
            if not ok:
                bad(i, i + 1, 'invalid continuation byte')
                i += 1
            elif not cont(i + 2):
                bad(i, i + 2, 'invalid continuation byte')
                i += 2
            else:
                out.append(((c & 0xf) << 12) | ((el[i + 1] & 0x3f) << 6) | (el[i + 2] & 0x3f))
                i += 3
        elif c < 0xf5:
            if c == 0xf0:
                ok = cont(i + 1, 0x90, 0xbf)
            elif c == 0xf4:
                ok = cont(i + 1, 0x80, 0x8f)
            else:
                ok = cont(i + 1)
            if not ok:
                bad(i, i + 1, 'invalid continuation byte')
                i += 1
            elif not cont(i + 2):
                bad(i, i + 2, 'invalid continuation byte')
                i += 2
            elif not cont(i + 3):
                bad(i, i + 3, 'invalid continuation byte')
                i += 3
            else:
                out.append(((c & 7) << 18) | ((el[i + 1] & 0x3f) << 12) | ((el[i + 2] & 0x3f) << 6) | (el[i + 3] & 0x3f))
                i += 4
        else:
            bad(i, i + 1, 'invalid start byte')
            i += 1
    return out


def mkstr(el):
    el = tuple(el)
    for c in el:
        if not isinstance(c, int):
            return SymStr(el)
    return ''.join(map(chr, el))


def mkbytes(el):
    el = tuple(el)
    for c in el:
        if not isinstance(c, int):
            return SymBytes(el)
    return bytes(el)


def as_seq(x):
    """Proxy view of a native or symbolic str/bytes"""
    if isinstance(x, str):
        return SymStr(tuple(map(ord, x)))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return SymBytes(tuple(bytes(x)))
    return x


def elements(x):
    return as_seq(x).el


class SymByteArray(Sym):
    """Mutable byte array: a list of bytes, or a rope while it only grows"""
    __slots__ = ('src',)

    def __init__(self, src=()):
        if isinstance(src, int):
            self.src = [0] * src
        elif isinstance(src, Rope):
            self.src = src
        else:
            self.src = list(src)

    @property
    def data(self):
        if isinstance(self.src, Rope):
            self.src = list(self.src.vector().el)
        return self.src

    @data.setter
    def data(self, v):
        self.src = v

    def length(self):
        return self.src.length() if isinstance(self.src, Rope) else len(self.src)

    def __len__(self):
        return len(self.src)

    def __bool__(self):
        return bool(self.src)

    def __iter__(self):
        return iter(self.src)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if isinstance(self.src, Rope):
                r = self.src[i]
                return SymByteArray(r if isinstance(r, Rope) else elements(r))
            return SymByteArray(self.src[_norm_slice(i, len(self.src))])
        if isinstance(self.src, Rope):
            return self.src[i]
        return select(self.src, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.data[_norm_slice(i, len(self.data))] = list(v)
        else:
            self.data[concrete_small(i)] = v

    def __delitem__(self, i):
        if isinstance(i, slice):
            if isinstance(self.src, Rope) and i.start is None and i.step is None:
                r = self.src[i.stop:]
                self.src = r if isinstance(r, Rope) else list(elements(r))
                return
            i = _norm_slice(i, len(self.data))
        del self.data[i]

    def append(self, v):
        self.data.append(v)

    def extend(self, v):
        if isinstance(v, SymByteArray):
            v = v.frozen()
        if isinstance(v, Rope) or isinstance(self.src, Rope) and isinstance(v, (bytes, SymBytes)):
            self += v
        else:
            self.data.extend(v)

    def clear(self):
        self.src = []

    def copy(self):
        return SymByteArray(self.src)

    def __iadd__(self, o):
        if isinstance(o, SymByteArray):
            o = o.frozen()
        if isinstance(o, (bytearray, memoryview)):
            o = bytes(o)
        if isinstance(o, Rope) or isinstance(self.src, Rope) and isinstance(o, (bytes, SymBytes)):
            r = self.frozen()
            r = r + o if isinstance(r, Rope) else o.__radd__(r)
            self.src = r if isinstance(r, Rope) else list(elements(r))
        else:
            self.data.extend(elements(o) if not isinstance(o, (list, tuple)) else o)
        return self

    def __add__(self, o):
        r = SymByteArray(self.src)
        r += o
        return r

    def frozen(self):
        return self.src if isinstance(self.src, Rope) else mkbytes(self.src)

    def __eq__(self, o):
        f = self.frozen()
        return (f if isinstance(f, Rope) else as_seq(f)) == (o.frozen() if isinstance(o, SymByteArray) else o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = self.frozen()
        return getattr(f if isinstance(f, Rope) else as_seq(f), name)


# ---------------------------------------------------------------- ropes

class Buf:
    """An unbounded symbolic byte buffer: name, Z3 array, and what produced it"""
    __slots__ = ('name', 'arr')
    IDX = 64

    def __init__(self, name):
        self.name = name
        self.arr = z3.Array(name, z3.BitVecSort(self.IDX), z3.BitVecSort(8))

    def at(self, i):
        return SymInt.from_ubv(z3.Select(self.arr, ubv(i, self.IDX)))


class BSeg:
    """Slice [off, off+n) of a buffer"""
    __slots__ = ('buf', 'off', 'n')

    def __init__(self, buf, off, n):
        self.buf = buf
        self.off = off
        self.n = n


def seg_len(s):
    return s.n if isinstance(s, BSeg) else len(s)


def mkrope(segs):
    """Rope of segments; adjacent slices of the same buffer are merged"""
    out = []
    for s in segs:
        n = seg_len(s)
        if isinstance(n, int) and n == 0:
            continue
        if out and isinstance(s, BSeg) and isinstance(out[-1], BSeg) and out[-1].buf is s.buf:
            if decided(out[-1].off + out[-1].n == s.off):
                out[-1] = BSeg(s.buf, out[-1].off, out[-1].n + s.n)
                continue
        elif out and not isinstance(s, BSeg) and not isinstance(out[-1], BSeg):
            out[-1] = out[-1] + s
            continue
        out.append(s)
    if not out:
        return b''
    if len(out) == 1 and not isinstance(out[0], BSeg):
        return out[0]
    if all(not isinstance(s, BSeg) or isinstance(s.n, int) for s in out) and sum(seg_len(s) for s in out) <= 64:
        el = []
        for s in out:
            if isinstance(s, BSeg):
                el += [s.buf.at(s.off + k) for k in range(s.n)]
            else:
                el += list(s)
        return mkbytes(el)
    return Rope(out)


def decided(c):
    """True if c holds on every input of this path (no fork)"""
    if isinstance(c, bool):
        return c
    eng = Engine.cur
    if eng.dead:
        return False
    ent = eng._recorded('d')
    if ent is not None:
        return ent[1]
    s = z3.simplify(c.c)
    if z3.is_true(s):
        r = True
    elif z3.is_false(s):
        r = False
    else:
        m = eng._ensure_model()
        if not z3.is_true(m.eval(s, model_completion=True)):
            r = False
        else:
            r = eng._check(z3.Not(s)) is None
    eng._record('d', r)
    return r


class Rope(Sym):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = list(segs)

    def length(self):
        n = 0
        for s in self.segs:
            n = n + seg_len(s)
        return n

    def __len__(self):
        return concrete_small(self.length())

    def __bool__(self):
        return bool(self.length() > 0)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        mark_incomplete('rope concretised')
        return bytes(concrete_int(x) for x in self.vector().el)

    def vector(self, limit=64):
        """As a byte vector (enumerates the length)"""
        n = concrete_small(self.length())
        return as_seq(mkbytes([self[k] for k in range(n)]))

    def _bounds(self, sl):
        if sl.step not in (None, 1):
            raise Unsupported('rope slice step')
        n = self.length()

        def clamp(v, default):
            if v is None:
                return default
            if v < 0:
                v = v + n
                return smax(v, 0)
            return smin(v, n)
        a = clamp(sl.start, 0)
        b = clamp(sl.stop, n)
        return a, smax(a, b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = self._bounds(i)
            out = []
            pos = 0
            for s in self.segs:
                n = seg_len(s)
                end = pos + n
                # intersection of [a, b) with [pos, end)
                if decided(b <= pos):
                    break
                if decided(a >= end):
                    pos = end
                    continue
                if isinstance(s, BSeg):
                    lo = smax(a, pos)
                    hi = smax(lo, smin(b, end))
                    out.append(BSeg(s.buf, s.off + (lo - pos), hi - lo))
                elif not Or(b <= pos, a >= end):
                    lo = a if a > pos else pos
                    hi = b if b < end else end
                    out.append(as_seq(s)[lo - pos:hi - pos])
                pos = end
            return mkrope(out)
        n = self.length()
        if i < 0:
            i = i + n
        if not And(i >= 0, i < n):
            raise IndexError("index out of range")
        pos = 0
        for s in self.segs:
            m = seg_len(s)
            if i < pos + m:
                if isinstance(s, BSeg):
                    return s.buf.at(s.off + (i - pos))
                return as_seq(s)[i - pos]
            pos = pos + m
        raise IndexError("index out of range")

    def __iter__(self):
        i = 0
        n = self.length()
        while i < n:
            yield self[i]
            i += 1

    def __add__(self, o):
        if isinstance(o, Rope):
            return mkrope(self.segs + o.segs)
        if isinstance(o, (bytes, SymBytes)):
            return mkrope(self.segs + [o])
        if isinstance(o, SymByteArray):
            return mkrope(self.segs + [o.frozen()])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return mkrope([o] + self.segs)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, Rope):
            return rope_eq(self, o)
        if isinstance(o, (bytes, SymBytes)):
            oe = elements(o)
            n = self.length()
            if not (n == len(oe)):
                return False
            return And(*[self[k] == oe[k] for k in range(len(oe))])
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def startswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.startswith(x) for x in p])
        oe = elements(p)
        if self.length() < len(oe):
            return False
        return And(*[self[k] == oe[k] for k in range(len(oe))])

    def __contains__(self, x):
        raise Unsupported('in rope')

    def join(self, it):
        raise Unsupported('rope join')

    def __getattr__(self, name):
        # other methods: on the byte vector
        if name.startswith('__') or not hasattr(SymBytes, name):
            raise AttributeError(name)
        return getattr(self.vector(), name)

    def __repr__(self):
        return f"Rope({len(self.segs)})"


def smin(a, b):
    """Minimum, without fork"""
    if decided(a <= b):
        return a
    if decided(b <= a):
        return b
    return ite(a < b, a, b)


def smax(a, b):
    if decided(a >= b):
        return a
    if decided(b >= a):
        return b
    return ite(a > b, a, b)


def xlen(x):
    return x.length() if isinstance(x, (Rope, SymByteArray)) else len(x)


def byte_at(x, k):
    """x[k] for an index known to be inside, without fork"""
    if isinstance(x, Rope):
        r = None
        pos = 0
        parts = []
        for s in x.segs:
            v = s.buf.at(s.off + (k - pos)) if isinstance(s, BSeg) else byte_at(s, k - pos)
            end = pos + seg_len(s)
            parts.append((end, v))
            pos = end
        r = parts[-1][1]
        for end, v in parts[-2::-1]:
            r = ite(k < end, v, r)
        return r
    el = elements(x)
    if isinstance(k, int):
        return el[k] if 0 <= k < len(el) else 0
    lo, hi = max(k.lo, 0), min(k.hi, len(el) - 1)
    if lo > hi:
        return 0
    r = el[hi]
    for j in range(hi - 1, lo - 1, -1):
        r = ite(k == j, el[j], r)
    return r


def fresh_index():
    eng = Engine.cur
    eng.fresh += 1
    return SymInt(z3.BitVec(f"k!{eng.fresh}", 64), -(1 << 63), (1 << 63) - 1)


def differ(a, b):
    """Condition: a and b differ, witnessed by a fresh index (exact as an assumption)"""
    la, lb = xlen(a), xlen(b)
    k = fresh_index()
    return Or(la != lb, And(k >= 0, k < la, byte_at(a, k) != byte_at(b, k)))


def same_layout(a, b):
    """Condition for equality of ropes with the same segments, None if they have different ones"""
    if isinstance(a, Rope) and isinstance(b, Rope) and len(a.segs) == len(b.segs):
        cs = []
        for s, t in zip(a.segs, b.segs):
            if isinstance(s, BSeg) and isinstance(t, BSeg):
                if s.buf is not t.buf:
                    return None
                cs.append(Or(And(s.off == t.off, s.n == t.n), And(s.n == 0, t.n == 0)))
            elif not isinstance(s, BSeg) and not isinstance(t, BSeg) and len(s) == len(t):
                cs.append(as_seq(s) == t)
            else:
                return None
        return And(*cs)
    return None


def same(a, b):
    """Equality of byte strings as an obligation: holds for every index"""
    c = same_layout(a, b)
    if c is not None and decided(c):
        return True
    return Not(differ(a, b))


def rope_eq(a, b):
    """Equality of ropes: same slices, segment by segment"""
    c = same_layout(a, b)
    if c is not None and decided(c):
        return True
    n = a.length()
    if not (n == b.length()):
        return False
    # different layout: compare bytes up to a small length
    k = 0
    cs = []
    while k < n:
        if k > 48:
            # too long to compare bytewise: unequal unless proved above
            return False
        cs.append(a[k] == b[k])
        k += 1
    return And(*cs)
