"""Operations which instrumented code delegates: calls, %, in, subscripts, f-strings, displays."""

import builtins
import enum
import types
import operator
import itertools

from .engine import Engine
from .values import *
from .values import Sym, SymSeq, _norm_slice
from .containers import *
from .containers import SDict, SSet, SFrozenSet, KeysView, symhash, is_plain, keyeq

NATIVE = {SymInt: int, SymBool: bool, SymStr: str, SymBytes: bytes, Rope: bytes, SymByteArray: bytearray, SymFloat: float}


def sxtype(x):
    return NATIVE.get(type(x)) or type(x)


def any_sym(args, kw=None):
    for a in args:
        if isinstance(a, Sym):
            return True
        if type(a) in (tuple, list) and any_sym(a):
            return True
    if kw:
        return any_sym(kw.values())
    return False


def concretise(x):
    """Native value of a possibly nested symbolic one, enumerating the feasible values"""
    if isinstance(x, SymInt):
        return concrete_int(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (SymSeq, Rope, SymFloat)):
        return x.concrete()
    if isinstance(x, SymByteArray):
        return bytearray(concretise(x.frozen()))
    if type(x) is tuple:
        return tuple(concretise(v) for v in x)
    if type(x) is list:
        return [concretise(v) for v in x]
    if isinstance(x, SDict):
        return {concretise(k): concretise(v) for k, v in x.items()}
    if isinstance(x, SSet):
        return {concretise(k) for k in x}
    if isinstance(x, SFrozenSet):
        return frozenset(concretise(k) for k in x)
    return x


def native_call(f, args, kw):
    """Call native code; symbolic arguments are concretised"""
    if any_sym(args, kw):
        mark_incomplete(f"native call {getattr(f, '__qualname__', f)}")
        args = [concretise(a) for a in args]
        kw = {k: concretise(a) for k, a in kw.items()}
    return f(*args, **kw)


# ---------------------------------------------------------------- formatting

def digits10(n):
    """Decimal digits of a non-negative symbolic integer (forks on the count)"""
    if isinstance(n, int):
        return list(map(ord, str(n)))
    k = 1
    p = 10
    while p <= n.hi and not (n < p):
        k += 1
        p *= 10
    # n < p on this path: shrink
    out = []
    w = max(need_bits(0, p - 1), 5)
    v = SymInt(sext(n.e, w) if w <= n.e.size() else sext(n.e, w), 0, min(n.hi, p - 1))
    for i in range(k):
        d = v % 10
        out.append(d + 48)
        v = v // 10
    return out[::-1]


def digits_pow2(n, bits, upper, mincount):
    if isinstance(n, int):
        f = {4: 'x', 3: 'o', 1: 'b'}[bits]
        s = format(n, f)
        return list(map(ord, s.upper() if upper else s))
    total = max(1, -(-n.hi.bit_length() // bits))
    if total <= mincount:
        k = total
    else:
        k = max(1, mincount)
        while k < total and not (n < (1 << (bits * k))):
            k += 1
    return [hexdigit((n >> (bits * i)) & ((1 << bits) - 1), upper) for i in range(k)][::-1]


def parse_spec(spec):
    fill, align, sign, alt, zero, width, comma, prec, typ = ' ', '', '', False, False, 0, '', None, ''
    i = 0
    if len(spec) >= 2 and spec[1] in '<>=^':
        fill, align, i = spec[0], spec[1], 2
    elif spec and spec[0] in '<>=^':
        align, i = spec[0], 1
    if i < len(spec) and spec[i] in '+- ':
        sign = spec[i]
        i += 1
    if i < len(spec) and spec[i] == '#':
        alt = True
        i += 1
    if i < len(spec) and spec[i] == '0':
        zero = True
        i += 1
    j = i
    while j < len(spec) and spec[j].isdigit():
        j += 1
    if j > i:
        width = int(spec[i:j])
    i = j
    if i < len(spec) and spec[i] in ',_':
        comma = spec[i]
        i += 1
    if i < len(spec) and spec[i] == '.':
        j = i + 1
        while j < len(spec) and spec[j].isdigit():
            j += 1
        prec = int(spec[i + 1:j])
        i = j
    typ = spec[i:]
    return fill, align, sign, alt, zero, width, comma, prec, typ


def pad(el, width, fill, align):
    n = width - len(el)
    if n <= 0:
        return el
    f = [ord(fill)]
    if align == '<':
        return el + f * n
    if align == '^':
        return f * (n // 2) + el + f * (n - n // 2)
    return f * n + el


def format_int(n, spec):
    if spec == '':
        neg, digits = split_sign(n)
        return mkstr(([45] if neg else []) + digits10(digits))
    fill, align, sign, alt, zero, width, comma, prec, typ = parse_spec(spec)
    if comma or prec is not None or typ not in ('', 'd', 'x', 'X', 'o', 'b', 'c'):
        return format(concrete_int(n), spec)
    if typ == 'c':
        el, pre = [n], []
    else:
        neg, v = split_sign(n)
        pre = [45] if neg else ([ord(sign)] if sign in ('+', ' ') and sign else [])
        if typ in ('', 'd'):
            el = digits10(v)
        else:
            zw = width - len(pre) - (2 if alt else 0) if zero or (align == '=' and fill == '0') else 0
            el = digits_pow2(v, {'x': 4, 'X': 4, 'o': 3, 'b': 1}[typ], typ == 'X', zw)
            if alt:
                pre += [48, ord(typ)]
    if zero and not align:
        fill, align = '0', '='
    if align == '=':
        return mkstr(pre + [ord(fill)] * (width - len(pre) - len(el)) + el)
    return mkstr(pad(pre + el, width, fill, align or '>'))


def split_sign(n):
    if isinstance(n, int):
        return n < 0, abs(n)
    if n.lo >= 0:
        return False, n
    if n < 0:
        m = -n
        return True, m if isinstance(m, int) else SymInt(m.e, max(m.lo, 0), m.hi) if m.lo < 0 else m
    return False, mkint(n.e, 0, n.hi)


def format_str(s, spec):
    if spec == '':
        return s
    fill, align, sign, alt, zero, width, comma, prec, typ = parse_spec(spec)
    el = list(elements(s))
    if prec is not None:
        el = el[:prec]
    if zero and not align:
        fill = '0'
    return mkstr(pad(el, width, fill, align or '<'))


def pyfunc(cls, name):
    """Python-level special method of a class, if any"""
    for c in cls.__mro__:
        if name in c.__dict__:
            f = c.__dict__[name]
            return f if isinstance(f, types.FunctionType) else None
    return None


def sxformat(v, spec=''):
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    if isinstance(v, SymBool):
        v = bool(v) if spec == '' else v.as_int()
        return format(v, spec) if isinstance(v, bool) else format_int(v, spec)
    if isinstance(v, SymInt):
        return format_int(v, spec)
    if isinstance(v, SymStr):
        return format_str(v, spec)
    if isinstance(v, SymFloat):
        return mkstr([Opaque('float', (v, spec))])
    if isinstance(v, Sym):
        if isinstance(v, (SymBytes, SymByteArray, Rope)):
            return format_str(sxrepr(v), spec)
        return format(concretise(v), spec)
    f = pyfunc(type(v), '__format__')
    if f is not None:
        return f(v, spec)
    if type(v).__format__ is object.__format__:
        return format_str(sxstr(v), spec)
    return format(v, spec)


def str_repr(s):
    """repr() of a symbolic str"""
    el = s.el
    quote = 39
    if bool(Or(*[elem_eq(c, 39) for c in el])) and not bool(Or(*[elem_eq(c, 34) for c in el])):
        quote = 34
    out = [quote]
    for c in el:
        if isinstance(c, Opaque):
            out.append(c)
        elif isinstance(c, int):
            out += map(ord, repr(chr(c) + "\"'")[1:-4] if c not in (34, 39) else ('\\' if c == quote else '') + chr(c))
        elif And(c >= 32, c < 127):
            if c == 92 or c == quote:
                out += [92, c]
            else:
                out.append(c)
        else:
            out += map(ord, repr(chr(concrete_int(c)))[1:-1])
    return mkstr(out + [quote])


def sxrepr(x):
    if isinstance(x, SymInt):
        return format_int(x, '')
    if isinstance(x, SymStr):
        return str_repr(x)
    if isinstance(x, SymFloat):
        return mkstr([Opaque('float', (x, ''))])
    if isinstance(x, SymBytes):
        return mkstr([Opaque('bytesrepr', x)])
    if isinstance(x, Rope):
        return mkstr([Opaque('bytesrepr', x)])
    if isinstance(x, Sym):
        return repr(concretise(x))
    if type(x) in (list, tuple) or isinstance(x, (SDict, SSet, SFrozenSet)):
        def seq(xs):
            out = ''
            for i, v in enumerate(xs):
                if i:
                    out = out + ', '
                out = out + sxrepr(v)
            return out
        if type(x) is list:
            return '[' + seq(x) + ']'
        if type(x) is tuple:
            return '(' + seq(x) + (',)' if len(x) == 1 else ')')
        if isinstance(x, SDict):
            out = ''
            for i, (k, v) in enumerate(x.items()):
                if i:
                    out = out + ', '
                out = out + sxrepr(k) + ': ' + sxrepr(v)
            return '{' + out + '}'
        return '{' + seq(x) + '}' if len(x) else 'set()'
    f = pyfunc(type(x), '__repr__')
    if f is not None and not isinstance(x, enum.Enum):
        return f(x)
    return repr(x)


def sxstr(x=b'', *args, **kw):
    if args or kw:
        if isinstance(x, (SymBytes, SymByteArray, Rope)):
            return x.decode(*args, **kw)
        return str(x, *args, **kw)
    if x == b'' and type(x) is bytes:
        return ''
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Sym):
        return sxrepr(x)
    if type(x) in (list, tuple) or isinstance(x, (SDict, SSet, SFrozenSet)):
        return sxrepr(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1 and isinstance(x.args[0], SymStr) and type(x).__str__ is not KeyError.__str__:
            return x.args[0]
        try:
            return str(x)
        except Exception:
            return ''
    f = pyfunc(type(x), '__str__')
    if f is not None and not isinstance(x, enum.Enum):
        return f(x)
    if type(x).__str__ is object.__str__:
        return sxrepr(x)
    return str(x)


_SIMPLE = {str, int, float, bool, type(None), bytes}


def fstr(*parts):
    """f-string: parts are str or (value, conversion, spec)"""
    lazy = False
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if type(v) in _SIMPLE and not isinstance(spec, Sym):
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
            continue
        if isinstance(v, (SymInt, SymStr, SymBytes, Rope)):
            lazy = True
            out.append((v, conv, spec))
            continue
        out.append(conv_format(v, conv, spec))
        if not isinstance(out[-1], str):
            lazy = True
    if not lazy:
        return ''.join(out)

    def build():
        r = []
        for p in out:
            if isinstance(p, tuple):
                p = conv_format(*p)
            r += elements(p)
        return mkstr(r)
    return SymStr(thunk=build)


def conv_format(v, conv, spec):
    if conv == 114:
        v = sxrepr(v)
    elif conv == 115:
        v = sxstr(v)
    elif conv == 97:
        v = sxrepr(v)
    return sxformat(v, spec)


def genuine(e):
    """Exception which the code under test causes"""
    e.genuine = True
    return e


def percent(fmt, args):
    """fmt % args"""
    isb = isinstance(fmt, (bytes, SymBytes, bytearray))
    symbolic = None
    if isinstance(fmt, Sym):
        # characters which are no percent signs stay symbolic
        fmt = as_seq(fmt)
        symbolic, s = {}, ''
        for c in fmt.el:
            if isinstance(c, SymInt):
                if s[-1:] == '%' and not s.endswith('%%'):
                    c = concrete_int(c)
                elif c == 37:
                    c = 37
            if isinstance(c, int):
                s += chr(c)
            else:
                p = chr(0xF0000 + len(symbolic))
                symbolic[p] = c
                s += p
        fmt = s.encode('latin-1') if isb and not symbolic else s
        if not symbolic:
            symbolic = None
    if isinstance(args, SDict):
        mapping = args
    elif isinstance(args, dict):
        mapping = args
    else:
        mapping = None
    if not isinstance(args, tuple):
        args = (args,)
    if symbolic is None and mapping is None and not any(isinstance(a, Sym) or not isinstance(a, (str, int, float, bytes, type(None))) for a in args):
        try:
            return fmt % args
        except (TypeError, ValueError) as e:
            raise genuine(e)
    s = fmt.decode('latin-1') if isinstance(fmt, bytes) else fmt
    out = []
    ai = 0
    i = 0

    def nextarg():
        nonlocal ai
        if ai >= len(args):
            raise genuine(TypeError("not enough arguments for format string"))
        ai += 1
        return args[ai - 1]

    while i < len(s):
        c = s[i]
        if c != '%':
            out.append(symbolic[c] if symbolic and c in symbolic else ord(c))
            i += 1
            continue
        i += 1
        key = None
        if i < len(s) and s[i] == '(':
            j = s.index(')', i)
            key = s[i + 1:j]
            i = j + 1
        flags = ''
        while i < len(s) and s[i] in '#0- +':
            flags += s[i]
            i += 1
        width = ''
        if i < len(s) and s[i] == '*':
            width = str(concrete_small(nextarg()))
            i += 1
        while i < len(s) and s[i].isdigit():
            width += s[i]
            i += 1
        prec = None
        if i < len(s) and s[i] == '.':
            i += 1
            prec = ''
            while i < len(s) and s[i].isdigit():
                prec += s[i]
                i += 1
        if i >= len(s):
            raise ValueError("incomplete format")
        t = s[i]
        i += 1
        if t == '%':
            out.append(37)
            continue
        v = mapping[key] if key is not None else nextarg()
        w = int(width or 0)
        if t in 'di' or t in 'xXo':
            if not isinstance(v, (int, SymInt, SymBool)):
                raise genuine(TypeError(f"%{t} format: a number is required"))
            v = toint(v)
            if isinstance(v, int):
                out += map(ord, ('%' + flags + width + ('.' + prec if prec is not None else '') + t) % v)
                continue
            t2 = 'd' if t in 'di' else t
            if prec is not None:
                r = format_int(v, f"0{prec}{t2}")
                out += pad(list(elements(r)), w, ' ', '<' if '-' in flags else '>')
                continue
            spec = ''
            if '+' in flags:
                spec += '+'
            if '#' in flags:
                spec += '#'
            if '0' in flags and '-' not in flags and w:
                spec += f"0{w}{t2}"
                out += elements(format_int(v, spec))
            else:
                out += pad(list(elements(format_int(v, spec + t2))), w, ' ', '<' if '-' in flags else '>')
        elif t in 'sra':
            if isb:
                r = v
                if isinstance(r, SymByteArray):
                    r = r.frozen()
            else:
                r = sxstr(v) if t == 's' else sxrepr(v)
            el = list(elements(r))
            if prec is not None:
                el = el[:int(prec)]
            out += pad(el, w, ' ', '<' if '-' in flags else '>')
        elif t == 'c':
            if not isinstance(v, (int, SymInt)) and not (isinstance(v, (str, SymStr)) and len(v) == 1):
                raise genuine(TypeError("%c requires int or char"))
            out += [toint(v)] if isinstance(v, (int, SymInt)) else list(elements(v))
        elif symbolic and t in symbolic:
            raise Unsupported('symbolic format')
        else:
            r = ('%' + flags + width + ('.' + prec if prec is not None else '') + t) % concretise(v)
            out += map(ord, r)
    if mapping is None and ai < len(args):
        raise genuine(TypeError("not all arguments converted during string formatting"))
    return mkbytes(out) if isb else mkstr(out)


def str_format(fmt, args, kw):
    """fmt.format(*args, **kw)"""
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out = out + lit
        if field is None:
            continue
        # field name
        name, rest = field, ''
        for k, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:k], field[k:]
                break
        if name == '':
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kw[name]
        while rest:
            if rest[0] == '.':
                k = 1
                while k < len(rest) and rest[k] not in '.[':
                    k += 1
                v = getattr(v, rest[1:k])
                rest = rest[k:]
            else:
                k = rest.index(']')
                key = rest[1:k]
                v = v[int(key) if key.isdigit() else key]
                rest = rest[k + 1:]
        if spec and '{' in spec:
            spec = str_format(spec, args[auto:], kw)
        out = out + conv_format(v, ord(conv) if conv else -1, spec or '')
    return out


# ---------------------------------------------------------------- operators

def mod(a, b):
    if isinstance(a, (str, bytes, bytearray, SymStr, SymBytes)):
        return percent(a, b)
    return a % b


def imod(a, b):
    return mod(a, b)


def contains(x, c):
    """x in c, without deciding when possible"""
    tc = type(c)
    if tc is str or tc is bytes:
        if isinstance(x, Sym):
            return as_seq(c).contains(x)
        return x in c
    if tc is SymStr or tc is SymBytes:
        return c.contains(x)
    if tc is SymByteArray:
        return SymBytes(tuple(c.data)).contains(x)
    if tc is tuple or tc is list:
        if isinstance(x, (SymInt, SymStr, SymBytes)) or any(isinstance(y, Sym) for y in c):
            return Or(*[(y is x) or symeq(x, y) for y in c])
        return x in c
    if (tc in (dict, set, frozenset) or isinstance(c, types.MappingProxyType)) and not is_plain(x):
        return Or(*[keyeq(x, y) for y in c])
    if tc is range and isinstance(x, SymInt):
        return SymRange(c.start, c.stop, c.step).contains(x)
    if tc is SymRange:
        return c.contains(x)
    if isinstance(c, enum.EnumMeta) and isinstance(x, Sym):
        return Or(*[symeq(x, m.value) for m in c])
    f = pyfunc(tc, '__contains__')
    if f is not None:
        return f(c, x)
    return x in c


def notcontains(x, c):
    return Not(contains(x, c))


def getitem(o, i):
    to = type(o)
    if to in (list, tuple, bytes, str, bytearray):
        if isinstance(i, (SymInt, SymBool)):
            if to is bytes or to is bytearray:
                return select(o, i)
            if to is str:
                return as_seq(o)[i]
            return select(o, i)
        if type(i) is slice and (isinstance(i.start, Sym) or isinstance(i.stop, Sym) or isinstance(i.step, Sym)):
            if to is str or to is bytes:
                return as_seq(o)[i]
            return o[_norm_slice(i, len(o))]
        return o[i]
    if (to is dict or to is types.MappingProxyType) and not is_plain(i):
        for k in o:
            if keyeq(k, i):
                return o[k]
        raise KeyError(i)
    if isinstance(o, enum.EnumMeta) and isinstance(i, SymStr):
        for name, m in o.__members__.items():
            if i == name:
                return m
        raise KeyError(i)
    return o[i]


class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def __len__(self):
        return concrete_small(self.length())

    def length(self):
        d = self.stop - self.start if self.step > 0 else self.start - self.stop
        s = abs(self.step)
        if d <= 0:
            return 0
        return (d + s - 1) // s

    def contains(self, x):
        if not isinstance(x, (int, SymInt)):
            return False
        if self.step > 0:
            c = And(x >= self.start, x < self.stop)
        else:
            c = And(x <= self.start, x > self.stop)
        if abs(self.step) == 1:
            return c
        return And(c, (x - self.start) % abs(self.step) == 0)

    __contains__ = contains

    def __getitem__(self, k):
        if isinstance(k, slice):
            return list(self)[k]
        n = self.length()
        if k < 0:
            k = k + n
        if not And(k >= 0, k < n):
            raise IndexError("range object index out of range")
        return self.start + k * self.step


# ---------------------------------------------------------------- builtins

HANDLERS = {}


def handler(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[id(f)] = h
            _keep.append(f)
        return h
    return deco


_keep = []


@handler(len)
def sxlen(x):
    t = type(x)
    if t is Rope:
        return x.length()
    if t is SymRange or t is SymByteArray:
        return x.length()
    f = pyfunc(t, '__len__') if t.__module__ not in ('builtins',) else None
    if f is not None:
        return f(x)
    return len(x)


def _flat(cls):
    if isinstance(cls, tuple):
        out = []
        for c in cls:
            out += _flat(c)
        return out
    if isinstance(cls, types.UnionType):
        return list(cls.__args__)
    return [cls]


CLASS_ALIAS = {}  # replacement of a class by a model: handler name -> classes


@handler(isinstance)
def sxisinstance(x, cls):
    if isinstance(x, Sym):
        t = sxtype(x)
        return any(issubclass(t, c) for c in _flat(cls) if isinstance(c, type))
    return isinstance(x, cls)


@handler(type)
def sxtypeof(*args, **kw):
    if len(args) == 1:
        return sxtype(args[0])
    return type(*args, **kw)


HANDLERS[id(str)] = sxstr
HANDLERS[id(repr)] = sxrepr
HANDLERS[id(format)] = sxformat


@handler(ascii)
def sxascii(x):
    return sxrepr(x) if isinstance(x, Sym) else ascii(x)


def parse_int(s, base):
    """int() on a symbolic str"""
    s = s.strip()
    if isinstance(s, (str, bytes)):
        return int(s, base)
    bad = ValueError("invalid literal for int()")
    el = list(s.el)
    neg = False
    if any(isinstance(c, Opaque) for c in el):
        raise Unsupported('int of opaque text')
    if el[0] == 45:
        neg = True
        el = el[1:]
    elif el[0] == 43:
        el = el[1:]
    if base in (16, 2, 8) and len(el) >= 2 and el[0] == 48:
        if Or(el[1] == ord('xbo'[(16, 2, 8).index(base)]), el[1] == ord('XBO'[(16, 2, 8).index(base)])):
            el = el[2:]
            if el and el[0] == 95:
                el = el[1:]
    if base == 0:
        return int(s.concrete(), 0)
    if not el:
        raise bad
    # underscores between digits
    if Or(*[c == 95 for c in el]):
        out = []
        prev = False
        for c in el:
            if c == 95:
                if not prev:
                    raise bad
                prev = False
            else:
                out.append(c)
                prev = True
        if not prev:
            raise bad
        el = out

    def isdig(c):
        cs = [And(c >= 48, c <= 47 + min(base, 10))]
        if base > 10:
            cs += [And(c >= 97, c <= 86 + base), And(c >= 65, c <= 54 + base)]
        return Or(*cs)

    if not And(*[isdig(c) for c in el]):
        raise bad
    v = 0
    for c in el:
        if isinstance(c, int):
            d = int(chr(c), base)
        else:
            e = sext(c.e, max(c.e.size(), 9))
            d = z3.If(e >= 97, e - 87, z3.If(e >= 65, e - 55, e - 48)) if base > 10 else e - 48
            d = SymInt(sext(d, need_bits(0, base - 1)), 0, base - 1)
        v = v * base + d
    return -v if neg else v


@handler(int)
def sxint(x=0, base=10):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, (SymStr, SymBytes)):
        return parse_int(x, concrete_small(base))
    if isinstance(x, SymFloat):
        return int(x.concrete())
    if isinstance(x, (str, bytes)):
        return int(x, base)
    f = pyfunc(type(x), '__int__') or pyfunc(type(x), '__index__')
    if f is not None:
        return f(x)
    return int(x)


@handler(float)
def sxfloat(x=0.0):
    if isinstance(x, SymFloat):
        return x
    return native_call(float, (x,), {})


@handler(bool)
def sxbool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


@handler(bytes)
def sxbytes(*args, **kw):
    if not args:
        return b''
    x = args[0]
    if isinstance(x, (SymBytes, Rope)):
        return x
    if isinstance(x, SymByteArray):
        return x.frozen()
    if isinstance(x, SymStr):
        return x.encode(*args[1:], **kw)
    if isinstance(x, SymInt):
        return bytes(concrete_int(x))
    if isinstance(x, (int, str, bytes, bytearray, memoryview)):
        return bytes(*args, **kw)
    f = pyfunc(type(x), '__bytes__')
    if f is not None:
        return f(x)
    el = list(x)
    for v in el:
        if isinstance(v, SymInt) and (v.lo < 0 or v.hi > 255):
            if not And(v >= 0, v <= 255):
                raise ValueError("bytes must be in range(0, 256)")
    if any_sym(el):
        return mkbytes([v if isinstance(v, int) else SymInt.from_ubv(ubv(v, 8)) for v in el])
    return bytes(el)


@handler(bytearray)
def sxbytearray(*args, **kw):
    if not args:
        return SymByteArray()
    x = args[0]
    if isinstance(x, (SymInt, int)):
        return SymByteArray(concrete_small(x))
    if isinstance(x, Rope):
        return SymByteArray(x)
    return SymByteArray(elements(sxbytes(*args, **kw)))


@handler(memoryview)
def sxmemoryview(x):
    if isinstance(x, Sym):
        return x.frozen() if isinstance(x, SymByteArray) else x
    return memoryview(x)


@handler(dict)
def sxdict(*args, **kw):
    return SDict(*args, **kw)


@handler(set)
def sxset(it=()):
    return SSet(it)


@handler(frozenset)
def sxfrozenset(it=()):
    return it if isinstance(it, SFrozenSet) else SFrozenSet(it)


@handler(list)
def sxlist(it=()):
    return [x for x in it]


@handler(tuple)
def sxtuple(it=()):
    return tuple([x for x in it])


@handler(range)
def sxrange(*args):
    if any_sym(args):
        if len(args) == 1:
            return SymRange(0, args[0])
        if len(args) == 3:
            return SymRange(args[0], args[1], concrete_small(args[2]))
        return SymRange(*args)
    return range(*args)


@handler(map)
def sxmap(f, *its):
    return (call(f, *xs) for xs in zip(*its))


@handler(filter)
def sxfilter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def _wrapkey(key):
    if key is None:
        return None
    return lambda x: call(key, x)


@handler(sorted)
def sxsorted(it, *, key=None, reverse=False):
    return sorted([x for x in it], key=_wrapkey(key), reverse=reverse)


def _minmax(f, args, key, default):
    if len(args) == 1:
        xs = [x for x in args[0]]
    else:
        xs = list(args)
    if not xs:
        if default is not MISSING:
            return default
        raise ValueError(f"{f.__name__}() arg is an empty sequence" if False else f"{f.__name__}() iterable argument is empty")
    if key is None and all(isinstance(x, (int, SymInt)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(x < r if f is min else x > r, x, r)
        return r
    return f(xs, key=_wrapkey(key)) if key is not None else f(xs)


@handler(min)
def sxmin(*args, key=None, default=MISSING):
    return _minmax(min, args, key, default)


@handler(max)
def sxmax(*args, key=None, default=MISSING):
    return _minmax(max, args, key, default)


@handler(any)
def sxany(it):
    cs = []
    for x in it:
        if isinstance(x, SymBool):
            if x:
                return True
        elif x:
            return True
    return False


@handler(hash)
def sxhash(x):
    return symhash(x)


@handler(ord)
def sxord(c):
    if isinstance(c, (SymStr, SymBytes)):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        x = c.el[0]
        return x if not isinstance(x, Opaque) else ord(c.concrete())
    return ord(c)


@handler(chr)
def sxchr(n):
    if isinstance(n, SymInt):
        if not And(n >= 0, n <= 0x10ffff):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([n])
    return chr(n)


@handler(hex)
def sxhex(n):
    return format_int(n, '#x') if isinstance(n, SymInt) else hex(n)


@handler(oct)
def sxoct(n):
    return format_int(n, '#o') if isinstance(n, SymInt) else oct(n)


@handler(bin)
def sxbin(n):
    return format_int(n, '#b') if isinstance(n, SymInt) else bin(n)


@handler(round)
def sxround(x, n=None):
    if isinstance(x, SymInt) and n is None:
        return x
    return native_call(round, (x,) if n is None else (x, n), {})


@handler(callable)
def sxcallable(x):
    return False if isinstance(x, Sym) else callable(x)


@handler(print)
def sxprint(*args, sep=' ', end='\n', file=None, flush=False):
    f = file if file is not None else Hooks.stdout
    if f is None:
        return
    out = ''
    for i, a in enumerate(args):
        if i:
            out = out + sep
        out = out + sxstr(a)
    f.write(out + end)


class Hooks:
    stdout = None


@handler(getattr)
def sxgetattr(o, name, *default):
    if isinstance(name, SymStr):
        cands = [n for n in dir(o) if not n.startswith('__')]
        for n in cands:
            if len(n) == len(name.el) and name == n:
                return getattr(o, n, *default)
        if default:
            return default[0]
        raise AttributeError("no attribute")
    return getattr(o, name, *default)


@handler(hasattr)
def sxhasattr(o, name):
    if isinstance(name, SymStr):
        return Or(*[name == n for n in dir(o) if len(n) == len(name.el)])
    return hasattr(o, name)


@handler(setattr)
def sxsetattr(o, name, v):
    if isinstance(name, SymStr):
        name = name.concrete()
    setattr(o, name, v)


def int_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, SymByteArray):
        b = b.frozen()
    if isinstance(b, Rope):
        b = b.vector()
    if isinstance(b, (list, tuple)) or isinstance(b, SymBytes):
        el = list(b)
        if not el:
            return 0
        if byteorder == 'little':
            el = el[::-1]
        v = z3.Concat(*[ubv(x, 8) for x in el]) if len(el) > 1 else ubv(el[0], 8)
        return SymInt.from_sbv(v) if signed else SymInt.from_ubv(v)
    return int.from_bytes(b, byteorder, signed=signed)


def enum_call(cls, args, kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if isinstance(x, cls):
            return x
        if isinstance(x, Sym):
            for m in cls.__members__.values():
                c = symeq(x, m.value)
                if c:
                    return m
            if '_missing_' in {n for c in cls.__mro__[:-1] if not c.__module__.startswith('enum') for n in c.__dict__}:
                r = cls._missing_(x)
                if isinstance(r, cls):
                    return r
            raise ValueError(f"not a valid {cls.__name__}")
    return cls(*args, **kw)


BYTES_RESULT = {'hex'}


def str_method(f, s, name, args, kw):
    if name == 'join':
        xs = [x for x in args[0]]
        if any(isinstance(x, Sym) for x in xs):
            if isinstance(s, (bytes, bytearray)) and any(isinstance(x, Rope) for x in xs):
                segs = []
                for i, x in enumerate(xs):
                    if i and len(s):
                        segs.append(bytes(s))
                    if isinstance(x, Rope):
                        segs += x.segs
                    elif isinstance(x, SymByteArray):
                        segs.append(x.frozen())
                    else:
                        segs.append(x)
                return mkrope(segs)
            return as_seq(s).join(xs)
        return f(xs)
    if name == 'format':
        if any_sym(args, kw) or any(not isinstance(a, (str, int, float)) for a in list(args) + list(kw.values())):
            return str_format(s, args, kw)
        return f(*args, **kw)
    if any_sym(args, kw):
        try:
            return getattr(as_seq(s), name)(*args, **kw)
        except Unsupported:
            return native_call(f, args, kw)
    return f(*args, **kw)


def sym_method(f, args, kw):
    """Method of a proxy; unsupported operations are concretised"""
    try:
        return f(*args, **kw)
    except Unsupported as e:
        s = f.__self__
        if not isinstance(s, (SymSeq, Rope, SymByteArray)):
            raise
        mark_incomplete(f"concretised {f.__name__}: {e}")
        return getattr(concretise(s), f.__name__)(*[concretise(a) for a in args], **{k: concretise(v) for k, v in kw.items()})


SAFE_MODULES = {'builtins', 'itertools', '_functools', 'functools', '_operator', 'operator', 'copy', '_collections', 'collections', '_abc', 'typing',
                'weakref', '_weakref', 'contextlib', 'types', '_io', 'io', 'sys', 'signal', '_signal', 'gc', None}

DICT_FROMKEYS = {dict: SDict}

MAX_CALLS = 3_000_000


def call(f, /, *args, **kw):
    t = type(f)
    if t is types.FunctionType:
        h = FUNCS.get(f)
        if h is not None:
            return h(*args, **kw)
        return f(*args, **kw)
    if t is types.MethodType:
        if isinstance(f.__self__, Sym):
            return sym_method(f, args, kw)
        return f(*args, **kw)
    if t is types.BuiltinFunctionType:
        h = HANDLERS.get(id(f))
        if h is not None:
            try:
                return h(*args, **kw)
            except Unsupported:
                return native_call(f, args, kw)
        s = f.__self__
        ts = type(s)
        if ts is str or ts is bytes or ts is bytearray:
            return str_method(f, s, f.__name__, args, kw)
        if ts is types.ModuleType or s is None:
            m = getattr(f, '__module__', None)
            if m in SAFE_MODULES:
                return f(*args, **kw)
            return native_call(f, args, kw)
        if ts is list:
            if f.__name__ == 'sort':
                kw['key'] = _wrapkey(kw.get('key'))
                return f(**kw)
            return f(*args, **kw)
        if s is int and f.__name__ == 'from_bytes':
            return int_from_bytes(*args, **kw)
        if s is dict and f.__name__ == 'fromkeys':
            return SDict.fromkeys(*args, **kw)
        if s is bytes or s is str or s is bytearray:  # bytes.fromhex, str.maketrans
            return native_call(f, args, kw)
        if ts is dict and args and not is_plain(args[0]) and f.__name__ in ('get', 'pop', 'setdefault', '__contains__', '__getitem__'):
            for k in s:
                if keyeq(k, args[0]):
                    return f(k, *args[1:])
            if f.__name__ == 'get':
                return args[1] if len(args) > 1 else None
            return native_call(f, args, kw)
        if ts is set and args and not is_plain(args[0]) and f.__name__ in ('add', 'remove', 'discard'):
            return native_call(f, args, kw)
        return f(*args, **kw)
    if isinstance(f, type):
        h = HANDLERS.get(id(f))
        if h is not None:
            try:
                return h(*args, **kw)
            except Unsupported:
                return native_call(f, args, kw)
        if isinstance(f, enum.EnumMeta):
            return enum_call(f, args, kw)
        return f(*args, **kw)
    if t is types.MethodDescriptorType and args:
        # str.lower(x), bytes.decode(x), list.append(l, x)
        if isinstance(args[0], Sym):
            return sym_method(getattr(args[0], f.__name__), args[1:], kw)
        if any_sym(args[1:], kw) and isinstance(args[0], (str, bytes)):
            return call(getattr(args[0], f.__name__), *args[1:], **kw)
        return f(*args, **kw)
    if t is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    return f(*args, **kw)


import functools
FUNCS = {}   # pure-Python library functions with a model


def mkdict(*items):
    """Dict display; items are (key, value) or (None, mapping) flagged by a 1-tuple"""
    d = SDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def dictcomp(gen):
    d = SDict()
    for k, v in gen:
        d[k] = v
    return d


def mkset(*items):
    return SSet(items)


def unary_not(x):
    return Not(x) if isinstance(x, SymBool) else not x
