"""Regular expressions on symbolic text: a backtracking matcher over the standard parse tree."""

import re
import re._parser as sre_parse
import re._constants as C

from .engine import Engine
from .values import *
from .values import Sym

MAXREPEAT = C.MAXREPEAT


def _native(*xs):
    return not any(isinstance(x, Sym) for x in xs)


def lower1(c):
    return ite_range(c, 65, 90, 32)


class Matcher:
    """Compiles parse-tree nodes to functions (pos, groups, k) -> result of k or None"""

    def __init__(self, el, flags, isstr):
        self.el = el
        self.n = len(el)
        self.flags = flags
        self.isstr = isstr

    def ch(self, i):
        c = self.el[i]
        if isinstance(c, Opaque):
            raise Unsupported('regex on opaque text')
        return c

    def asc(self, c):
        """Fold classes above ASCII by enumeration"""
        if self.isstr and isinstance(c, SymInt) and c.hi >= 128 and not (c < 128):
            return concrete_int(c)
        return c

    def cat(self, c, cat):
        c = self.asc(c)
        if isinstance(c, int) and c >= 128 and self.isstr and not self.flags & re.A:
            s = chr(c)
            r = {C.CATEGORY_DIGIT: s.isdigit(), C.CATEGORY_SPACE: s.isspace(), C.CATEGORY_WORD: s.isalnum() or s == '_'}
            for k, nk in ((C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT), (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE), (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD)):
                if cat is k:
                    return r[k]
                if cat is nk:
                    return not r[k]
        digit = And(c >= 48, c <= 57)
        if cat is C.CATEGORY_DIGIT:
            return digit
        if cat is C.CATEGORY_NOT_DIGIT:
            return Not(digit)
        if cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
            sp = Or(c == 32, And(c >= 9, c <= 13), And(c >= 28, c <= 31) if self.isstr and not self.flags & re.A else False)
            return sp if cat is C.CATEGORY_SPACE else Not(sp)
        if cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
            w = Or(digit, And(c >= 65, c <= 90), And(c >= 97, c <= 122), c == 95)
            return w if cat is C.CATEGORY_WORD else Not(w)
        raise Unsupported(f'category {cat}')

    def lit(self, c, v, flags):
        if flags & re.I:
            c = self.asc(c)
            if isinstance(c, int) and c >= 128 or v >= 128:
                return bool(re.match(re.escape(chr(v)), chr(concrete_int(c)), flags & ~re.L if self.isstr else flags & (re.I | re.A)))
            return lower1(c) == lower1(v)
        return c == v

    def inset(self, c, items, flags):
        neg = False
        cs = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                cs.append(self.lit(c, av, flags))
            elif op is C.RANGE:
                lo, hi = av
                cs.append(And(c >= lo, c <= hi))
                if flags & re.I:
                    c2 = ite_range(c, 65, 90, 32)
                    cs.append(And(c2 >= lo, c2 <= hi))
                    c3 = ite_range(c, 97, 122, -32)
                    cs.append(And(c3 >= lo, c3 <= hi))
            elif op is C.CATEGORY:
                cs.append(self.cat(c, av))
            else:
                raise Unsupported(f'set item {op}')
        r = Or(*cs)
        return Not(r) if neg else r

    def char_test(self, op, av, flags):
        """Test on one character, None if the node is not a single-character one"""
        if op is C.LITERAL:
            return lambda c: self.lit(c, av, flags)
        if op is C.NOT_LITERAL:
            return lambda c: Not(self.lit(c, av, flags))
        if op is C.ANY:
            if flags & re.S:
                return lambda c: True
            return lambda c: Not(c == 10)
        if op is C.IN:
            return lambda c: self.inset(c, av, flags)
        return None

    def literals(self, avs, flags):
        """Several literal characters: known ones are compared first"""
        n = len(avs)

        def m(pos, groups, k):
            if pos + n > self.n:
                return None
            cs = []
            for i, v in enumerate(avs):
                c = self.ch(pos + i)
                if isinstance(c, int) and not flags & re.I:
                    if c != v:
                        return None
                else:
                    r = self.lit(c, v, flags)
                    if r is False:
                        return None
                    cs.append(r)
            if not And(*cs):
                return None
            return k(pos + n, groups)
        return m

    def seq(self, nodes, flags):
        nodes = list(nodes)
        ms = []
        i = 0
        while i < len(nodes):
            j = i
            while j < len(nodes) and nodes[j][0] is C.LITERAL:
                j += 1
            if j - i > 1:
                ms.append(self.literals([av for _, av in nodes[i:j]], flags))
                i = j
            else:
                ms.append(self.node(*nodes[i], flags))
                i += 1

        def run(pos, groups, k, i=0):
            if i == len(ms):
                return k(pos, groups)
            return ms[i](pos, groups, lambda p, g: run(p, g, k, i + 1))
        return run

    def node(self, op, av, flags):
        t = self.char_test(op, av, flags)
        if t is not None:
            def m(pos, groups, k):
                if pos < self.n and t(self.ch(pos)):
                    return k(pos + 1, groups)
                return None
            return m
        if op is C.SUBPATTERN:
            group, add, sub, p = av
            body = self.seq(p, (flags | add) & ~sub)
            if group is None:
                return body

            def m(pos, groups, k):
                def done(p2, g2):
                    g2 = dict(g2)
                    g2[group] = (pos, p2)
                    g2['last'] = group
                    return k(p2, g2)
                return body(pos, groups, done)
            return m
        if op is C.BRANCH:
            alts = [self.seq(p, flags) for p in av[1]]

            def m(pos, groups, k):
                for a in alts:
                    r = a(pos, groups, k)
                    if r is not None:
                        return r
                return None
            return m
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            if len(p) == 1:
                t = self.char_test(p[0][0], p[0][1], flags)
                if t is not None:
                    return self.repeat_char(t, lo, hi, op)
            body = self.seq(p, flags)
            greedy = op is not C.MIN_REPEAT

            def m(pos, groups, k):
                def step(p2, g2, count, last):
                    def more():
                        if hi is not MAXREPEAT and count >= hi:
                            return None
                        if count >= lo and p2 == last:
                            return None  # no progress
                        return body(p2, g2, lambda p3, g3: step(p3, g3, count + 1, p2))
                    if count < lo:
                        return more()
                    if greedy:
                        r = more()
                        return r if r is not None else k(p2, g2)
                    r = k(p2, g2)
                    return r if r is not None else more()
                if op is C.POSSESSIVE_REPEAT:
                    k0, box = k, []
                    def k1(p, g):
                        box.append((p, g))
                        return True
                    raise Unsupported('possessive')
                return step(pos, groups, 0, None)
            return m
        if op is C.AT:
            def m(pos, groups, k):
                return k(pos, groups) if self.at(av, pos, flags) else None
            return m
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            body = self.seq(p, flags)
            width = sre_parse.SubPattern.getwidth(p) if hasattr(p, 'getwidth') else None

            def m(pos, groups, k):
                start = pos
                if direction < 0:
                    start = pos - p.getwidth()[0]
                    if start < 0:
                        r = None
                    else:
                        r = body(start, groups, lambda p2, g2: (p2, g2) if p2 == pos else None)
                else:
                    r = body(start, groups, lambda p2, g2: (p2, g2))
                if op is C.ASSERT:
                    return k(pos, r[1]) if r is not None else None
                return k(pos, groups) if r is None else None
            return m
        if op is C.GROUPREF:
            def m(pos, groups, k):
                if av not in groups:
                    return None
                a, b = groups[av]
                n = b - a
                if pos + n > self.n:
                    return None
                for i in range(n):
                    x, y = self.ch(a + i), self.ch(pos + i)
                    if flags & re.I:
                        x, y = lower1(x), lower1(y)
                    if not (x == y):
                        return None
                return k(pos + n, groups)
            return m
        if op is C.GROUPREF_EXISTS:
            group, yes, no = av
            y = self.seq(yes, flags)
            n = self.seq(no, flags) if no else None

            def m(pos, groups, k):
                if group in groups:
                    return y(pos, groups, k)
                return n(pos, groups, k) if n else k(pos, groups)
            return m
        if op is C.ATOMIC_GROUP:
            body = self.seq(av, flags)

            def m(pos, groups, k):
                r = body(pos, groups, lambda p, g: (p, g))
                return k(*r) if r is not None else None
            return m
        raise Unsupported(f'regex {op}')

    def repeat_char(self, t, lo, hi, op):
        def m(pos, groups, k):
            limit = self.n - pos if hi is MAXREPEAT else min(hi, self.n - pos)
            if limit < lo:
                return None
            if op is C.MIN_REPEAT:
                i = 0
                while i < lo:
                    if not t(self.ch(pos + i)):
                        return None
                    i += 1
                while True:
                    r = k(pos + i, groups)
                    if r is not None:
                        return r
                    if i >= limit or not t(self.ch(pos + i)):
                        return None
                    i += 1
            i = 0
            while i < limit and t(self.ch(pos + i)):
                i += 1
            if i < lo:
                return None
            if op is C.POSSESSIVE_REPEAT:
                return k(pos + i, groups)
            while i >= lo:
                r = k(pos + i, groups)
                if r is not None:
                    return r
                i -= 1
            return None
        return m

    def at(self, av, pos, flags):
        if av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_BEGINNING:
            return pos == 0 or (bool(flags & re.M) and bool(self.ch(pos - 1) == 10))
        if av is C.AT_END_STRING:
            return pos == self.n
        if av is C.AT_END:
            if pos == self.n:
                return True
            if flags & re.M:
                return bool(self.ch(pos) == 10)
            return pos == self.n - 1 and bool(self.ch(pos) == 10)
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = pos > 0 and bool(self.cat(self.ch(pos - 1), C.CATEGORY_WORD))
            b = pos < self.n and bool(self.cat(self.ch(pos), C.CATEGORY_WORD))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported(f'at {av}')


class SymMatch:
    def __init__(self, pattern, string, spans, lastindex, pos=0, endpos=None):
        self.re = pattern
        self.string = string
        self.spans = spans
        self.lastindex = lastindex
        self.pos = pos
        self.endpos = len(string) if endpos is None else endpos

    def _id(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        s = self.spans.get(self._id(g))
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from .containers import SDict
        return SDict((k, self._get(k, default)) for k in self.re.groupindex)

    def span(self, g=0):
        return self.spans.get(self._id(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def expand(self, template):
        return expand(self.re, template, self)

    def __bool__(self):
        return True


_templates = {}


def expand(pattern, template, m):
    """Replacement template"""
    if isinstance(template, Sym):
        template = template.concrete()
    key = (pattern.native, template)
    parsed = _templates.get(key)
    if parsed is None:
        parsed = _templates[key] = sre_parse.parse_template(template, pattern.native)
    out = template[:0]
    for x in parsed:
        if isinstance(x, int):
            g = m._get(x)
            if g is not None:
                out = out + g
        elif x is not None:
            out = out + x
    return out


class SymPattern:
    def __init__(self, native):
        self.native = native
        self.pattern = native.pattern
        self.flags = native.flags
        self.groups = native.groups
        self.groupindex = native.groupindex
        self._tree = None

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return isinstance(o, SymPattern) and self.native == o.native

    def __hash__(self):
        return hash(self.native)

    @property
    def tree(self):
        if self._tree is None:
            self._tree = sre_parse.parse(self.pattern, self.flags & ~re.U if isinstance(self.pattern, str) and not self.flags & re.A else self.flags)
        return self._tree

    def _matcher(self, string):
        isstr = isinstance(string, SymStr)
        if isstr != isinstance(self.pattern, str):
            raise TypeError("cannot use a string pattern on a bytes-like object")
        m = Matcher(string.el, self.flags, isstr)
        return m, m.seq(self.tree, self.flags)

    def _at(self, m, run, string, pos, full=False, minend=None):
        def k(p, g):
            if full and p != m.n:
                return None
            if minend is not None and p == minend:
                return None
            return (p, g)
        r = run(pos, {}, k)
        if r is None:
            return None
        p, g = r
        g = dict(g)
        last = g.pop('last', None)
        g[0] = (pos, p)
        return SymMatch(self, string, g, last)

    def _prep(self, string, pos, endpos):
        if isinstance(string, SymByteArray):
            string = SymBytes(tuple(string.data))
        if isinstance(string, Rope):
            string = string.vector()
        if endpos is not None:
            string = as_seq(string[:endpos])
        return string

    def match(self, string, pos=0, endpos=None):
        if _native(string):
            return self.native.match(string, pos, *([] if endpos is None else [endpos]))
        string = self._prep(string, pos, endpos)
        m, run = self._matcher(string)
        return self._at(m, run, string, pos)

    def fullmatch(self, string, pos=0, endpos=None):
        if _native(string):
            return self.native.fullmatch(string, pos, *([] if endpos is None else [endpos]))
        string = self._prep(string, pos, endpos)
        m, run = self._matcher(string)
        return self._at(m, run, string, pos, full=True)

    def _search(self, m, run, string, pos, minend=None):
        while pos <= m.n:
            r = self._at(m, run, string, pos, minend=minend)
            minend = None
            if r is not None:
                return r
            pos += 1
        return None

    def search(self, string, pos=0, endpos=None):
        if _native(string):
            return self.native.search(string, pos, *([] if endpos is None else [endpos]))
        string = self._prep(string, pos, endpos)
        m, run = self._matcher(string)
        return self._search(m, run, string, pos)

    def finditer(self, string, pos=0, endpos=None):
        if _native(string):
            yield from self.native.finditer(string, pos, *([] if endpos is None else [endpos]))
            return
        string = self._prep(string, pos, endpos)
        m, run = self._matcher(string)
        minend = None
        while pos <= m.n:
            r = self._search(m, run, string, pos, minend)
            if r is None:
                return
            yield r
            a, b = r.span()
            pos = b
            # after an empty match, only a non-empty one may start at the same place
            minend = b if a == b else None

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                g = m.group(1)
                out.append(string[:0] if g is None else g)
            else:
                out.append(tuple(string[:0] if g is None else g for g in m.groups()))
        return out

    def subn(self, repl, string, count=0):
        if _native(string, repl) and not callable(repl):
            return self.native.subn(repl, string, count)
        string0 = string
        out = string[:0]
        i = n = 0
        it = self.finditer(string)
        for m in it:
            if count and n >= count:
                break
            a, b = m.span()
            out = out + string[i:a]
            if callable(repl):
                r = repl(m)
                out = out + r
            elif isinstance(m, SymMatch):
                out = out + expand(self, repl, m)
            elif isinstance(repl, Sym):
                if Or(*[c == 92 for c in repl.el]):
                    raise Unsupported('symbolic template')
                out = out + repl
            else:
                out = out + m.expand(repl)
            i = b
            n += 1
        out = out + string[i:]
        return out, n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if _native(string):
            return self.native.split(string, maxsplit)
        out = []
        i = n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(string[i:a])
            out += list(m.groups())
            i = b
            n += 1
        out.append(string[i:])
        return out

    def __repr__(self):
        return repr(self.native)


class ReModule:
    """Model of module re"""
    error = re.error
    Pattern = SymPattern
    Match = SymMatch
    for _n in ('A', 'ASCII', 'I', 'IGNORECASE', 'L', 'LOCALE', 'M', 'MULTILINE', 'S', 'DOTALL', 'U', 'UNICODE', 'X', 'VERBOSE', 'DEBUG', 'RegexFlag', 'NOFLAG'):
        locals()[_n] = getattr(re, _n)
    _cache = {}

    @classmethod
    def compile(cls, pattern, flags=0):
        if isinstance(pattern, SymPattern):
            return pattern
        if isinstance(pattern, re.Pattern):
            return SymPattern(pattern)
        if isinstance(pattern, Sym):
            mark_incomplete('symbolic regex pattern')
            pattern = pattern.concrete()
        key = (type(pattern), pattern, int(flags))
        if key not in cls._cache:
            cls._cache[key] = SymPattern(re.compile(pattern, flags))
        return cls._cache[key]

    @classmethod
    def match(cls, pattern, string, flags=0):
        return cls.compile(pattern, flags).match(string)

    @classmethod
    def fullmatch(cls, pattern, string, flags=0):
        return cls.compile(pattern, flags).fullmatch(string)

    @classmethod
    def search(cls, pattern, string, flags=0):
        return cls.compile(pattern, flags).search(string)

    @classmethod
    def sub(cls, pattern, repl, string, count=0, flags=0):
        return cls.compile(pattern, flags).sub(repl, string, count)

    @classmethod
    def subn(cls, pattern, repl, string, count=0, flags=0):
        return cls.compile(pattern, flags).subn(repl, string, count)

    @classmethod
    def split(cls, pattern, string, maxsplit=0, flags=0):
        return cls.compile(pattern, flags).split(string, maxsplit)

    @classmethod
    def findall(cls, pattern, string, flags=0):
        return cls.compile(pattern, flags).findall(string)

    @classmethod
    def finditer(cls, pattern, string, flags=0):
        return cls.compile(pattern, flags).finditer(string)

    @staticmethod
    def escape(s):
        if isinstance(s, SymStr):
            out = ''
            for c in s:
                if bool(Or(*[c == x for x in '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'])):
                    out = out + '\\'
                out = out + c
            return out
        return re.escape(s)

    @staticmethod
    def purge():
        pass
