"""Dictionaries and sets whose keys may be symbolic.

Insertion-ordered association lists: on every explored path the keys of a
container are known to be pairwise different, because inserting a symbolic key
decides its equality with each key already there.
"""

import enum
import types
from .engine import Engine
from .values import *
from .values import Sym

_PLAIN = {str, int, bytes, bool, float, type(None)}


def is_plain(k):
    """Native value whose hash and equality need no model"""
    t = type(k)
    if t in _PLAIN:
        return True
    if t is tuple or t is frozenset:
        return all(is_plain(x) for x in k)
    if issubclass(t, enum.Enum):
        return True
    if issubclass(t, Sym):
        return False
    if issubclass(t, tuple):
        return t.__hash__ is tuple.__hash__ and all(is_plain(x) for x in k)
    h = t.__hash__
    return not isinstance(h, types.FunctionType)


class OpaqueHash(Sym):
    """hash() of something which is not an integer"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        if isinstance(o, OpaqueHash):
            return keyeq(self.key, o.key)
        if isinstance(o, (int, SymInt)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return 0

    def __index__(self):
        return hash(self.key)
    __int__ = __index__

    def _arith(self, *o):
        return OpaqueHash((self.key,) + o)
    __add__ = __xor__ = __mul__ = __radd__ = __rxor__ = __rmul__ = __mod__ = __and__ = _arith


def symhash(x):
    """Model of hash(): int, SymInt or OpaqueHash"""
    if isinstance(x, (SymInt, OpaqueHash)):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int) and not isinstance(x, enum.Enum):
        return int(x)
    if isinstance(x, (str, bytes, SymStr, SymBytes, Rope)) and not isinstance(x, enum.Enum):
        return OpaqueHash(x)
    if type(x) in (tuple, frozenset) or (isinstance(x, tuple) and type(x).__hash__ is tuple.__hash__):
        return OpaqueHash(tuple(x))
    h = type(x).__hash__
    if h is None:
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    if isinstance(h, types.FunctionType):
        return h(x)
    return hash(x)


def _kind(x):
    if isinstance(x, (int, SymInt, SymBool)):
        return 'i'
    if isinstance(x, (str, SymStr)):
        return 's'
    if isinstance(x, (bytes, SymBytes, Rope)):
        return 'b'
    if x is None:
        return 'n'
    if isinstance(x, tuple):
        return 't'
    return 'o'


def has_custom_hash(x):
    return not isinstance(x, Sym) and isinstance(type(x).__hash__, types.FunctionType) and not isinstance(x, enum.Enum)


def keyeq(a, b):
    """Do two keys match, as dictionary keys?"""
    if a is b:
        return True
    if has_custom_hash(a) or has_custom_hash(b):
        h = symhash(a) == symhash(b)
        if h is NotImplemented or h is False:
            return False
        r = a == b
        if r is NotImplemented:
            return False
        return And(h, r)
    ka, kb = _kind(a), _kind(b)
    if ka != kb:
        return False if 'o' not in (ka, kb) else bool(a == b)
    if ka == 't':
        if len(a) != len(b):
            return False
        return And(*[keyeq(x, y) for x, y in zip(a, b)])
    r = a == b
    return False if r is NotImplemented else r


class _Missing:
    pass


MISSING = _Missing()


class Table:
    """Ordered entries [key, value]"""
    __slots__ = ('items', 'idx', 'nsym', 'n')

    def __init__(self):
        self.items = {}   # serial -> [key, value]
        self.idx = {}     # plain key -> serial
        self.nsym = 0
        self.n = 0

    def find(self, k):
        """Serial of the entry matching a key, None if there is none"""
        if is_plain(k):
            try:
                s = self.idx.get(k)
            except TypeError:
                raise
            if s is not None or not self.nsym:
                return s
            cand = [(s, e[0]) for s, e in self.items.items() if not is_plain(e[0])]
        else:
            symhash(k)
            cand = [(s, e[0]) for s, e in self.items.items()]
        conds = []
        for s, k2 in cand:
            c = keyeq(k, k2)
            if c is True:
                return s
            if c is not False:
                conds.append((s, c))
        if len(conds) > 3:
            if not Or(*[c for _, c in conds]):
                return None
            for s, c in conds[:-1]:
                if c:
                    return s
            return conds[-1][0]
        for s, c in conds:
            if c:
                return s
        return None

    def add(self, k, v):
        s = self.n
        self.n += 1
        self.items[s] = [k, v]
        if is_plain(k):
            self.idx[k] = s
        else:
            self.nsym += 1

    def remove(self, s):
        k, v = self.items.pop(s)
        if is_plain(k):
            del self.idx[k]
        else:
            self.nsym -= 1
        return k, v


class SDict(dict):
    """dict with a Table inside; the native part stays empty"""

    def __init__(self, *args, **kwargs):
        self._t = Table()
        if len(args) > 1:
            raise TypeError("dict expected at most 1 argument")
        self.update(*args, **kwargs)

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __getitem__(self, k):
        s = self._t.find(k)
        if s is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._t.items[s][1]

    def __setitem__(self, k, v):
        s = self._t.find(k)
        if s is None:
            self._t.add(k, v)
        else:
            self._t.items[s][1] = v

    def __delitem__(self, k):
        s = self._t.find(k)
        if s is None:
            raise KeyError(k)
        self._t.remove(s)

    def __contains__(self, k):
        return self._t.find(k) is not None

    def __len__(self):
        return len(self._t.items)

    def __bool__(self):
        return bool(self._t.items)

    def __iter__(self):
        n = len(self._t.items)
        for e in list(self._t.items.values()):
            if len(self._t.items) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield e[0]

    def __reversed__(self):
        return iter([e[0] for e in reversed(list(self._t.items.values()))])

    def get(self, k, default=None):
        s = self._t.find(k)
        return default if s is None else self._t.items[s][1]

    def setdefault(self, k, default=None):
        s = self._t.find(k)
        if s is None:
            self._t.add(k, default)
            return default
        return self._t.items[s][1]

    def pop(self, k, default=MISSING):
        s = self._t.find(k)
        if s is None:
            if default is MISSING:
                raise KeyError(k)
            return default
        return self._t.remove(s)[1]

    def popitem(self):
        if not self._t.items:
            raise KeyError("popitem(): dictionary is empty")
        s = next(reversed(self._t.items))
        return self._t.remove(s)

    def clear(self):
        self._t = Table()

    def update(self, *args, **kwargs):
        if args:
            o = args[0]
            if isinstance(o, dict) or hasattr(o, 'keys'):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def keys(self):
        return KeysView(self)

    def values(self):
        return ValuesView(self)

    def items(self):
        return ItemsView(self)

    def copy(self):
        r = self._empty()
        for k, v in self._t.items.values():
            r._t.add(k, v)
        return r

    def _empty(self):
        return SDict()

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = self._empty()
        memo[id(self)] = r
        for k, v in self._t.items.values():
            r._t.add(copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return r

    def __reduce_ex__(self, proto):
        return (SDict, (list(self.items()),))

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        cs = []
        for k, v in self._t.items.values():
            if isinstance(o, SDict):
                s = o._t.find(k)
                if s is None:
                    return False
                cs.append(symeq(v, o._t.items[s][1]))
            else:
                if k not in o:
                    return False
                cs.append(symeq(v, o[k]))
        return And(*cs)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = None

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{' + ', '.join(f"{k!r}: {v!r}" for k, v in self._t.items.values()) + '}'


class SDefaultDict(SDict):
    def __init__(self, factory=None, *args, **kwargs):
        self.default_factory = factory
        super().__init__(*args, **kwargs)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        from . import ops
        v = ops.call(self.default_factory)
        self._t.add(k, v)
        return v

    def _empty(self):
        return SDefaultDict(self.default_factory)


class SOrderedDict(SDict):
    def move_to_end(self, k, last=True):
        s = self._t.find(k)
        if s is None:
            raise KeyError(k)
        k, v = self._t.remove(s)
        if last:
            self._t.add(k, v)
        else:
            items = [list(e) for e in self._t.items.values()]
            self._t = Table()
            self._t.add(k, v)
            for k, v in items:
                self._t.add(k, v)

    def popitem(self, last=True):
        if not self._t.items:
            raise KeyError("dictionary is empty")
        s = next(reversed(self._t.items)) if last else next(iter(self._t.items))
        return self._t.remove(s)

    def _empty(self):
        return SOrderedDict()


class SCounter(SDict):
    def __init__(self, it=None, **kwargs):
        super().__init__()
        self.update(it, **kwargs)

    def __missing__(self, k):
        return 0

    def update(self, it=None, **kwargs):
        if it is not None:
            if isinstance(it, dict):
                for k, v in it.items():
                    self[k] = self[k] + v
            else:
                for k in it:
                    self[k] = self[k] + 1
        for k, v in kwargs.items():
            self[k] = self[k] + v

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda e: e[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, n in self.items():
            for _ in range(n):
                yield k

    def _empty(self):
        return SCounter()


class KeysView:
    """dict.keys()"""
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __reversed__(self):
        return reversed(self.d)

    def __and__(self, o):
        return SSet(self) & o

    def __rand__(self, o):
        return SSet(o) & self

    def __or__(self, o):
        return SSet(self) | o
    __ror__ = __or__

    def __sub__(self, o):
        return SSet(self) - o

    def __rsub__(self, o):
        return SSet(o) - self

    def __xor__(self, o):
        return SSet(self) ^ o

    def __eq__(self, o):
        return SSet(self) == SSet(o)

    def __le__(self, o):
        return SSet(self) <= SSet(o)

    def __ge__(self, o):
        return SSet(self) >= SSet(o)

    def isdisjoint(self, o):
        return SSet(self).isdisjoint(o)

    __hash__ = None

    def __repr__(self):
        return f"dict_keys({list(self)!r})"


class ItemsView(KeysView):
    def __iter__(self):
        d = self.d
        n = len(d)
        for e in list(d._t.items.values()):
            if len(d) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield (e[0], e[1])

    def __contains__(self, kv):
        k, v = kv
        s = self.d._t.find(k)
        return s is not None and bool(symeq(self.d._t.items[s][1], v))

    def __reversed__(self):
        return iter([(e[0], e[1]) for e in reversed(list(self.d._t.items.values()))])


class ValuesView:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        d = self.d
        n = len(d)
        for e in list(d._t.items.values()):
            if len(d) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield e[1]

    def __len__(self):
        return len(self.d)

    def __reversed__(self):
        return iter([e[1] for e in reversed(list(self.d._t.items.values()))])

    def __contains__(self, v):
        return any(symeq(v, x) for x in self)


class _SetOps:
    """Operations shared by sets and frozensets; elements are Table keys"""

    def _fill(self, it):
        self._t = Table()
        for x in it:
            self._add(x)

    def _add(self, x):
        if self._t.find(x) is None:
            self._t.add(x, None)

    def __contains__(self, x):
        return self._t.find(x) is not None

    def __len__(self):
        return len(self._t.items)

    def __bool__(self):
        return bool(self._t.items)

    def __iter__(self):
        n = len(self._t.items)
        es = [e[0] for e in self._t.items.values()]
        # the iteration order of a set is not specified; plain strings are
        # visited in a deterministic order here, insertion order otherwise
        for e in es:
            if len(self._t.items) != n:
                raise RuntimeError("Set changed size during iteration")
            yield e

    def _make(self, it):
        return SSet(it) if isinstance(self, SSet) else SFrozenSet(it)

    def copy(self):
        r = self._make(())
        for k, _ in self._t.items.values():
            r._t.add(k, None)
        return r
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return self._make([copy.deepcopy(x, memo) for x in self])

    def __reduce_ex__(self, proto):
        return (type(self), (list(self),))

    @staticmethod
    def _other(o):
        return isinstance(o, (set, frozenset, KeysView)) or type(o) in (type({}.keys()), type({}.items()))

    @staticmethod
    def _set(o):
        return o if isinstance(o, (SSet, SFrozenSet, set, frozenset)) else SSet(o)

    def union(self, *os):
        r = self.copy()
        for o in os:
            for x in o:
                r._add(x)
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            o = SSet(o)
            r = self._make([x for x in r if x in o])
        return r.copy() if r is self else r

    def difference(self, *os):
        r = self
        for o in os:
            o = SSet(o)
            r = self._make([x for x in r if x not in o])
        return r.copy() if r is self else r

    def symmetric_difference(self, o):
        o = SSet(o)
        return self._make([x for x in self if x not in o] + [x for x in o if x not in self])

    def __or__(self, o):
        return self.union(o) if self._other(o) else NotImplemented

    def __ror__(self, o):
        return SSet(o).union(self) if self._other(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._other(o) else NotImplemented

    def __rand__(self, o):
        return SSet(o).intersection(self) if self._other(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._other(o) else NotImplemented

    def __rsub__(self, o):
        return SSet(o).difference(self) if self._other(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._other(o) else NotImplemented

    def __rxor__(self, o):
        return SSet(o).symmetric_difference(self) if self._other(o) else NotImplemented

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if not self._other(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o) if self._other(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._other(o) else NotImplemented

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __repr__(self):
        return '{' + ', '.join(repr(x) for x in self) + '}'


class SSet(_SetOps, set):
    def __init__(self, it=()):
        set.__init__(self)
        self._fill(it)

    def add(self, x):
        self._add(x)

    def remove(self, x):
        s = self._t.find(x)
        if s is None:
            raise KeyError(x)
        self._t.remove(s)

    def discard(self, x):
        s = self._t.find(x)
        if s is not None:
            self._t.remove(s)

    def pop(self):
        if not self._t.items:
            raise KeyError("pop from an empty set")
        return self._t.remove(next(iter(self._t.items)))[0]

    def clear(self):
        self._t = Table()

    def update(self, *os):
        for o in os:
            for x in list(o):
                self._add(x)

    def difference_update(self, *os):
        self._t = self.difference(*os)._t

    def intersection_update(self, *os):
        self._t = self.intersection(*os)._t

    def symmetric_difference_update(self, o):
        self._t = self.symmetric_difference(o)._t

    def __ior__(self, o):
        if not self._other(o):
            return NotImplemented
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    __hash__ = None


class SFrozenSet(_SetOps, frozenset):
    def __new__(cls, it=()):
        r = frozenset.__new__(cls)
        r._fill(it)
        return r

    def __init__(self, it=()):
        pass

    def __hash__(self):
        return hash(frozenset(concrete_key(x) for x in self))


def concrete_key(x):
    if isinstance(x, SymSeq):
        return x.concrete()
    if isinstance(x, SymInt):
        return concrete_int(x)
    return x
