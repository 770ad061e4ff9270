"""Models of library modules used by the code under test.

Each model states the contract which the checks assume of the library.
"""

import base64 as _base64
import collections as _collections
import copy as _copy
import hashlib as _hashlib
import io as _io
import json as _json
import logging as _logging
import pathlib as _pathlib
import struct as _struct
import types
import zlib as _zlib

from .engine import Engine
from .values import *
from .values import Sym, SymSeq
from .containers import *
from .containers import SDict, SSet, SDefaultDict, SOrderedDict, SCounter
from . import ops, fs as fsmod


class Mod(types.SimpleNamespace):
    """A module-like object"""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f"{name} is not modelled")


# ---------------------------------------------------------------- struct

_SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'e': 2, 'f': 4, 'd': 8}
_NSIZES = dict(_SIZES, l=8, L=8, n=8, N=8, P=8)


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    order, native = '<', True
    if fmt[:1] in ('<', '>', '!', '=', '@'):
        native = fmt[0] == '@'
        order = '>' if fmt[0] in '>!' else '<'
        fmt = fmt[1:]
    items = []
    pos = 0
    i = 0
    while i < len(fmt):
        if fmt[i].isspace():
            i += 1
            continue
        j = i
        while j < len(fmt) and fmt[j].isdigit():
            j += 1
        n = int(fmt[i:j]) if j > i else 1
        if j >= len(fmt):
            raise _struct.error("repeat count given without format specifier")
        t = fmt[j]
        i = j + 1
        if t in 'sp':
            items.append((pos, t, n))
            pos += n
            continue
        sizes = _NSIZES if native else _SIZES
        if t not in sizes:
            raise _struct.error("bad char in struct format")
        sz = sizes[t]
        if native and pos % sz:
            pos += sz - pos % sz
        for _ in range(n):
            if t != 'x':
                items.append((pos, t, sz))
            pos += sz
    return order, items, pos


class StructModule:
    error = _struct.error

    @staticmethod
    def calcsize(fmt):
        if isinstance(fmt, SymStr):
            fmt = fmt.concrete()
        return _struct.calcsize(fmt)

    @classmethod
    def unpack(cls, fmt, data):
        if isinstance(fmt, SymStr):
            fmt = fmt.concrete()
        if not isinstance(data, Sym):
            return _struct.unpack(fmt, data)
        size = _struct.calcsize(fmt)
        if isinstance(data, SymByteArray):
            data = as_seq(data.frozen())
        if isinstance(data, Rope):
            if not (data.length() == size):
                raise _struct.error(f"unpack requires a buffer of {size} bytes")
            if size > 1 << 20:
                raise Unsupported('struct of a large size')
            el = [data[i] for i in range(size)]
        else:
            el = data.el
            if len(el) != size:
                raise _struct.error(f"unpack requires a buffer of {size} bytes")
        order, items, _ = _parse_fmt(fmt)
        out = []
        for pos, t, sz in items:
            b = el[pos:pos + sz]
            if t == 's':
                out.append(mkbytes(b))
            elif t == 'c':
                out.append(mkbytes(b))
            elif t == 'p':
                raise Unsupported('struct p')
            elif t == '?':
                out.append(mkbool(b[0] != 0))
            elif all(isinstance(x, int) for x in b):
                out.append(_struct.unpack(order + {'n': 'q', 'N': 'Q', 'P': 'Q'}.get(t, t if sz != 8 else {'l': 'q', 'L': 'Q'}.get(t, t)), bytes(b))[0])
            else:
                if order == '<':
                    b = b[::-1]
                v = z3.Concat(*[ubv(x, 8) for x in b]) if sz > 1 else ubv(b[0], 8)
                if t in 'efd':
                    out.append(SymFloat(SymInt.from_ubv(v), sz))
                elif t in 'bhilqn':
                    out.append(SymInt.from_sbv(v))
                else:
                    out.append(SymInt.from_ubv(v))
        return tuple(out)

    @classmethod
    def unpack_from(cls, fmt, data, offset=0):
        if not ops.any_sym((data, offset)):
            return _struct.unpack_from(fmt, data, offset)
        n = cls.calcsize(fmt)
        return cls.unpack(fmt, ops.getitem(data, slice(offset, offset + n)))

    @classmethod
    def iter_unpack(cls, fmt, data):
        n = cls.calcsize(fmt)
        total = fsmod.blen(data)
        if n == 0 or not (total % n == 0):
            raise _struct.error(f"iterative unpacking requires a buffer of a multiple of {n} bytes")

        def gen():
            i = 0
            while i < total:
                yield cls.unpack(fmt, ops.getitem(data, slice(i, i + n)))
                i += n
        return gen()

    @classmethod
    def pack(cls, fmt, *args):
        if isinstance(fmt, SymStr):
            fmt = fmt.concrete()
        if not ops.any_sym(args):
            return _struct.pack(fmt, *args)
        order, items, size = _parse_fmt(fmt)
        if len(items) != len(args):
            raise _struct.error(f"pack expected {len(items)} items for packing (got {len(args)})")
        out = [0] * size
        for (pos, t, sz), v in zip(items, args):
            if t in 'sc':
                el = list(elements(v))[:sz]
                out[pos:pos + len(el)] = el
                continue
            if t == '?':
                out[pos] = ite(mkbool(v != 0) if not isinstance(v, SymBool) else v, 1, 0)
                continue
            if t in 'efd':
                if isinstance(v, SymFloat):
                    if v.size == sz:
                        bits = v.bits
                        el = [(bits >> (8 * i)) & 255 for i in range(sz)]
                    else:
                        el = list(_struct.pack('<' + t, v.concrete()))
                else:
                    el = list(_struct.pack('<' + t, ops.concretise(v)))
            else:
                v = toint(v)
                if v is None:
                    raise _struct.error("required argument is not an integer")
                lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if t in 'bhilqn' else (0, (1 << (8 * sz)) - 1)
                if not And(v >= lo, v <= hi):
                    raise _struct.error(f"'{t}' format requires {lo} <= number <= {hi}")
                el = [(v >> (8 * i)) & 255 for i in range(sz)]
            out[pos:pos + sz] = el if order == '<' else el[::-1]
        return mkbytes(out)

    @classmethod
    def pack_into(cls, fmt, buf, offset, *args):
        b = cls.pack(fmt, *args)
        buf[offset:offset + len(b)] = b

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def unpack(self, data):
            return StructModule.unpack(self.format, data)

        def unpack_from(self, data, offset=0):
            return StructModule.unpack_from(self.format, data, offset)

        def iter_unpack(self, data):
            return StructModule.iter_unpack(self.format, data)

        def pack(self, *args):
            return StructModule.pack(self.format, *args)


# ---------------------------------------------------------------- json

def to_sdict(x):
    if isinstance(x, dict):
        return SDict((k, to_sdict(v)) for k, v in x.items())
    if isinstance(x, list):
        return [to_sdict(v) for v in x]
    return x


def json_normal(x, sort_keys=False, default=None):
    """The value which parsing the serialisation of x gives back; None stays None"""
    if isinstance(x, dict):
        items = [(json_key(k), json_normal(v, sort_keys, default)) for k, v in x.items()]
        if sort_keys:
            items.sort(key=lambda kv: kv[0])
        return SDict(items)
    if isinstance(x, (list, tuple)):
        return [json_normal(v, sort_keys, default) for v in x]
    if x is None or isinstance(x, (str, int, float, bool, SymInt, SymBool, SymStr, SymFloat)):
        return x
    if default is not None:
        return json_normal(ops.call(default, x), sort_keys, default)
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def json_key(k):
    if isinstance(k, (str, SymStr)):
        return k
    if isinstance(k, bool):
        return 'true' if k else 'false'
    if k is None:
        return 'null'
    if isinstance(k, (int, SymInt)):
        return ops.format_int(k, '') if isinstance(k, SymInt) else str(k)
    if isinstance(k, float):
        return repr(k)
    raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")


def _pure(x):
    if isinstance(x, Sym):
        return False
    if isinstance(x, dict):
        return all(_pure(k) and _pure(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(_pure(v) for v in x)
    return True


def _plain_json(x):
    if isinstance(x, dict):
        return {k: _plain_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain_json(v) for v in x]
    return x


class JsonModule:
    """json: text holding symbolic parts is kept as one opaque fragment"""
    JSONDecodeError = _json.JSONDecodeError
    JSONEncoder = _json.JSONEncoder
    JSONDecoder = _json.JSONDecoder

    def __init__(self, world=None):
        self.decode_hook = None

    def dumps(self, obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None,
              separators=None, default=None, sort_keys=False, **kw):
        if _pure(obj):
            return _json.dumps(_plain_json(obj), ensure_ascii=ensure_ascii, indent=indent, separators=separators,
                               default=(lambda o: ops.call(default, o)) if default else None, sort_keys=sort_keys, cls=cls)
        return mkstr([Opaque('json', json_normal(obj, sort_keys, default))])

    def dump(self, obj, fp, **kw):
        fp.write(self.dumps(obj, **kw))

    def loads(self, s, **kw):
        if isinstance(s, SymByteArray):
            s = s.frozen()
        if isinstance(s, (SymStr, SymBytes)):
            el = s.el
            if len(el) == 1 and isinstance(el[0], Opaque) and el[0].tag == 'json':
                return _copy.deepcopy(el[0].payload)
            if self.decode_hook is not None:
                return self.decode_hook(s)
        if isinstance(s, Sym):
            if self.decode_hook is not None:
                return self.decode_hook(s)
            if isinstance(s, (SymStr, SymBytes)) and not any(isinstance(c, Opaque) for c in s.el):
                return self._parse(s)
            mark_incomplete('json.loads')
            s = s.concrete()
        return to_sdict(_json.loads(s))

    def _parse(self, s):
        """Text whose unknown characters are within strings"""
        out, syms, quoted, escaped = '', {}, False, False
        for c in s.el:
            if isinstance(c, SymInt):
                if not quoted or escaped or Or(c < 32, c == 34, c == 92, c > 126):
                    c = concrete_int(c)
                else:
                    p = chr(0xF0000 + len(syms))
                    syms[p] = c
                    out += p
                    continue
            out += chr(c)
            if quoted and not escaped and c == 92:
                escaped = True
                continue
            if c == 34 and not escaped:
                quoted = not quoted
            escaped = False
        if isinstance(s, SymBytes):
            out = ''.join(c if c in syms else c.encode('latin-1').decode('latin-1') for c in out)
            if any(128 <= ord(c) < 0xF0000 for c in out):
                mark_incomplete('json.loads')
                return to_sdict(_json.loads(s.concrete()))
        r = _json.loads(out)

        def text(x):
            return mkstr([syms.get(c, ord(c)) for c in x]) if any(c in syms for c in x) else x

        def walk(x):
            if isinstance(x, str):
                return text(x)
            if isinstance(x, list):
                return [walk(y) for y in x]
            if isinstance(x, dict):
                d = SDict()
                for k, v in x.items():
                    d[text(k)] = walk(v)
                return d
            return x
        return walk(r)

    def load(self, fp, **kw):
        return self.loads(fp.read(), **kw)


# ---------------------------------------------------------------- misc modules

class NullLogger:
    """Only the number of warnings and errors is kept: log messages are not part of any property"""
    level = 0
    name = 'cdtb'
    handlers = []
    propagate = True

    def _no(self, *args, **kw):
        pass

    def __init__(self):
        self.reports = 0

    def _report(self, *args, **kw):
        self.reports += 1
    debug = info = _no
    warning = error = exception = critical = warn = _report

    def log(self, level, *args, **kw):
        if isinstance(level, int) and level >= 30:
            self.reports += 1
    setLevel = addHandler = removeHandler = addFilter = _no

    def isEnabledFor(self, level):
        return False

    def getChild(self, name):
        return self

    def getEffectiveLevel(self):
        return 50

    def hasHandlers(self):
        return False


def logging_module():
    log = NullLogger()
    m = Mod()
    for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET', 'WARN', 'FATAL'):
        setattr(m, n, getattr(_logging, n))
    m.getLogger = lambda *a: log
    m.Logger = NullLogger
    m.StreamHandler = m.Formatter = m.NullHandler = m.FileHandler = lambda *a, **k: NullLogger()
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log'):
        setattr(m, n, getattr(log, n))
    for n in ('basicConfig', 'captureWarnings', 'disable'):
        setattr(m, n, log._no)
    m.the_logger = log
    m.getLevelName = _logging.getLevelName
    return m


def argparse_module(env):
    import argparse
    m = Mod(**{k: getattr(argparse, k) for k in dir(argparse) if not k.startswith('__')})

    class ArgumentParser(argparse.ArgumentParser):
        def _print_message(self, message, file=None):
            env.usage.append(message)
    m.ArgumentParser = ArgumentParser
    return m


def collections_module():
    m = Mod(**{n: getattr(_collections, n) for n in ('namedtuple', 'deque', 'ChainMap', 'UserDict', 'UserList', 'UserString', 'abc')})
    m.defaultdict = SDefaultDict
    m.OrderedDict = SOrderedDict
    m.Counter = SCounter
    return m


def base64_module():
    def wrap(name):
        f = getattr(_base64, name)

        def g(data, *args, **kw):
            if isinstance(data, Rope):
                data = data.vector()
            if isinstance(data, SymByteArray):
                data = data.frozen()
            if isinstance(data, SymBytes) and name in ('b64encode', 'standard_b64encode'):
                return mkbytes(b64(data.el))
            if isinstance(data, (SymBytes, SymStr)) and name == 'b64decode':
                raise Unsupported('b64decode')
            if name in ('b16encode',) and isinstance(data, SymBytes):
                return data.hex().upper().encode('ascii')
            return f(data, *args, **kw)
        return g
    return Mod(**{n: wrap(n) for n in ('b64encode', 'b64decode', 'standard_b64encode', 'standard_b64decode', 'urlsafe_b64encode', 'b16encode', 'b16decode', 'b32encode')})


def b64(el):
    def ch(v):
        if isinstance(v, int):
            return ord('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'[v])
        e = sext(v.e, 9)
        return SymInt(z3.If(e < 26, e + 65, z3.If(e < 52, e + 71, z3.If(e < 62, e - 4, z3.If(e == 62, z3.BitVecVal(43, 9), z3.BitVecVal(47, 9))))), 43, 122)
    out = []
    for i in range(0, len(el), 3):
        g = list(el[i:i + 3])
        n = len(g)
        g += [0] * (3 - n)
        a, b, c = g
        q = [a >> 2, ((a & 3) << 4) | (b >> 4), ((b & 15) << 2) | (c >> 6), c & 63]
        q = [ch(v) for v in q]
        if n == 1:
            q[2:] = [61, 61]
        elif n == 2:
            q[3] = 61
        out += q
    return out


class Killed(BaseException):
    """Ends the other tasks of a pool when one of them ends the run"""


class Tasks:
    """Runs tasks with a choice of schedule

    `pool_switches` in env.libs is the number of preemptions, which may happen at every file system change, opened file or
    request; without it tasks run one after another, in order.  All tasks are run, even if some fail.
    """

    def __init__(self, env, workers):
        self.env = env
        self.workers = workers or 8
        self.left = env.libs.get('pool_switches', 0)

    def run(self, tasks):
        """Returns (result, exception) pairs, and the first failure"""
        env = self.env
        if not env.libs.get('pool_switches') or env.tasks is not None or len(tasks) < 2:
            out, first = [], None
            for t in tasks:
                try:
                    out.append((t(), None))
                except Exception as e:
                    out.append((None, e))
                    first = first or e
            return out, first
        import threading
        n = len(tasks)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.live = []
        self.waiting = list(range(n))
        self.out = [None] * n
        self.first = None
        self.fatal = None
        self.dead = False
        threads = []

        def body(i):
            self.sem[i].acquire()
            try:
                if not self.dead:
                    self.out[i] = (tasks[i](), None)
            except Killed:
                pass
            except Exception as e:
                self.out[i] = (None, e)
                self.first = self.first or e
            except BaseException as e:
                if self.fatal is None:
                    self.fatal = e
            self.live.remove(i)
            if not self.dead and self.fatal is None:
                self.fill()
                if self.live:
                    try:
                        self.current = self.pick(self.live)
                    except BaseException as e:
                        self.fatal = e
                    else:
                        self.sem[self.current].release()
                        return
            self.main.release()
        env.tasks = self
        try:
            for i in range(n):
                t = threading.Thread(target=body, args=(i,), daemon=True)
                t.start()
                threads.append(t)
            self.fill()
            self.current = self.pick(self.live)
            self.sem[self.current].release()
            self.main.acquire()
            self.dead = True
            for i in list(self.live) + self.waiting:
                if i in self.waiting:
                    self.live.append(i)
                self.sem[i].release()
                threads[i].join(10)
        finally:
            env.tasks = None
        if self.fatal is not None:
            raise self.fatal
        return self.out, self.first

    def fill(self):
        while self.waiting and len(self.live) < self.workers:
            self.live.append(self.waiting.pop(0))

    def pick(self, options):
        options = list(options)
        return options[0] if len(options) == 1 else self.env.choose('schedule', options)

    def point(self):
        """A place where another task may run"""
        me = self.current
        if self.dead:
            raise Killed()
        others = [i for i in self.live if i != me]
        if not others or self.left <= 0:
            return
        nxt = self.pick([me] + others)
        if nxt != me:
            self.left -= 1
            self.current = nxt
            self.sem[nxt].release()
            self.sem[me].acquire()
            if self.dead:
                raise Killed()


def thread_pool(env):
    class FakeThreadPool:
        """Runs all tasks; the first exception is raised to the caller"""

        def __init__(self, processes=None, *args, **kw):
            self.processes = processes

        def _map(self, f, it, chunksize, star=False):
            items = list(it)
            c = chunksize or 1
            chunks = [items[i:i + c] for i in range(0, len(items), c)]

            def task(chunk):
                return lambda: [ops.call(f, *x) if star else ops.call(f, x) for x in chunk]
            out, first = Tasks(env, self.processes).run([task(x) for x in chunks])
            return out, first

        def map(self, f, it, chunksize=None):
            out, first = self._map(f, it, chunksize)
            if first is not None:
                raise first
            return [x for r, _ in out for x in r]

        def starmap(self, f, it, chunksize=None):
            out, first = self._map(f, it, chunksize, True)
            if first is not None:
                raise first
            return [x for r, _ in out for x in r]

        def imap(self, f, it, chunksize=1):
            out, first = self._map(f, it, 1)
            return self._iter(out)
        imap_unordered = imap

        @staticmethod
        def _iter(out):
            for r, e in out:
                if e is not None:
                    raise e
                yield r[0]

        def apply(self, f, args=(), kw={}):
            return ops.call(f, *args, **kw)

        def apply_async(self, f, args=(), kw={}, callback=None, error_callback=None):
            return AsyncResult(lambda: ops.call(f, *args, **kw), callback, error_callback)

        def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
            return AsyncResult(lambda: self.map(f, it, chunksize), callback, error_callback)

        def close(self):
            pass
        terminate = join = close

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            pass
    return FakeThreadPool


class AsyncResult:
    def __init__(self, f, callback=None, error_callback=None):
        try:
            self.v, self.e = f(), None
            if callback:
                callback(self.v)
        except Exception as e:
            self.v, self.e = None, e
            if error_callback:
                error_callback(e)

    def get(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.v
    result = get

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True
    done = ready

    def successful(self):
        return self.e is None

    def exception(self, timeout=None):
        return self.e


def executor(env):
    pool = thread_pool(env)

    class Executor:
        """concurrent.futures"""

        def __init__(self, max_workers=None, *args, **kw):
            self.pool = pool(max_workers)

        def submit(self, f, *args, **kw):
            return AsyncResult(lambda: ops.call(f, *args, **kw))

        def map(self, f, *its, timeout=None, chunksize=1):
            out, first = self.pool._map(f, zip(*its), 1, True)
            return self.pool._iter(out)

        def shutdown(self, wait=True, cancel_futures=False):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            pass
    return Executor


# ---------------------------------------------------------------- requests

class RequestException(OSError):
    def __init__(self, *args, response=None, request=None):
        super().__init__(*args)
        self.response = response
        self.request = request


class HTTPError(RequestException):
    pass


class ReqConnectionError(RequestException):
    pass


class ReqTimeout(RequestException):
    pass


class ChunkedEncodingError(RequestException):
    pass


@modelled(['apparent_encoding', 'cookies', 'elapsed', 'history', 'is_redirect', 'is_permanent_redirect', 'links', 'next', 'request'])
class Response:
    def __init__(self, env, url, status, content, headers=None, json=None, chunks=None):
        self._env = env
        self.url = url
        self.status_code = status
        self._content = content
        self.headers = headers if headers is not None else SDict() if env.symbolic else {}
        self._json = json
        self._chunks = chunks
        self.encoding = 'utf-8'
        self.reason = 'reason'
        self.raw = None

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(f"{self.status_code} error", response=self)

    @property
    def content(self):
        c = self._content
        if callable(c):
            c = c()
        return c

    @property
    def text(self):
        c = self.content
        if isinstance(c, (str, SymStr)):
            return c
        return c.decode(self.encoding or 'utf-8', 'replace')

    def json(self, **kw):
        if self._json is not None:
            return _copy.deepcopy(to_sdict(self._json) if self._env.symbolic else self._json)
        return self._env.json.loads(self.text)

    def iter_content(self, chunk_size=1, decode_unicode=False):
        if self._chunks is not None:
            yield from self._chunks(chunk_size)
            return
        data = self.content
        i = 0
        n = fsmod.blen(data)
        while i < n:
            j = i + chunk_size
            if j > n:
                j = n
            yield ops.getitem(data, slice(i, j))
            i = j

    def iter_lines(self, *args, **kw):
        yield from self.content.split(b'\n')

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def __bool__(self):
        return bool(self.ok)


@modelled(['put', 'patch', 'delete', 'options', 'send', 'prepare_request', 'cookies', 'hooks', 'adapters', 'get_adapter', 'stream', 'cert', 'max_redirects', 'trust_env', 'merge_environment_settings'])
class FakeSession:
    def __init__(self, env):
        self._env = env
        self.headers = SDict() if env.symbolic else {}
        self.verify = True
        self.auth = None
        self.params = {}
        self.proxies = {}

    def request(self, method, url, **kw):
        return self._env.http(method, url, kw)

    def get(self, url, params=None, **kw):
        if params:
            kw['params'] = params
        return self._env.http('GET', url, kw)

    def head(self, url, **kw):
        return self._env.http('HEAD', url, kw)

    def post(self, url, data=None, **kw):
        return self._env.http('POST', url, kw)

    def mount(self, *args):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def requests_module(env):
    m = Mod()
    m.Session = m.session = lambda: FakeSession(env)
    m.Response = Response
    for n in ('get', 'head', 'post', 'request'):
        setattr(m, n, (lambda n: lambda *a, **k: getattr(FakeSession(env), n)(*a, **k))(n))
    m.exceptions = Mod(HTTPError=HTTPError, RequestException=RequestException, ConnectionError=ReqConnectionError, Timeout=ReqTimeout,
                       ChunkedEncodingError=ChunkedEncodingError, SSLError=ReqConnectionError, ReadTimeout=ReqTimeout, ConnectTimeout=ReqTimeout)
    m.HTTPError = HTTPError
    m.RequestException = RequestException
    m.ConnectionError = ReqConnectionError
    m.Timeout = ReqTimeout
    m.adapters = Mod(HTTPAdapter=lambda *a, **k: None)
    return m


# ---------------------------------------------------------------- pathlib

def pathlib_module(env):
    """Model of pathlib: POSIX paths on the modelled file system"""
    fos = env.os

    def parse(p):
        """(root, parts) of a path"""
        if isinstance(p, Path):
            return p._root, list(p._parts)
        p = fos.fspath(p)
        if isinstance(p, (bytes, SymBytes)):
            raise TypeError('argument should be a str or an os.PathLike object')
        root = ''
        if p.startswith('/'):
            root = '//' if p.startswith('//') and not p.startswith('///') else '/'
        return root, [x for x in p.split('/') if len(x) and x != '.']

    @modelled(_pathlib.Path)
    class Path:
        def __init__(self, *args):
            self._root, self._parts = '', []
            for a in args:
                root, parts = parse(a)
                if root:
                    self._root, self._parts = root, parts
                else:
                    self._parts = self._parts + parts

        @classmethod
        def _of(cls, root, parts):
            p = cls()
            p._root, p._parts = root, list(parts)
            return p

        @classmethod
        def home(cls):
            return cls(fos.environ.get('HOME') or '/root')

        @classmethod
        def cwd(cls):
            return cls(fos.getcwd())

        def __truediv__(self, o):
            return Path(self, o)

        def __rtruediv__(self, o):
            return Path(o, self)

        def joinpath(self, *args):
            return Path(self, *args)

        def __fspath__(self):
            out = self._root
            for i, p in enumerate(self._parts):
                out = out + ('/' if i else '') + p
            return out if len(out) else '.'

        __str__ = __fspath__

        as_posix = __fspath__

        def __repr__(self):
            return f'PosixPath({self.__fspath__()!r})'

        def __format__(self, spec):
            return ops.sxformat(self.__fspath__(), spec)

        def __eq__(self, o):
            if not isinstance(o, Path):
                return NotImplemented
            a, b = self.__fspath__(), o.__fspath__()
            return len(a) == len(b) and a == b

        def __lt__(self, o):
            return self._parts < o._parts

        def __hash__(self):
            return hash(self.__fspath__())

        def is_absolute(self):
            return bool(self._root)

        @property
        def parts(self):
            return tuple(([self._root] if self._root else []) + self._parts)

        @property
        def name(self):
            return self._parts[-1] if self._parts else ''

        @property
        def suffix(self):
            name = self.name
            i = name.rfind('.')
            return name[i:] if 0 < i < len(name) - 1 else ''

        @property
        def suffixes(self):
            name = self.name
            if name.endswith('.'):
                return []
            return ['.' + x for x in name.lstrip('.').split('.')[1:]]

        @property
        def stem(self):
            return self.name[:len(self.name) - len(self.suffix)]

        @property
        def parent(self):
            return Path._of(self._root, self._parts[:-1])

        @property
        def parents(self):
            return [Path._of(self._root, self._parts[:i]) for i in range(len(self._parts) - 1, -1, -1)]

        def with_name(self, name):
            return Path._of(self._root, self._parts[:-1] + [name])

        def with_suffix(self, suffix):
            return self.with_name(self.stem + suffix)

        def stat(self, *, follow_symlinks=True):
            return fos.stat(self.__fspath__(), follow_symlinks=follow_symlinks)

        def lstat(self):
            return self.stat(follow_symlinks=False)

        def exists(self):
            return fos.path.exists(self.__fspath__())

        def is_file(self):
            return fos.path.isfile(self.__fspath__())

        def is_dir(self):
            return fos.path.isdir(self.__fspath__())

        def is_symlink(self):
            return fos.path.islink(self.__fspath__())

        def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
            return env._open(self.__fspath__(), mode, encoding=encoding, errors=errors, newline=newline)

        def read_bytes(self):
            with self.open('rb') as f:
                return f.read()

        def read_text(self, encoding=None, errors=None):
            with self.open('r', encoding=encoding, errors=errors) as f:
                return f.read()

        def write_bytes(self, data):
            with self.open('wb') as f:
                return f.write(data)

        def write_text(self, data, encoding=None, errors=None, newline=None):
            with self.open('w', encoding=encoding, errors=errors, newline=newline) as f:
                return f.write(data)

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            p = self.__fspath__()
            if parents:
                fos.makedirs(p, exist_ok=exist_ok)
            elif not (exist_ok and self.is_dir()):
                fos.mkdir(p)

        def unlink(self, missing_ok=False):
            try:
                fos.remove(self.__fspath__())
            except FileNotFoundError:
                if not missing_ok:
                    raise

        def rename(self, target):
            fos.rename(self.__fspath__(), fos.fspath(target))
            return Path(target)

        def replace(self, target):
            fos.replace(self.__fspath__(), fos.fspath(target))
            return Path(target)

        def symlink_to(self, target, target_is_directory=False):
            fos.symlink(fos.fspath(target), self.__fspath__())

        def readlink(self):
            return Path(fos.readlink(self.__fspath__()))

        def rmdir(self):
            fos.rmdir(self.__fspath__())

        def touch(self, mode=0o666, exist_ok=True):
            if exist_ok and self.exists():
                return
            with self.open('wb' if exist_ok else 'xb'):
                pass

        def samefile(self, other):
            return fos.path.samefile(self.__fspath__(), fos.fspath(other))

        def is_relative_to(self, *others):
            o = Path(*others)
            n = len(o._parts)
            return self._root == o._root and len(self._parts) >= n and bool(all(a == b for a, b in zip(self._parts, o._parts)))

        def relative_to(self, *others):
            o = Path(*others)
            if not self.is_relative_to(o):
                raise ValueError(f"{self.__fspath__()!r} is not in the subpath of {o.__fspath__()!r}")
            return Path._of('', self._parts[len(o._parts):])

        def with_stem(self, stem):
            return self.with_name(stem + self.suffix)

        @property
        def root(self):
            return self._root

        anchor = root
        drive = ''

        def __le__(self, o):
            return self._parts <= o._parts

        def __gt__(self, o):
            return self._parts > o._parts

        def __ge__(self, o):
            return self._parts >= o._parts

        def __bytes__(self):
            return self.__fspath__().encode()

        def walk(self, top_down=True, on_error=None, follow_symlinks=False):
            for base, dirs, files in fos.walk(self.__fspath__(), topdown=top_down, onerror=on_error, followlinks=follow_symlinks):
                yield Path(base), dirs, files

        def iterdir(self):
            return iter([self / n for n in fos.listdir(self.__fspath__())])

        def resolve(self, strict=False):
            return Path(fos.path.realpath(self.__fspath__()))

        def absolute(self):
            return self if self._root else Path(fos.getcwd(), self)

        def expanduser(self):
            if self._parts and not self._root and self._parts[0] == '~':
                return Path.home().joinpath(*self._parts[1:])
            return self

    return Mod(Path=Path, PurePath=Path, PosixPath=Path, PurePosixPath=Path)
