"""The environment seen by a harness: symbolic inputs and models, or their concrete counterparts."""

import hashlib
import io
import os as _os
import re as _re
import sys
import time as _time
import types

import z3

from .engine import Engine
from .values import *
from .values import Sym, SymSeq
from .containers import *
from .containers import SDict, SSet, SFrozenSet
from . import ops, libs, rx, instrument
from . import fs as fsmod
from .fs import FS, FakeOS, FakeShutil, SimCrash

# a time zone which is not UTC
_os.environ['TZ'] = 'XYZ-3'
_time.tzset()


class CheckFailed(BaseException):
    """A property check failed in a concrete run"""


class AssumeFailed(BaseException):
    """Concrete inputs violate an assumption"""


class TooBig(Exception):
    """Model values too large to run concretely"""


class Outcome:
    """Result of a call: a value or an exception"""

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    @property
    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None

    def __repr__(self):
        return f"Outcome({self.value!r})" if self.ok else f"Outcome(raised {self.exc!r})"


# ---------------------------------------------------------------- concretising under a model

PATTERN = True


def cbyte(name, i):
    return hashlib.blake2b(f"{name}:{i >> 5}".encode(), digest_size=32).digest()[i & 31]


def under(x, m):
    """Concrete value of x under a model"""
    if isinstance(x, SymInt):
        return m.eval(x.e, model_completion=True).as_signed_long()
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.c, model_completion=True))
    if isinstance(x, SymStr):
        out = []
        for c in x.el:
            if isinstance(c, Opaque):
                out.append(under_opaque(c, m))
            else:
                out.append(chr(under(c, m)))
        return ''.join(out)
    if isinstance(x, SymBytes):
        out = b''
        for c in x.el:
            if isinstance(c, Opaque):
                t = under_opaque(c, m)
                out += t.encode() if isinstance(t, str) else t
            else:
                out += bytes([under(c, m)])
        return out
    if isinstance(x, SymByteArray):
        return bytearray(under(x.frozen(), m))
    if isinstance(x, Rope):
        out = b''
        for s in x.segs:
            if isinstance(s, BSeg):
                out += under_seg(s, m)
            else:
                out += under(s, m)
        return out
    if isinstance(x, SymFloat):
        import struct
        return struct.unpack('<f' if x.size == 4 else '<d', under(x.bits, m).to_bytes(x.size, 'little'))[0]
    if isinstance(x, dict):
        return {under(k, m): under(v, m) for k, v in x.items()}
    if type(x) is tuple:
        return tuple(under(v, m) for v in x)
    if type(x) is list:
        return [under(v, m) for v in x]
    if isinstance(x, SSet):
        return {under(v, m) for v in x}
    return x


def under_opaque(c, m):
    if c.tag == 'json':
        import json
        return json.dumps(under(c.payload, m))
    if c.tag == 'float':
        return format(under(c.payload[0], m), c.payload[1])
    if c.tag == 'bytesrepr':
        return repr(under(c.payload, m))
    if c.tag == 'utf8r':
        return bytes(under(v, m) for v in c.payload).decode('utf-8', 'replace')
    return '\ufffd'


def under_seg(s, m):
    off, n = under(s.off, m), under(s.n, m)
    if n > MAXLEN:
        raise TooBig(s.buf.name)
    known = s.buf.known(m)
    return bytes(known.get(off + i, None) if off + i in known else cbyte(s.buf.name, off + i) for i in range(n))


MAXLEN = 1 << 18


class TrackedBuf(Buf):
    """Buffer which remembers which of its bytes were looked at"""
    __slots__ = ('seen', '_known')

    def __init__(self, name):
        super().__init__(name)
        self.seen = []
        self._known = None

    def at(self, i):
        b = super().at(i)
        self.seen.append((i, b))
        return b

    def known(self, m):
        if self._known is None or self._known[0] is not m:
            self._known = (m, {under(i, m): under(b, m) for i, b in self.seen})
        return self._known[1]


# ---------------------------------------------------------------- environments

class Stderr:
    def __init__(self, f):
        self.f = f

    def fileno(self):
        return 2

    def __getattr__(self, name):
        return getattr(self.f, name)


class BaseEnv:
    SimCrash = SimCrash
    symbolic = False

    def __init__(self):
        self.fs = FS()
        self.os = FakeOS(self.fs)
        self.labels = []
        self.tables = {}      # name -> [(args, result)]
        self.stdout = None
        self.http_log = []
        self.http_handler = None
        self.now = 1_700_000_000
        self.libs = {}
        self.tasks = None
        self.hash_hook = None
        self.handlers = {}    # of signals
        self.fs.point = self._point
        self.log = []
        self.usage = []       # messages of argument parsers

    # -- signals

    def _signal(self, n, handler):
        old = self.handlers.get(n, 0)
        self.handlers[n] = handler
        return old

    def interrupt(self):
        """The user interrupts the program (Ctrl-C)"""
        h = self.handlers.get(2, 0)
        if not callable(h):
            raise KeyboardInterrupt()
        h(2, None)

    # -- modules

    def _overrides(self):
        o = self._common()
        return o

    def load(self, name):
        return self.world.load(name)

    def reports(self):
        """Number of logged warnings and errors"""
        return self.world.overrides['logging'].the_logger.reports

    def _common(self):
        fs, fos = self.fs, self.os
        o = {
            'os': fos,
            'shutil': FakeShutil(fs),
            'logging': libs.logging_module(),
            'requests': libs.requests_module(self),
            'pyzstd': libs.Mod(decompress=lambda data, *a, **k: self.decompress('zstd', data), ZstdError=ZstdError,
                               compress=lambda data, *a, **k: self.compress('zstd', data)),
            'xxhash': libs.Mod(xxh64_intdigest=lambda data, seed=0: self.hashed('xxh64', data, 64),
                               xxh3_64_intdigest=lambda data, seed=0: self.hashed('xxh3_64', data, 64),
                               xxh32_intdigest=lambda data, seed=0: self.hashed('xxh32', data, 32),
                               xxh64=lambda data=b'', seed=0: XXH(self, 'xxh64', data),
                               xxh3_64=lambda data=b'', seed=0: XXH(self, 'xxh3_64', data),
                               xxh64_hexdigest=lambda data, seed=0: ops.format_int(self.hashed('xxh64', data, 64), '016x'),
                               xxh3_64_hexdigest=lambda data, seed=0: ops.format_int(self.hashed('xxh3_64', data, 64), '016x')),
            'gzip': libs.Mod(decompress=lambda data: self.decompress('gzip', data), BadGzipFile=OSError, open=self._gzip_open),
            'zlib': self.zlib_module(),
            'hashlib': libs.Mod(**{n: (lambda n: lambda data=b'', **k: HashObj(self, n, data))(n) for n in ('sha1', 'sha256', 'md5', 'sha512', 'blake2b')},
                                new=lambda n, data=b'': HashObj(self, n, data)),
            'hachoir': libs.Mod(), 'hachoir.parser': None, 'hachoir.metadata': None,
            'PIL': libs.Mod(), 'PIL.Image': None,
            'ujson': None,
            'time': libs.Mod(time=lambda: self.now, sleep=lambda s: None, monotonic=lambda: self.now, perf_counter=lambda: self.now,
                             strftime=_time.strftime, gmtime=_time.gmtime, localtime=_time.localtime, time_ns=lambda: self.now * 10**9),
            'multiprocessing': libs.Mod(), 'multiprocessing.pool': libs.Mod(ThreadPool=libs.thread_pool(self), Pool=libs.thread_pool(self)),
            'concurrent': libs.Mod(), 'concurrent.futures': libs.Mod(ThreadPoolExecutor=libs.executor(self), as_completed=lambda fs, timeout=None: iter(list(fs)),
                                                                     wait=lambda fs, **k: (set(fs), set()), Future=libs.AsyncResult),
            'signal': libs.Mod(signal=self._signal, getsignal=self.handlers.get, SIGINT=2, SIGTERM=15, SIG_IGN=1, SIG_DFL=0, Signals=int),
            'posix': None, 'nt': None, 'ntpath': None,
            'pathlib': libs.pathlib_module(self),
            'argparse': libs.argparse_module(self),
            'sys': libs.Mod(**{k: getattr(sys, k) for k in dir(sys) if not k.startswith('__')}),
        }
        o['sys'].stderr = Stderr(io.StringIO())
        o['sys'].argv = ['cdtb']
        o['hachoir.parser'] = o['hachoir'].parser = libs.Mod(createParser=lambda p: self.lib('hachoir_parser', p))
        o['hachoir.metadata'] = o['hachoir'].metadata = libs.Mod(extractMetadata=lambda parser=None, **k: self.lib('hachoir_metadata', parser))
        o['PIL.Image'] = o['PIL'].Image = libs.Mod(open=lambda f, *a, **k: self.lib('image_open', f), Image=object, UnidentifiedImageError=OSError)
        o['multiprocessing'].pool = o['multiprocessing.pool']
        o['concurrent'].futures = o['concurrent.futures']
        o['os.path'] = None
        return o

    def _finish_os(self):
        """os.path is the standard posixpath, running on the modelled os"""
        self.os.path = types.SimpleNamespace(realpath=None)
        px = self.world.load('posixpath')
        gp = self.world.load('genericpath')
        if 'os' in px.__dict__:
            px.__dict__['os'] = self.os
        gp.__dict__['os'] = self.os
        self.os.path = px
        self.world.overrides['os.path'] = px
        px.__dict__['isfile'] = lambda p: self._kind(p) == 'file'
        px.__dict__['isdir'] = lambda p: self._kind(p) == 'dir'
        px.__dict__['exists'] = lambda p: self._kind(p) is not None
        px.__dict__['lexists'] = lambda p: self._kind(p, False) is not None
        px.__dict__['islink'] = lambda p: self._kind(p, False) == 'link'

    def _kind(self, p, follow=True):
        n = self.fs.lookup(p, follow)
        return n.kind if n is not None else None

    def lib(self, name, *args):
        f = self.libs.get(name)
        if f is None:
            raise RuntimeError(f"library function {name} is not modelled in this harness")
        return ops.call(f, *args)

    def _open(self, path, mode='r', *args, **kw):
        return fsmod.open_file(self.fs, path, mode, *args, **kw)

    def _gzip_open(self, path, mode='rb', *a, **k):
        data = self.decompress('gzip', self._open(path, 'rb').read())
        f = fsmod.BytesIO(data)
        return f if 'b' in mode or mode == 'r' else fsmod.TextFile(f)

    def zlib_module(self):
        import zlib
        env = self

        class DecompressObj:
            """Streams of known contents; the output of each input comes early, late, or evenly (libs['zlib_pace'])"""

            def __init__(self, wbits=zlib.MAX_WBITS, zdict=b''):
                self.kinds = {47: ('zlib', 'gzip'), 15: ('zlib',), 0: ('zlib',), 32: ('zlib', 'gzip'), 31: ('gzip',)}.get(wbits, ())
                self.buf = b''
                self.known = None
                self.sent = 0
                self.eof = False
                self.unused_data = b''
                self.unconsumed_tail = b''

            def decompress(self, data, max_length=0):
                self.buf = env._norm(self.buf + data)
                if not isinstance(self.buf, bytes):
                    raise zlib.error('Error -3 while decompressing data: incorrect header check')
                if not self.buf:
                    return b''
                for kind in self.kinds:
                    for (token,), content in env.tables.get('un' + kind, ()):
                        if isinstance(token, bytes) and (self.buf.startswith(token) or token.startswith(self.buf)):
                            self.known = (token, content)
                            return self.output(False)
                raise zlib.error('Error -3 while decompressing data: incorrect header check')

            def output(self, flush):
                token, content = self.known
                done = min(len(self.buf), len(token))
                total = fsmod.blen(content)
                pace = env.libs.get('zlib_pace', 'even')
                n = total * done // len(token)
                if pace == 'late' and not flush:
                    n = 0
                elif pace == 'early' and done > 1:
                    n = total
                if done == len(token):
                    if pace != 'late':
                        self.eof = True
                    self.unused_data = self.buf[len(token):]
                start, self.sent = self.sent, max(n, self.sent)
                return fsmod.bslice(content, start, self.sent)

            def flush(self, *a):
                if self.known is None:
                    return b''
                self.eof = len(self.buf) >= len(self.known[0])
                return self.output(True)
        return libs.Mod(decompressobj=DecompressObj, MAX_WBITS=zlib.MAX_WBITS, error=zlib.error,
                        decompress=lambda data, *a, **k: self.decompress('zlib', data), crc32=lambda d, v=0: self.hashed('crc32', d, 32))

    def _point(self):
        if self.tasks is not None:
            self.tasks.point()

    def http(self, method, url, kw):
        self._point()
        self.http_log.append((method, url))
        if self.http_handler is None:
            raise libs.ReqConnectionError("no network")
        r = ops.call(self.http_handler, method, url, kw)
        if isinstance(r, BaseException):
            raise r
        if r is None:
            return libs.Response(self, url, 404, b'not found')
        return r

    def response(self, content=b'', status=200, json=None, headers=None, chunks=None, url=''):
        if isinstance(content, (str, SymStr)):
            content = fsmod.encode_text(content)
        return libs.Response(self, url, status, content, headers, json, chunks)

    def timeout_error(self):
        return libs.ReqTimeout("timeout")

    def connection_error(self):
        return libs.ReqConnectionError("connection error")

    # -- harness interface

    def call(self, f, *args, **kw):
        """Call, catching exceptions"""
        try:
            return Outcome(True, ops.call(f, *args, **kw) if self.symbolic else f(*args, **kw))
        except Exception as e:
            if internal_error(e):
                self.internal(e)
            return Outcome(False, None, e)

    def internal(self, e):
        pass

    def exits(self, f, *args, **kw):
        """Call which may exit: (outcome, exit status or None)"""
        try:
            return self.call(f, *args, **kw), None
        except SystemExit as e:
            return Outcome(False, None, e), e.code or 0

    def crashing(self, f, *args):
        """Call code which may be killed by a simulated crash"""
        try:
            f(*args)
            return False
        except SimCrash:
            return True

    def drain(self, it, limit=1000):
        out = []
        for x in it:
            out.append(x)
            if len(out) > limit:
                break
        return out

    def reach(self, label):
        self.labels.append(label)


REAL_ERRORS = ("expected string or bytes-like object, got 'NoneType'", 'indices must be integers', "'NoneType' object is not subscriptable", "'NoneType' object is not iterable",
               "'int' object is not subscriptable", "'float' object is not subscriptable", "'bool' object is not subscriptable",
               "argument of type 'bool' is not", "argument of type 'int' is not", "argument of type 'float' is not", "argument of type 'NoneType' is not",
               "'bool' object is not iterable", "'int' object is not iterable", "'float' object is not iterable",
               'string indices must be integers', 'list indices must be integers')


def internal_error(e):
    """Was this exception raised by a model rather than by the code under test?"""
    if not isinstance(e, (MemoryError, TypeError, AttributeError, NotImplementedError, z3.Z3Exception, RecursionError, NameError, AssertionError)):
        return False
    if isinstance(e, (z3.Z3Exception, MemoryError)):
        return True
    if getattr(e, 'genuine', False):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    f = last.tb_frame.f_code.co_filename
    text = str(e)
    if '/symx/' in f and any(p in text for p in REAL_ERRORS) and not any(n in text for n in ('Sym', 'Rope', 'SDict', 'SSet', 'Opaque', 'symx')):
        return False  # as the operation on plain values does
    if '/symx/' in f and last.tb_frame.f_code.co_name != 'call':
        return True
    return any(n in str(e) for n in ('Sym', 'Rope', 'SDict', 'SSet', 'Opaque'))


class ZstdError(Exception):
    pass


class XXH:
    def __init__(self, env, name, data):
        self.env, self.n, self.data = env, name, data if not isinstance(data, (str, SymStr)) else data.encode()

    def update(self, data):
        self.data = fsmod.bcat(self.data, data if not isinstance(data, (str, SymStr)) else data.encode())

    def intdigest(self):
        return self.env.hashed(self.n, self.data, 64)

    def hexdigest(self):
        return ops.format_int(self.intdigest(), '016x')

    def digest(self):
        return self.intdigest().to_bytes(8, 'big')


class HashObj:
    SIZES = {'sha1': 20, 'sha256': 32, 'md5': 16, 'sha512': 64, 'blake2b': 64}

    def __init__(self, env, name, data):
        self.env, self.n, self.data = env, name, data
        self.digest_size = self.SIZES[name]

    def update(self, data):
        self.data = fsmod.bcat(self.data, data)

    def digest(self):
        return self.env.digest(self.n, self.data, self.digest_size)

    def hexdigest(self):
        return self.digest().hex()


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, eng, params=None):
        super().__init__()
        self.eng = eng
        self.params = dict(params or {})
        self.names = {}
        self.json = libs.JsonModule()
        self.os.environ = SDict({'HOME': '/home/user'})
        o = self._common()
        o.update({
            'struct': libs.StructModule, 're': rx.ReModule, 'json': self.json,
            'io': libs.Mod(BytesIO=fsmod.BytesIO, StringIO=fsmod.StringIO, UnsupportedOperation=io.UnsupportedOperation, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2,
                           BufferedReader=lambda f, *a: f, TextIOWrapper=lambda f, encoding=None, errors=None, newline=None, **k: fsmod.TextFile(f, encoding, errors, newline),
                           open=self._open, DEFAULT_BUFFER_SIZE=8192, IOBase=io.IOBase, RawIOBase=io.RawIOBase, BufferedIOBase=io.BufferedIOBase),
            'collections': libs.collections_module(),
            'base64': libs.base64_module(),
        })
        self.world = instrument.World(True, o, {'open': self._open})
        self._finish_os()
        ops.Hooks.stdout = self.stdout = o['sys'].stdout = fsmod.StringIO()
        o['sys'].stderr = Stderr(fsmod.StringIO())

    # -- inputs

    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def _input(self, name, f):
        self.eng.path_inputs[name] = f

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            return lo
        w = need_bits(lo, hi)
        if lo == 0 and hi + 1 == 1 << (w - 1):
            v = SymInt.from_ubv(z3.BitVec(name, w - 1))
        else:
            v = SymInt(z3.BitVec(name, w), lo, hi)
            self.assume(And(mkbool(v.e >= lo), mkbool(v.e <= hi)))
        self._input(name, lambda m: under(v, m))
        self.eng.path_minvars.append(v)
        return v

    def uint(self, name, bits):
        return self.int(name, 0, (1 << bits) - 1)

    def bool(self, name):
        name = self._name(name)
        v = SymBool(z3.Bool(name))
        self._input(name, lambda m: under(v, m))
        return v

    def flag(self, name):
        """A Boolean decided at once"""
        return self.choose(name, (False, True))

    def bytes(self, name, n, lo=0, hi=255):
        name = self._name(name)
        el = [SymInt(z3.ZeroExt(1, z3.BitVec(f"{name}[{i}]", 8)), lo, hi) for i in range(n)]
        if (lo, hi) != (0, 255):
            for c in el:
                self.assume(And(mkbool(c.e >= lo), mkbool(c.e <= hi)))
        v = mkbytes(el)
        self._input(name, lambda m: under(v, m))
        return v

    def str(self, name, n, alphabet=None):
        """Text of n characters, printable ASCII or from an alphabet"""
        name = self._name(name)
        rs = [(32, 126)] if alphabet is None else ranges(alphabet)
        lo, hi = min(a for a, _ in rs), max(b for _, b in rs)
        bits = max(7, hi.bit_length())
        el = [SymInt(z3.ZeroExt(1, z3.BitVec(f"{name}[{i}]", bits)), lo, hi) for i in range(n)]
        for c in el:
            # lo and hi are known without asking: the constraints are on the terms
            self.assume(Or(*[And(mkbool(c.e >= a), mkbool(c.e <= b)) for a, b in rs]))
        v = mkstr(el)
        self._input(name, lambda m: under(v, m))
        return v

    def choose(self, name, options):
        name = self._name(name)
        options = list(options)
        k = self.eng.option(len(options))
        self._input(name, lambda m: k)
        return options[k]

    def buf(self, name, maxlen, minlen=0):
        """Bytes of any length in minlen..maxlen"""
        n = self.int(name + '.len', minlen, maxlen)
        name = self._name(name)
        b = TrackedBuf(name)
        r = mkrope([BSeg(b, 0, n)])
        if isinstance(n, SymInt) and minlen == 0 and not isinstance(r, Rope):
            r = Rope([BSeg(b, 0, n)])
        self._input(name, lambda m: under(r, m))
        return r

    # -- properties

    def assume(self, cond):
        if isinstance(cond, (bool, SymBool)):
            self.eng.assume(cond.c if isinstance(cond, SymBool) else cond)
        else:
            self.eng.assume(bool(cond))

    def assume_eq(self, a, b):
        self.assume(deep_eq(a, b))

    def check(self, cond, msg):
        if not isinstance(cond, SymBool):
            cond = bool(cond)
        self.eng.obligation(cond.c if isinstance(cond, SymBool) else cond, msg)

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        super().reach(label)
        self.eng.labels[label] = self.eng.labels.get(label, 0)
        self.eng.path_log.append(label)

    def eq(self, a, b):
        """Equality, to be used as (part of) an obligation"""
        return deep_eq(a, b, True)

    def all(self, conds):
        return And(*[c for c in conds])

    def any(self, conds):
        return Or(*[c for c in conds])

    def key(self, s):
        """Key under which texts are the same for all inputs"""
        if isinstance(s, str):
            return tuple(map(ord, s))
        return tuple(c.e.get_id() + (1 << 32) if isinstance(c, SymInt) else c for c in s.el)

    def implies(self, a, b):
        return Or(Not(a), b)

    def internal(self, e):
        self.eng.abort(InternalError(f"{type(e).__name__}: {e}", e))

    # -- uninterpreted functions

    def _apply(self, name, args, fresh, eq_result):
        """Functional consistency: equal arguments give equal results"""
        tab = self.tables.setdefault(name, [])
        for a, r in tab:
            if len(a) == len(args) and all(x is y for x, y in zip(a, args)):
                return r
        pend = []
        for a, r in tab:
            x, y = a[0], args[0]
            if isinstance(x, Rope) or isinstance(y, Rope):
                c = same_layout(x, y)
                if c is not None and decided(c):
                    return r
                d = differ(x, y)
            else:
                c = deep_eq(a, args)
                if c is True:
                    return r
                d = Not(c)
            if d is not True:
                pend.append((d, r, x, y))
        if eq_result is None:
            for d, r, x, y in pend:
                if isinstance(x, Rope) or isinstance(y, Rope):
                    if And(xlen(x) == 0, xlen(y) == 0):
                        return r
                    # equal contents at different places: only considered when implied
                    if decided(Not(d)):
                        return r
                    self.eng.assume(d.c if isinstance(d, SymBool) else d)
                elif Not(d):
                    return r
            new = fresh(len(tab))
        else:
            new = fresh(len(tab))
            for d, r, x, y in pend:
                c = Or(d, eq_result(r, new))
                self.eng.assume(c.c if isinstance(c, SymBool) else c)
        tab.append((args, new))
        self.eng.path_ufs.append(lambda m: (name, under(args, m), under(new, m)))
        return new

    def _norm(self, data):
        if isinstance(data, (str, SymStr)):
            data = fsmod.encode_text(data)
        if isinstance(data, SymByteArray):
            data = data.frozen()
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        return data

    def hashed(self, name, data, bits):
        """Hash function: any function of its argument"""
        if self.hash_hook and name == 'xxh64':
            return self.hash_hook(data)
        data = self._norm(data)

        def fresh(k):
            if isinstance(data, bytes):
                return concrete_hash(name, data, bits)
            return SymInt.from_ubv(z3.BitVec(f"{name}!{k}", bits))
        return self._apply(name, (data,), fresh, lambda a, b: a == b)

    def digest(self, name, data, size):
        data = self._norm(data)

        def fresh(k):
            if isinstance(data, bytes):
                return concrete_hash(name, data, size * 8).to_bytes(size, 'little')
            return mkbytes([SymInt.from_ubv(z3.BitVec(f"{name}!{k}[{i}]", 8)) for i in range(size)])
        return self._apply(name, (data,), fresh, lambda a, b: as_seq(a) == b)

    def decompress(self, name, data):
        """Any function of its argument, which may also fail"""
        data = self._norm(data)

        def fresh(k):
            fails = self.libs.get(name + '_fails')
            if fails == 'always' or fails and SymBool(z3.Bool(f"{name}!{k}.bad")):
                return None
            b = TrackedBuf(f"{name}!{k}")
            n = SymInt(z3.BitVec(f"{name}!{k}.len", 33), 0, (1 << 32) - 1)
            self.eng.assume(n.e >= 0)
            self.eng.path_minvars.append(n)
            return Rope([BSeg(b, 0, n)])
        r = self._apply('un' + name, (data,), fresh, None)
        if r is None:
            raise ZstdError("invalid data") if name == 'zstd' else OSError("invalid data")
        return r

    def compressed(self, name, content, size=8):
        """Stored form of a content: some bytes which decompress to it"""
        tab = self.tables.setdefault('un' + name, [])
        k = self.ncompressed = getattr(self, 'ncompressed', -1) + 1
        token = stored_form(k, size)
        tab.append(((token,), self._norm(content)))
        self.eng.path_ufs.append(lambda m: ('un' + name, (token,), under(content, m)))
        return token

    def fun(self, name, arg, bits):
        """Uninterpreted integer function for harness use"""
        return self._apply(name, (arg,), lambda k: SymInt.from_ubv(z3.BitVec(f"{name}!{k}", bits)), lambda a, b: a == b)

    def json_fails(self, make):
        """Parsing of symbolic texts fails (the harness assumes texts which are no JSON)"""
        def hook(s):
            raise make()
        self.json.decode_hook = hook

    def json_bytes(self, obj):
        """Content of a JSON file"""
        return fsmod.encode_text(self.json.dumps(obj))

    def read_json(self, path):
        c = self.fs.content(path)
        return None if c is None else self.json.loads(c)


class InternalError(BaseException):
    """The encoding failed on this path"""

    def __init__(self, msg, exc=None):
        super().__init__(msg)
        self.exc = exc


def ranges(alphabet):
    cs = sorted(set(map(ord, alphabet)))
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def concrete_hash(name, data, bits):
    return int.from_bytes(hashlib.blake2b(data, digest_size=bits // 8, key=name.encode()).digest(), 'little')


def deep_eq(a, b, positive=False):
    """Equality of nested values as one condition where possible"""
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        cs = []
        bb = b if isinstance(b, SDict) else SDict(b)
        for k, v in a.items():
            s = bb._t.find(k)
            if s is None:
                return False
            cs.append(deep_eq(v, bb._t.items[s][1], positive))
        return And(*cs)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And(*[deep_eq(x, y, positive) for x, y in zip(a, b)])
    if positive and (isinstance(a, Rope) or isinstance(b, Rope)) and all(isinstance(x, (Rope, bytes, SymBytes)) for x in (a, b)):
        return same(a, b)
    r = a == b
    if r is NotImplemented:
        return False
    return r if isinstance(r, SymBool) else bool(r)


def stored_form(k, size):
    return (bytes([0xb0 + k]) + b'Z%02d' % k + b'abcdefghijklmnop' * 9)[:size]


class ConcreteEnv(BaseEnv):
    """Runs the same harness on given inputs, with the real code unmodified"""

    def __init__(self, inputs, ufs=(), params=None):
        super().__init__()
        self.inputs = inputs
        self.params = dict(params or {})
        self.names = {}
        for name, args, result in ufs:
            self.tables.setdefault(name, []).append((args, result))
        import json
        # one write, as in the symbolic run
        self.json = types.SimpleNamespace(**{k: getattr(json, k) for k in dir(json) if not k.startswith('__')})
        self.json.dump = lambda obj, fp, **kw: fp.write(json.dumps(obj, **kw))
        self.os.environ = {'HOME': '/home/user'}
        self.stdout = io.StringIO()
        o = self._common()
        o['json'] = self.json
        o['sys'].stdout = self.stdout
        self.world = instrument.World(False, o, {'open': self._open, 'print': self._print})
        self._finish_os()

    def _print(self, *args, sep=' ', end='\n', file=None, flush=False):
        f = file if file is not None else self.stdout
        f.write(sep.join(str(a) for a in args) + end)

    def _val(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        name = name if k == 0 else f"{name}#{k}"
        if name not in self.inputs:
            raise AssumeFailed(f"no input {name}")
        return self.inputs[name]

    def int(self, name, lo, hi):
        if lo == hi:
            k = self.names.get(name, 0)
            self.names[name] = k + 1
            return lo
        v = self._val(name)
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def uint(self, name, bits):
        return self.int(name, 0, (1 << bits) - 1)

    def bool(self, name):
        return self._val(name)

    def flag(self, name):
        return self.choose(name, (False, True))

    def bytes(self, name, n, lo=0, hi=255):
        return self._val(name)

    def str(self, name, n, alphabet=None):
        return self._val(name)

    def choose(self, name, options):
        return list(options)[self._val(name)]

    def buf(self, name, maxlen, minlen=0):
        self.int(name + '.len', minlen, maxlen)
        return self._val(name)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def assume_eq(self, a, b):
        self.assume(self.eq(a, b))

    def check(self, cond, msg):
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float):
            import struct
            return struct.pack('<d', a) == struct.pack('<d', b)
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.eq(v, b[k]) for k, v in a.items())
        return bool(a == b)

    def all(self, conds):
        return all([bool(c) for c in conds])

    def any(self, conds):
        return any([bool(c) for c in conds])

    def key(self, s):
        return s

    def implies(self, a, b):
        return (not a) or bool(b)

    def _lookup(self, name, args):
        for a, r in self.tables.get(name, ()):
            if len(a) == len(args) and all(x == y and type(x) == type(y) for x, y in zip(a, args)):
                return (r,)
        return None

    def _norm(self, data):
        if isinstance(data, str):
            data = data.encode()
        return bytes(data)

    def hashed(self, name, data, bits):
        if self.hash_hook and name == 'xxh64':
            return self.hash_hook(data)
        data = self._norm(data)
        r = self._lookup(name, (data,))
        return r[0] if r else concrete_hash(name, data, bits)

    def digest(self, name, data, size):
        data = self._norm(data)
        r = self._lookup(name, (data,))
        return r[0] if r else concrete_hash(name, data, size * 8).to_bytes(size, 'little')

    def decompress(self, name, data):
        data = self._norm(data)
        r = self._lookup('un' + name, (data,))
        if r is None and self.libs.get(name + '_fails') == 'always':
            r = (None,)
        if r is None:
            # not seen in the symbolic run: some other content
            return b'?' + hashlib.blake2b(data).digest()
        if r[0] is None:
            raise ZstdError("invalid data") if name == 'zstd' else OSError("invalid data")
        return r[0]

    def compressed(self, name, content, size=8):
        tab = self.tables.setdefault('un' + name, [])
        k = self.ncompressed = getattr(self, 'ncompressed', -1) + 1
        token = stored_form(k, size)
        tab.insert(0, ((token,), self._norm(content)))
        return token

    def fun(self, name, arg, bits):
        r = self._lookup(name, (arg,))
        return r[0] if r else concrete_hash(name, repr(arg).encode(), bits)

    def json_fails(self, make):
        pass

    def json_bytes(self, obj):
        return self.json.dumps(obj).encode()

    def read_json(self, path):
        c = self.fs.content(path)
        return None if c is None else self.json.loads(c)
