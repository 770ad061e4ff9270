"""In-memory file system, used in place of the real one both symbolically and in replays.

Paths and contents may be symbolic.  Faults: `fs.hook(op, path)` is called
before every operation that changes the file system (and before reads, with
op 'read'); it may raise.  After `fs.crashed` is set nothing changes any more.
"""

import errno
import shutil as _shutil
import os as _os
import posixpath as _px
import io as _io
import stat as _stat

from .engine import Engine
from .values import *
from .values import Sym, SymSeq
from .containers import SDict


class Node:
    mtime = 0
    mode = 0


class Dir(Node):
    kind = 'dir'

    def __init__(self):
        self.entries = SDict()


class File(Node):
    kind = 'file'

    def __init__(self, content=b''):
        self.content = content


class Link(Node):
    kind = 'link'

    def __init__(self, target):
        self.target = target


def err(no, path=None, path2=None):
    cls = {errno.ENOENT: FileNotFoundError, errno.EEXIST: FileExistsError, errno.ENOTDIR: NotADirectoryError,
           errno.EISDIR: IsADirectoryError, errno.EACCES: PermissionError}.get(no, OSError)
    p = path.concrete_repr() if hasattr(path, 'concrete_repr') else ('<path>' if isinstance(path, Sym) else path)
    e = cls(no, _os.strerror(no), p)
    return e


class SimCrash(BaseException):
    """The process is killed"""


class FS:
    def __init__(self):
        self.root = Dir()
        self.cwd = '/work'
        self.hook = None
        self.crashed = False
        self.point = None  # called where another thread may run
        self.clock = 0
        self.log = []
        self.ops = 0
        self.makedirs('/work')
        self.makedirs('/home/user')
        self.makedirs('/tmp')
        self.log = []

    # -- path resolution

    def fspath(self, p):
        if isinstance(p, (str, SymStr)):
            return p
        if isinstance(p, int) and not isinstance(p, bool):
            raise TypeError("file descriptors are not modelled")
        if isinstance(p, (bytes, SymBytes)):
            return p.decode()
        if hasattr(type(p), '__fspath__'):
            return type(p).__fspath__(p)
        raise TypeError(f"expected str, bytes or os.PathLike object, not {type(p).__name__}")

    def parts(self, path):
        path = self.fspath(path)
        if len(path) == 0:
            raise err(errno.ENOENT, '')
        if isinstance(path, SymStr):
            if path.contains('\0'):
                raise ValueError("embedded null byte")
        elif '\0' in path:
            raise ValueError("embedded null byte")
        absolute = bool(path.startswith('/'))
        out = []
        for c in path.split('/'):
            if len(c) == 0:
                continue
            out.append(c)
        trailing = bool(path.endswith('/'))
        return absolute, out, trailing

    def name_too_long(self, c):
        if isinstance(c, SymStr):
            n = 0
            for x in c.el:
                if isinstance(x, Opaque):
                    n = n + len(x.payload) if x.tag == 'utf8r' else n + 1
                elif isinstance(x, int):
                    n = n + len(chr(x).encode('utf-8', 'surrogatepass'))
                else:
                    n = n + 1 if x.hi < 128 else n + ite(x < 128, 1, ite(x < 0x800, 2, ite(x < 0x10000, 3, 4)))
            return bool(n > 255)
        return len(c) > 255 or len(c.encode('utf-8', 'surrogateescape')) > 255

    def walk(self, path, follow_last=True, depth=0):
        """(parent, name, node); node is None if the last component does not exist"""
        absolute, parts, trailing = self.parts(path)
        if depth == 0 and not absolute:
            _, base, _ = self.parts(self.cwd)
            parts = base + parts
        r = self._walk(self.root, [], parts, follow_last or trailing, depth, path)
        if trailing and r[2] is not None and r[2].kind == 'file':
            raise err(errno.ENOTDIR, path)
        return r

    def entry(self, path):
        """Same as walk(), for an entry which is removed or renamed"""
        absolute, parts, trailing = self.parts(path)
        if not trailing or not parts:
            return self.walk(path, False)
        p = self.fspath(path)
        r = self.walk(p.rstrip('/'), False)
        if r[2] is not None and r[2].kind != 'dir':
            raise err(errno.ENOTDIR, path)
        return r

    def _walk(self, node, stack, parts, follow_last, depth, path):
        # stack: list of (dir, name) from the root
        if depth > 40:
            raise err(errno.ELOOP, path)
        stack = list(stack)
        cur = node
        name = None
        parent = None
        i = 0
        while i < len(parts):
            c = parts[i]
            last = i == len(parts) - 1
            if c == '.':
                i += 1
                if last:
                    name = None
                continue
            if c == '..':
                if stack:
                    cur = stack.pop()[0]
                i += 1
                parent, name = (stack[-1][0], stack[-1][1]) if stack else (None, None)
                continue
            if cur.kind != 'dir':
                raise err(errno.ENOTDIR, path)
            if self.name_too_long(c):
                raise err(errno.ENAMETOOLONG, path)
            nxt = cur.entries.get(c)
            if nxt is None:
                if last:
                    return cur, c, None
                raise err(errno.ENOENT, path)
            if nxt.kind == 'link' and (not last or follow_last):
                absolute, tparts, _ = self.parts(nxt.target)
                rest = tparts + parts[i + 1:]
                if absolute:
                    return self._walk(self.root, [], rest, follow_last, depth + 1, path)
                return self._walk(cur, stack, rest, follow_last, depth + 1, path)
            if nxt.kind == 'file' and not last:
                raise err(errno.ENOTDIR, path)
            parent, name = cur, c
            stack.append((cur, c))
            cur = nxt
            i += 1
        return parent, name, cur

    def node(self, path, follow=True):
        n = self.walk(path, follow)[2]
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != 'dir' and self.parts(path)[2]:
            raise err(errno.ENOTDIR, path)
        return n

    def lookup(self, path, follow=True):
        try:
            return self.node(path, follow)
        except (OSError, ValueError):
            return None

    # -- faults

    def change(self, op, path):
        """Called before each change; returns False when changes have no effect any more"""
        if self.crashed:
            return False
        self.ops += 1
        if self.hook is not None:
            self.hook(op, path)
        self.log.append((op, path))
        self.clock += 1
        return not self.crashed

    def yields(self):
        if self.point is not None:
            self.point()

    # -- operations

    def mkdir(self, path):
        self.yields()
        p = self.fspath(path)
        parent, name, node = self.walk(p.rstrip('/') if len(p) > 1 and p.endswith('/') else p, False)
        if node is not None:
            raise err(errno.EEXIST, path)
        if self.change('mkdir', path):
            parent.entries[name] = d = Dir()
            d.mtime = self.clock

    def makedirs(self, path, exist_ok=False):
        path = self.fspath(path)
        head, tail = _split(path)
        if len(tail) == 0:
            head, tail = _split(head)
        if len(head) and len(tail) and self.lookup(head) is None:
            try:
                self.makedirs(head, exist_ok)
            except FileExistsError:
                pass
            if tail == '.':
                return
        try:
            self.mkdir(path)
        except OSError:
            n = self.lookup(path)
            if not exist_ok or n is None or n.kind != 'dir':
                raise

    def remove(self, path):
        self.yields()
        parent, name, node = self.entry(path)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind == 'dir':
            raise err(errno.EISDIR, path)
        if self.change('remove', path):
            del parent.entries[name]

    def rmdir(self, path):
        self.yields()
        parent, name, node = self.entry(path)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        if parent is None or _last(self.fspath(path)) == '.':
            raise err(errno.EBUSY if parent is None and _last(self.fspath(path)) != '.' else errno.EINVAL, path)
        if len(node.entries):
            raise err(errno.ENOTEMPTY, path)
        if self.change('rmdir', path):
            del parent.entries[name]

    def removedirs(self, path):
        path = self.fspath(path)
        self.rmdir(path)
        head, tail = _split(path)
        if not tail:
            head, tail = _split(head)
        while head and tail:
            try:
                self.rmdir(head)
            except OSError:
                break
            head, tail = _split(head)

    def rename(self, src, dst, replace=True):
        self.yields()
        sp, sn, snode = self.entry(src)
        if snode is None:
            raise err(errno.ENOENT, src)
        if snode.kind == 'dir':
            p = self.fspath(dst)
            dp, dn, dnode = self.walk(p.rstrip('/') if len(p) > 1 and p.endswith('/') else p, False)
        else:
            dp, dn, dnode = self.entry(dst)
            if dnode is None and self.parts(dst)[2]:
                raise err(errno.ENOTDIR, dst)
        if sp is None or sn is None or dp is None or dn is None:
            raise err(errno.EBUSY, src)
        if dnode is snode:
            return
        if snode.kind == 'dir' and _below(snode, dp):
            raise err(errno.EINVAL, src)
        if dnode is not None:
            if dnode.kind == 'dir':
                if snode.kind != 'dir':
                    raise err(errno.EISDIR, dst)
                if len(dnode.entries):
                    raise err(errno.ENOTEMPTY, dst)
            elif snode.kind == 'dir':
                raise err(errno.ENOTDIR, dst)
        if self.change('rename', dst):
            del sp.entries[sn]
            dp.entries[dn] = snode

    def symlink(self, target, path):
        self.yields()
        parent, name, node = self.walk(path, False)
        if node is not None:
            raise err(errno.EEXIST, path)
        if self.change('symlink', path):
            parent.entries[name] = Link(self.fspath(target))

    def link(self, src, dst):
        self.yields()
        node = self.node(src, False)
        p = self.fspath(dst)
        parent, name, n2 = self.walk(p.rstrip('/') if len(p) > 1 else p, False)
        if n2 is not None:
            raise err(errno.EEXIST, dst)
        if p.endswith('/'):
            raise err(errno.ENOENT, dst)
        if node.kind == 'dir':
            raise err(errno.EPERM, src)
        if self.change('link', dst):
            parent.entries[name] = node

    def readlink(self, path):
        n = self.node(path, False)
        if n.kind != 'link':
            raise err(errno.EINVAL, path)
        return n.target

    def rmtree(self, path, ignore_errors=False, onerror=None, onexc=None):
        def fail(e, p):
            if onerror is not None or onexc is not None:
                return
            if not ignore_errors:
                raise e
        try:
            n = self.node(path, False)
            if n.kind == 'link':
                raise OSError("Cannot call rmtree on a symbolic link")
            if n.kind != 'dir':
                raise err(errno.ENOTDIR, path)
        except OSError as e:
            return fail(e, path)

        def rec(p, n):
            for name, child in list(n.entries.items()):
                q = p + '/' + name
                try:
                    if child.kind == 'dir':
                        rec(q, child)
                    else:
                        self.remove(q)
                except OSError as e:
                    fail(e, q)
            try:
                self.rmdir(p)
            except OSError as e:
                fail(e, p)
        rec(self.fspath(path), n)

    # -- harness helpers (no faults, no log)

    def put(self, path, content=b''):
        """Create a file with its parents"""
        d = _px.dirname(path) if isinstance(path, str) else _split(path)[0]
        saved = self.hook, self.log, self.ops, self.crashed
        self.hook, self.log, self.crashed = None, [], False
        try:
            if len(d):
                self.makedirs(d, True)
            parent, name, node = self.walk(path)
            if node is None:
                node = parent.entries[name] = File()
            if isinstance(content, (str, SymStr)):
                content = content.encode('utf-8')
            node.content = content
        finally:
            self.hook, self.log, self.ops, self.crashed = saved
        return node

    def content(self, path):
        """Content of a file, None if it does not exist"""
        n = self.lookup(path)
        return n.content if n is not None and n.kind == 'file' else None

    def tree(self, path='/', follow=False):
        """{relative path: ('f', content) | ('d',) | ('l', target)} below a directory"""
        out = {} if Engine.cur is None else SDict()

        def rec(prefix, n):
            for name, c in n.entries.items():
                p = prefix + name
                if c.kind == 'dir':
                    out[p] = ('d',)
                    rec(p + '/', c)
                elif c.kind == 'link':
                    out[p] = ('l', c.target)
                else:
                    out[p] = ('f', c.content)
        n = self.lookup(path)
        if n is not None and n.kind == 'dir':
            rec('', n)
        return out

    def files(self, path='/'):
        """Paths of the files and links below a directory, in creation order"""
        return [p for p, v in self.tree(path).items() if v[0] != 'd']


def _below(top, node):
    return top is node or any(c.kind == 'dir' and _below(c, node) for c in top.entries.values())


def _last(p):
    p = p.rstrip('/')
    return p.rpartition('/')[2]


def _split(p):
    if isinstance(p, str):
        return _px.split(p)
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if len(head) and not bool(And(*[c == '/' for c in head])):
        head = head.rstrip('/')
    return head, tail


# ---------------------------------------------------------------- file objects

def blen(x):
    return x.length() if isinstance(x, Rope) else len(x)


def bslice(x, a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(x, Rope):
        return x[a:b]
    if isinstance(x, (bytes, bytearray)):
        x = as_seq(bytes(x))
    return x[a:b]


def bcat(a, b):
    if isinstance(a, Rope) or isinstance(b, Rope):
        sa = a.segs if isinstance(a, Rope) else [a]
        sb = b.segs if isinstance(b, Rope) else [b]
        return mkrope(sa + sb)
    return a + b


@modelled(_io.BufferedRandom)
class BinFile:
    """Binary file object over a content holder with attribute `content`"""

    def __init__(self, holder, fs=None, path=None, readable=True, writable=False, append=False):
        self._h = holder
        self._fs = fs
        self.name = path
        self._r = readable
        self._w = writable
        self._pos = 0
        self.closed = False
        self._append = append
        self.mode = ('r' if readable else 'w') + 'b'

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _data(self):
        return self._h.content

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        import io
        raise io.UnsupportedOperation("fileno")

    def tell(self):
        self._check()
        return self._pos

    def seek(self, off, whence=0):
        self._check()
        if whence == 0:
            if off < 0:
                raise ValueError("negative seek value")
            self._pos = off
        elif whence == 1:
            p = self._pos + off
            if p < 0:
                raise self._neg()
            self._pos = p
        else:
            p = blen(self._data()) + off
            if p < 0:
                raise self._neg()
            self._pos = p
        return self._pos

    def _neg(self):
        return OSError(errno.EINVAL, 'Invalid argument')

    def read(self, n=-1):
        self._check()
        if not self._r:
            import io
            raise io.UnsupportedOperation("not readable")
        if self._fs is not None and self._fs.hook is not None:
            self._fs.hook('read', self.name)
        data = self._data()
        total = blen(data)
        if n is None or n < 0:
            end = total
        else:
            end = smin(self._pos + n, total)
        if not isinstance(data, Rope) and self._pos >= end:
            return b''
        end = smax(end, self._pos)
        r = bslice(data, self._pos, end)
        self._pos = end
        return r

    read1 = read

    def readall(self):
        return self.read()

    def readinto(self, buf):
        r = self.read(len(buf))
        n = blen(r)
        n = concrete_small(n)
        if isinstance(buf, SymByteArray):
            buf.data[:n] = list(elements(r))
        else:
            buf[:n] = r
        return n

    def peek(self, n=1):
        p = self._pos
        r = self.read(n)
        self._pos = p
        return r

    def readline(self, size=-1):
        data = self._data()
        rest = bslice(data, self._pos, blen(data))
        i = as_seq(rest).find(b'\n')
        n = blen(rest) if i < 0 else i + 1
        return self.read(n)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if blen(r) == 0:
            raise StopIteration
        return r

    def write(self, data):
        self._check()
        if not self._w:
            import io
            raise io.UnsupportedOperation("not writable")
        if isinstance(data, (str, SymStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        if isinstance(data, SymByteArray):
            data = data.frozen()
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        n = blen(data)
        if self._fs is not None:
            part = self._fs_write(data)
            if part is None:
                return n
        self._put(data)
        return n

    def _put(self, data):
        n = blen(data)
        cur = self._data()
        total = blen(cur)
        if self._append:
            self._pos = total
        if isinstance(self._pos, int) and isinstance(total, int) and isinstance(n, int):
            if self._pos > total:
                cur = cur + b'\0' * (self._pos - total)
            new = bcat(bcat(cur[:self._pos], data), cur[self._pos + n:])
        else:
            if not (self._pos == total):
                raise Unsupported('overwrite at symbolic position')
            new = bcat(cur, data)
        self._h.content = new
        self._pos = self._pos + n

    def _fs_write(self, data):
        fs = self._fs
        fs.yields()
        if fs.crashed:
            return None
        try:
            ok = fs.change('write', self.name)
        except (OSError, SimCrash) as e:
            # part of the data may have been written
            part = getattr(e, 'partial', None)
            if part is not None:
                self._put(part(data))
            raise
        return data if ok else None

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, size=None):
        if size is None:
            size = self._pos
        if self._fs is not None and not self._fs.change('truncate', self.name):
            return size
        data = self._data()
        if blen(data) < size:
            self._h.content = bcat(data, b'\0' * concrete_small(size - blen(data)))
        else:
            self._h.content = bslice(data, 0, size)
        return size

    def flush(self):
        self._check()

    def close(self):
        self.closed = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.close()

    def __del__(self):
        pass


class BytesIO(BinFile):
    def __init__(self, initial=b''):
        h = File(initial.frozen() if isinstance(initial, SymByteArray) else (bytes(initial) if isinstance(initial, (bytearray, memoryview)) else initial))
        super().__init__(h, writable=True)

    def _neg(self):
        return None

    def seek(self, off, whence=0):
        self._check()
        if whence == 0:
            if off < 0:
                raise ValueError("negative seek value")
            p = off
        else:
            p = (self._pos if whence == 1 else blen(self._data())) + off
            if p < 0:
                p = 0
        self._pos = p
        return p

    def getvalue(self):
        self._check()
        return self._data()

    def getbuffer(self):
        return self._data()


@modelled(_io.TextIOWrapper)
class TextFile:
    """Text file object over a binary one"""

    def __init__(self, raw, encoding='utf-8', errors='strict', newline=None, mode='r'):
        self._raw = raw
        self.buffer = raw
        self.encoding = encoding or 'utf-8'
        self.errors = errors or 'strict'
        self.newline = newline
        self.name = getattr(raw, 'name', None)
        self.mode = mode
        self._text = None
        self._tpos = 0

    @property
    def closed(self):
        return self._raw.closed

    def _load(self):
        if self._text is None:
            data = self._raw.read()
            if isinstance(data, Rope):
                data = data.vector()
            t = data.decode(self.encoding, self.errors)
            if self.newline is None:
                t = t.replace('\r\n', '\n').replace('\r', '\n')
            self._text = t
        return self._text

    def read(self, n=-1):
        t = self._load()
        end = len(t) if n is None or n < 0 else min(len(t), self._tpos + n)
        r = t[self._tpos:end]
        self._tpos = end
        return r

    def readline(self, size=-1):
        t = self._load()
        rest = t[self._tpos:]
        i = rest.find('\n')
        n = len(rest) if i < 0 else i + 1
        self._tpos += n
        return rest[:n]

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if len(r) == 0:
            raise StopIteration
        return r

    def write(self, s):
        if not isinstance(s, (str, SymStr)):
            raise TypeError(f"write() argument must be str, not {type(s).__name__}")
        self._raw.write(encode_text(s, self.encoding, self.errors))
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def seek(self, off, whence=0):
        if off == 0:
            self._text = None
            self._tpos = 0
            self._raw.seek(0, whence)
        else:
            raise Unsupported('text seek')
        return off

    def tell(self):
        return self._tpos

    def flush(self):
        pass

    def close(self):
        self._raw.close()

    def readable(self):
        return self._raw.readable()

    def writable(self):
        return self._raw.writable()

    def isatty(self):
        return False

    def __enter__(self):
        self._raw._check()
        return self

    def __exit__(self, *exc):
        self.close()


def encode_text(s, encoding='utf-8', errors='strict'):
    """Encode text which may hold opaque fragments: those become opaque byte elements"""
    if isinstance(s, str):
        return s.encode(encoding, errors)
    if any(isinstance(c, Opaque) for c in s.el):
        out = []
        for c in s.el:
            if isinstance(c, Opaque):
                out.append(c)
            else:
                out += elements(mkstr([c]).encode(encoding, errors))
        return SymBytes(out)
    return s.encode(encoding, errors)


@modelled(_io.StringIO)
class StringIO:
    def __init__(self, initial='', newline='\n'):
        self._t = initial
        self._pos = 0

    def write(self, s):
        self._t = self._t[:self._pos] + s + self._t[self._pos + len(s):]
        self._pos += len(s)
        return len(s)

    def getvalue(self):
        return self._t

    def read(self, n=-1):
        end = len(self._t) if n is None or n < 0 else min(len(self._t), self._pos + n)
        r = self._t[self._pos:end]
        self._pos = max(end, self._pos)
        return r

    def readline(self):
        rest = self._t[self._pos:]
        i = rest.find('\n')
        n = len(rest) if i < 0 else i + 1
        self._pos += n
        return rest[:n]

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if len(r) == 0:
            raise StopIteration
        return r

    def seek(self, p, whence=0):
        self._pos = p if whence == 0 else len(self._t)
        return self._pos

    def tell(self):
        return self._pos

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def open_file(fs, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    binary = 'b' in mode
    base = mode.replace('b', '').replace('t', '')
    if base not in ('r', 'w', 'a', 'x', 'r+', 'w+', 'a+', 'x+', '+r'):
        raise ValueError(f"invalid mode: '{mode}'")
    spath = fs.fspath(path)
    fs.yields()
    if base.startswith('x'):
        parent, name, node = fs.walk(spath, False)
        if node is not None:
            raise err(errno.EEXIST, spath)
    else:
        parent, name, node = fs.walk(spath)
    if base.startswith('r') or base == '+r':
        if node is None:
            raise err(errno.ENOENT, spath)
        if node.kind == 'dir':
            raise err(errno.EISDIR, spath)
        if fs.hook is not None and not fs.crashed:
            fs.hook('open', spath)
        f = BinFile(node, fs, spath, True, '+' in base)
    else:
        if node is not None and node.kind == 'dir':
            raise err(errno.EISDIR, spath)
        if spath.endswith('/'):
            raise err(errno.EISDIR, spath)
        if fs.change('create', spath):
            if node is None:
                node = parent.entries[name] = File()
            elif base.startswith('w'):
                node.content = b''
            node.mtime = fs.clock
        if node is None:
            node = File()
        f = BinFile(node, fs, spath, '+' in base, True, base.startswith('a'))
    f.mode = mode
    if binary:
        return f
    return TextFile(f, encoding, errors, newline, mode)


# ---------------------------------------------------------------- module os

@modelled(_os.stat_result)
class StatResult:
    def __init__(self, node):
        self.st_mode = {'dir': _stat.S_IFDIR | 0o755, 'file': _stat.S_IFREG | 0o644, 'link': _stat.S_IFLNK | 0o777}[node.kind]
        self.st_ino = id(node)
        self.st_dev = 1
        self.st_mtime = node.mtime
        self.st_ctime = node.mtime
        self.st_atime = node.mtime
        self.st_mtime_ns = node.mtime * 10**9
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        self.st_size = blen(node.content) if node.kind == 'file' else (len(node.target) if node.kind == 'link' else 4096)


@modelled(_os.DirEntry)
class DirEntry:
    def __init__(self, fs, base, name, node):
        self._fs = fs
        self.name = name
        self._node = node
        self.path = name if base == '' else (base + name if base.endswith('/') else base + '/' + name)

    def _resolve(self, follow):
        if self._node.kind == 'link' and follow:
            try:
                return self._fs.node(self.path)
            except FileNotFoundError:
                return None
        return self._node

    def is_dir(self, *, follow_symlinks=True):
        n = self._resolve(follow_symlinks)
        return n is not None and n.kind == 'dir'

    def is_file(self, *, follow_symlinks=True):
        n = self._resolve(follow_symlinks)
        return n is not None and n.kind == 'file'

    def is_symlink(self):
        return self._node.kind == 'link'

    def stat(self, *, follow_symlinks=True):
        n = self._resolve(follow_symlinks)
        if n is None:
            raise err(errno.ENOENT, self.path)
        return StatResult(n)

    def inode(self):
        return id(self._node)

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"


class _Scandir:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


@modelled([n for n in dir(_os) if n.islower() and n not in ('sendfile', 'fork', 'fwalk', 'lchmod', 'chflags', 'lchflags', 'posix_spawn', 'posix_fadvise', 'posix_fallocate')])
class FakeOS:
    """Model of module os on an FS"""
    name = 'posix'
    sep = '/'
    altsep = None
    extsep = '.'
    pathsep = ':'
    linesep = '\n'
    curdir = '.'
    pardir = '..'
    devnull = '/dev/null'
    error = OSError
    PathLike = _os.PathLike
    F_OK, R_OK, W_OK, X_OK = 0, 4, 2, 1
    SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
    O_RDONLY, O_WRONLY, O_CREAT, O_EXCL = 0, 1, 64, 128
    supports_follow_symlinks = set()
    supports_dir_fd = set()
    supports_fd = set()

    def __init__(self, fs):
        self._fs = fs
        self.environ = SDict()
        self.path = None  # set by the environment
        self.tty = False

    def isatty(self, fd):
        return self.tty

    def fspath(self, p):
        if isinstance(p, (str, bytes, SymStr, SymBytes)):
            return p
        return self._fs.fspath(p)

    def fsencode(self, p):
        p = self.fspath(p)
        return p.encode() if isinstance(p, (str, SymStr)) else p

    def fsdecode(self, p):
        p = self.fspath(p)
        return p.decode() if isinstance(p, (bytes, SymBytes)) else p

    def getenv(self, k, default=None):
        return self.environ.get(k, default)

    def getcwd(self):
        return self._fs.cwd

    def getpid(self):
        return 1234

    def cpu_count(self):
        return 8

    def urandom(self, n):
        return bytes(n)

    def strerror(self, n):
        return _os.strerror(n)

    def get_terminal_size(self, fd=None):
        return _os.terminal_size((80, 24))

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        return StatResult(self._fs.node(path, follow_symlinks))

    def lstat(self, path, *, dir_fd=None):
        return StatResult(self._fs.node(path, False))

    def access(self, path, mode, **kw):
        return self._fs.lookup(path) is not None

    def mkdir(self, path, mode=0o777, **kw):
        self._fs.mkdir(path)

    def makedirs(self, name, mode=0o777, exist_ok=False):
        self._fs.makedirs(name, exist_ok)

    def remove(self, path, **kw):
        self._fs.remove(path)

    unlink = remove

    def rmdir(self, path, **kw):
        self._fs.rmdir(path)

    def removedirs(self, path):
        self._fs.removedirs(path)

    def rename(self, src, dst, **kw):
        self._fs.rename(src, dst)

    replace = rename

    def symlink(self, src, dst, target_is_directory=False, **kw):
        self._fs.symlink(src, dst)

    def link(self, src, dst, **kw):
        self._fs.link(src, dst)

    def readlink(self, path, **kw):
        return self._fs.readlink(path)

    def chmod(self, path, mode, **kw):
        self._fs.node(path)

    def utime(self, path, times=None, *, ns=None, **kw):
        n = self._fs.node(path)
        n.mtime = times[1] if times is not None else ns[1] // 10**9 if ns is not None else self._fs.clock

    def listdir(self, path='.'):
        n = self._fs.node(path)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        return list(n.entries)

    def scandir(self, path='.'):
        n = self._fs.node(path)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        base = self.fspath(path)
        return _Scandir([DirEntry(self._fs, base, name, c) for name, c in n.entries.items()])

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        top = self.fspath(top)
        try:
            entries = list(self.scandir(top))
        except OSError as e:
            if onerror is not None:
                onerror(e)
            return
        dirs, nondirs, walk_dirs = [], [], []
        for e in entries:
            try:
                is_dir = e.is_dir()
            except OSError:
                is_dir = False
            if is_dir:
                dirs.append(e.name)
                if not topdown and (followlinks or not e.is_symlink()):
                    walk_dirs.append(e.path)
            else:
                nondirs.append(e.name)
        join = self.path.join
        if topdown:
            yield top, dirs, nondirs
            for d in dirs:
                p = join(top, d)
                if followlinks or not self.path.islink(p):
                    yield from self.walk(p, topdown, onerror, followlinks)
        else:
            for p in walk_dirs:
                yield from self.walk(p, topdown, onerror, followlinks)
            yield top, dirs, nondirs


@modelled(_shutil)
class FakeShutil:
    """Model of module shutil"""
    Error = OSError

    def __init__(self, fs):
        self._fs = fs

    def rmtree(self, path, ignore_errors=False, onerror=None, *, onexc=None, dir_fd=None):
        self._fs.rmtree(path, ignore_errors, onerror, onexc)

    def copyfileobj(self, fsrc, fdst, length=0):
        fdst.write(fsrc.read())

    def copyfile(self, src, dst, *, follow_symlinks=True):
        n = self._fs.lookup(src)
        if n is not None and n is self._fs.lookup(dst):
            raise _shutil.SameFileError(f"{src!r} and {dst!r} are the same file")
        with open_file(self._fs, src, 'rb') as f:
            data = f.read()
        with open_file(self._fs, dst, 'wb') as f:
            f.write(data)
        return dst

    def copy(self, src, dst, *, follow_symlinks=True):
        n = self._fs.lookup(dst)
        if n is not None and n.kind == 'dir':
            s = self._fs.fspath(src)
            dst = self._fs.fspath(dst) + '/' + _split(s)[1]
        return self.copyfile(src, dst)

    copy2 = copy

    def move(self, src, dst, copy_function=None):
        n = self._fs.lookup(dst)
        if n is not None and n.kind == 'dir':
            dst = self._fs.fspath(dst) + '/' + _split(self._fs.fspath(src))[1]
        self._fs.rename(src, dst)
        return dst

    def disk_usage(self, path):
        raise Unsupported('disk_usage')
