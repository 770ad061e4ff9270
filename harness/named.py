"""BIN files written by name: values are (type, bytes)"""
from harness.util import le
from harness.bintree import CODES


def fnv(s):
    h = 0x811c9dc5
    for b in s.lower().encode('ascii'):
        h = ((h ^ b) * 0x01000193) % 2**32
    return h


def bits_hash(s):
    return s if isinstance(s, int) or not isinstance(s, str) else fnv(s)


class Maker:
    """Maker of values for a numbering of types"""

    def __init__(self, env, version=1502):
        self.env = env
        self.version = version

    def code(self, t):
        if self.version < 1008 and t not in ('LIST2',) and CODES[t] >= 0x80:
            old = ('LIST', 'STRUCT', 'EMBEDDED', 'LINK', 'OPTION', 'MAP', 'FLAG').index(t)
            return bytes([(0x80 if self.version >= 923 else 18) + old])
        return bytes([CODES[t]])

    def text(self, s):
        raw = s.encode('utf-8')
        return 'STRING', le(len(raw), 2) + raw

    def u8(self, v):
        return 'U8', le(v, 1)

    def u32(self, v):
        return 'U32', le(v, 4)

    def s32(self, v):
        return 'S32', le(v & 0xffffffff, 4)

    def bool(self, v):
        return 'BOOL', b'\x01' if v else b'\x00'

    def float(self, data):
        return 'FLOAT', data

    def link(self, v):
        return 'LINK', le(bits_hash(v), 4)

    def hash(self, v):
        return 'HASH', le(bits_hash(v), 4)

    def path(self, v):
        return 'PATH', le(v, 8)

    def list(self, t, items, kind='LIST'):
        data = self.code(t) + le(0, 4) + le(len(items), 4)
        for it, d in items:
            assert it == t
            data = data + d
        return kind, data

    def map(self, kt, vt, items):
        data = self.code(kt) + self.code(vt) + le(0, 4) + le(len(items), 4)
        for k, v in items:
            data = data + k[1] + v[1]
        return 'MAP', data

    def fields(self, fields):
        data = le(len(fields), 2)
        for n, (t, d) in fields:
            data = data + le(bits_hash(n), 4) + self.code(t) + d
        return data

    def object(self, type, fields, kind='STRUCT'):
        return kind, le(bits_hash(type), 4) + le(0, 4) + self.fields(fields)

    def embed(self, type, fields):
        return self.object(type, fields, 'EMBEDDED')

    def file(self, entries):
        """File of (path, type, fields)"""
        data = b'PROP' + le(1, 4) + le(len(entries), 4)
        for path, type, fields in entries:
            data = data + le(bits_hash(type), 4)
        for path, type, fields in entries:
            body = le(bits_hash(path), 4) + self.fields(fields)
            data = data + le(len(body), 4) + body
        return data


def some(pairs):
    """Fields which exist"""
    return [(n, v) for n, v in pairs if v is not None]


class Table:
    """String table with some keys and texts; `key` are texts or hashes"""

    def __init__(self, env, items, game=1502, name='', layout='v5'):
        self.env = env
        self.game = game
        self.layout = layout
        self.items = items
        self.bits = 40 if layout == 'v3' else 38 if game >= 1502 else 39
        self.hash = 'xxh3_64' if game >= 1415 else 'xxh64'
        if layout == 'text':
            data = b''
            for k, t in items:
                data = data + b'tr "' + k.encode('utf-8') + b'" = "' + t.encode('utf-8') + b'"\n'
            self.data = data
            return
        raw = [t.encode('utf-8') + b'\0' for k, t in items]
        data = b'RST' + bytes([{'v3': 3, 'v4': 4, 'v5': 5}[layout]]) + le(len(items), 4)
        pos = 0
        self.keys = []
        for (k, t), r in zip(items, raw):
            h = self.key(k)
            for o in self.keys:
                env.assume(o != h)
            self.keys.append(h)
            data = data + le((pos << self.bits) + h, 8)
            pos += len(r)
        if layout != 'v5':
            data = data + b'\0'
        for r in raw:
            data = data + r
        self.data = data

    def key(self, k):
        return self.env.hashed(self.hash, k.lower(), 64) % (1 << self.bits)

    def get(self, k):
        """Text of a key; the key when there is none"""
        if k is None:
            return None
        if self.layout == 'text':
            for i, (o, t) in enumerate(self.items):
                if len(o) == len(k) and o == k:
                    return t
            return k
        h = self.key(k)
        for o, (_, t) in zip(self.keys, self.items):
            if h == o:
                return t
        return k
