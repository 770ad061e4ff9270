"""Release manifests: files and what they mean, built side by side"""
from harness.util import le


def rel(v):
    return (v & 0xffffffff).to_bytes(4, 'little')


class Blob:
    """Bytes with references between places"""

    def __init__(self):
        self.parts = []
        self.n = 0
        self.fix = []  # (part index, position, label)
        self.labels = {}

    def put(self, data):
        self.parts.append(data)
        self.n += len(data)

    def label(self, name):
        self.labels[name] = self.n

    def ref(self, name, base=None, sign=1):
        """32-bit offset of a label, from here or from another place"""
        self.fix.append((len(self.parts), self.n if base is None else base, name, sign))
        self.put(bytes(4))

    def bytes(self):
        for i, pos, name, sign in self.fix:
            self.parts[i] = rel(sign * (self.labels[name] - pos))
        out = b''
        for p in self.parts:
            out += p
        return out


class Builder:
    """Layouts vary: tables in any order, tables of fields before or after their object, optional fields absent or beyond the table"""

    def __init__(self, reverse=False, vtable_after=False, gap=0, swap=False):
        self.b = Blob()
        self.reverse = reverse
        self.vtable_after = vtable_after
        self.gap = gap
        self.swap = swap
        self.k = 0

    def name(self):
        self.k += 1
        return f'l{self.k}'

    def string(self, label, s):
        raw = s.encode('utf-8')
        self.b.label(label)
        self.b.put(le(len(raw), 4) + raw)

    def obj(self, label, fields, nfields):
        """Object with a field table; fields: list of (slot, kind, value), kinds: raw, ref"""
        b = self.b
        slots = {}
        pos = 4 + self.gap
        for slot, kind, value in (reversed(fields) if self.swap else fields):
            slots[slot] = pos
            pos += len(value) if kind == 'raw' else 4
        vt = le(4 + 2 * nfields, 2) + le(pos, 2)
        for i in range(nfields):
            vt += le(slots.get(i, 0), 2)
        v = self.name()
        if not self.vtable_after:
            b.label(v)
            b.put(vt)
        b.label(label)
        b.ref(v, sign=-1)
        b.put(b'\xee' * self.gap)
        for slot, kind, value in (reversed(fields) if self.swap else fields):
            if kind == 'raw':
                b.put(value)
            else:
                b.ref(value)
        if self.vtable_after:
            b.label(v)
            b.put(vt)

    def table(self, label, items):
        """Table of references to objects, which `items` write"""
        b = self.b
        names = [self.name() for _ in items]
        if self.reverse:
            for n, f in zip(names, items):
                f(n)
        b.label(label)
        b.put(le(len(items), 4))
        for n in names:
            b.ref(n)
        if not self.reverse:
            for n, f in zip(names, items):
                f(n)

    def bundle(self, bid, chunks):
        def write(label):
            t = self.name()

            def late():
                self.table(t, [lambda l, c=c: self.obj(l, [(0, 'raw', le(c[0], 8)), (1, 'raw', le(c[1], 4)), (2, 'raw', le(c[2], 4))], 3) for c in chunks])
            if self.reverse:
                late()
            self.obj(label, [(0, 'raw', le(bid, 8)), (1, 'ref', t)], 2)
            if not self.reverse:
                late()
        return write

    def flag(self, fid, text):
        def write(label):
            b = self.b
            s = self.name()
            b.label(label)
            b.put(b'\x11\x22\x33\x44' + b'\xaa\xbb\xcc' + le(fid, 1))
            # relative to its own place
            b.ref(s)
            b.put(b'\xee' * self.gap)
            self.string(s, text)
        return write

    def directory(self, did, parent, name, nfields=3):
        def write(label):
            s = self.name()
            fields = [(0, 'raw', le(did, 8))]
            if parent is not None:
                fields.append((1, 'raw', le(parent, 8)))
            fields.append((2, 'ref', s))
            self.obj(label, fields, nfields)
            self.string(s, name)
        return write

    def file(self, fid, directory, size, name, flags, chunks, link, nfields=13):
        def write(label):
            s, c, k = self.name(), self.name(), self.name()
            fields = [(0, 'raw', le(fid, 8))]
            if directory is not None:
                fields.append((1, 'raw', le(directory, 8)))
            if size is not None:
                fields.append((2, 'raw', le(size, 4)))
            fields.append((3, 'ref', s))
            if flags is not None:
                fields.append((4, 'raw', le(flags, 8)))
            fields.append((7, 'ref', c))
            if link is not None:
                fields.append((9, 'ref', k))
            self.obj(label, fields, nfields)
            self.string(s, name)
            if link is not None:
                self.string(k, link)
            self.b.label(c)
            self.b.put(le(len(chunks), 4))
            for x in chunks:
                self.b.put(le(x, 8))
        return write

    def body(self, bundles, flags, files, directories, header=0):
        b = self.b
        b.put(le(header, 4) + b'\x99' * header)
        order = ('bundles', 'flags', 'files', 'directories', 'x', 'y')
        for n in order:
            b.ref(n)
        tables = [('bundles', bundles), ('flags', flags), ('files', files), ('directories', directories), ('x', []), ('y', [])]
        for n, items in (reversed(tables) if self.reverse else tables):
            b.put(b'\xee' * self.gap)
            self.table(n, items)
        return b.bytes()


def manifest(env, body, minor=0, flags=0x200, token=None):
    """Manifest file of a body"""
    z = env.compressed('zstd', body, 12) if token is None else token
    return b'RMAN' + bytes([2, minor]) + le(flags, 2) + le(28, 4) + le(len(z), 4) + b'MANIF_ID' + le(len(body), 4) + z
