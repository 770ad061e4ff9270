"""BIN trees: files and what they hold, built side by side"""
import struct
from harness.util import le

# name -> (code in the current numbering, struct format or None)
SCALARS = {
    'BOOL': (1, '<?'), 'S8': (2, '<b'), 'U8': (3, '<B'), 'S16': (4, '<h'), 'U16': (5, '<H'), 'S32': (6, '<i'), 'U32': (7, '<I'),
    'S64': (8, '<q'), 'U64': (9, '<Q'), 'FLOAT': (10, '<f'), 'FLAG': (0x87, '<B'),
}
TUPLES = {'EMPTY': (0, '<HHH'), 'VEC2_FLOAT': (11, '<ff'), 'VEC3_FLOAT': (12, '<fff'), 'VEC4_FLOAT': (13, '<ffff'), 'RGBA': (15, '<BBBB')}
OTHERS = {'MATRIX4X4': 14, 'STRING': 16, 'HASH': 17, 'PATH': 18, 'LIST': 0x80, 'LIST2': 0x81, 'STRUCT': 0x82, 'EMBEDDED': 0x83, 'LINK': 0x84,
          'OPTION': 0x85, 'MAP': 0x86}
CODES = {n: c for n, c in OTHERS.items()}
for _n, _v in list(SCALARS.items()) + list(TUPLES.items()):
    CODES[_n] = _v[0]
LEAVES = tuple(n for n in CODES if n not in ('LIST', 'LIST2', 'STRUCT', 'EMBEDDED', 'OPTION', 'MAP'))
FIXED = {'<?': 1, '<b': 1, '<B': 1, '<h': 2, '<H': 2, '<i': 4, '<I': 4, '<q': 8, '<Q': 8, '<f': 4}


class Node:
    """A value: its type, its bytes and what it means"""

    def __init__(self, type, data, value=None, vtype=None, ktype=None, fields=None, htype=None):
        self.type = type
        self.data = data
        self.value = value
        self.vtype = vtype
        self.ktype = ktype
        self.fields = fields
        self.htype = htype


class Gen:
    """Generator of trees; `code` gives the code of a type"""

    def __init__(self, env, code=None, strlen=2, small=False):
        self.env = env
        self.n = 0
        self.code = code or (lambda t: bytes([CODES[t]]))
        self.strlen = strlen

    def name(self, s):
        self.n += 1
        return f'{s}{self.n}'

    def uint(self, bits, name='v'):
        return self.env.uint(self.name(name), bits)

    def leaf(self, t):
        env = self.env
        if t in SCALARS or t in TUPLES:
            fmt = SCALARS[t][1] if t in SCALARS else TUPLES[t][1]
            size = sum(FIXED['<' + c] for c in fmt[1:])
            data = env.bytes(self.name(t.lower()), size)
            v = struct.unpack(fmt, data)
            return Node(t, data, v[0] if t in SCALARS else v)
        if t == 'MATRIX4X4':
            data = env.bytes(self.name('matrix'), 64)
            v = struct.unpack('<16f', data)
            return Node(t, data, (v[:4], v[4:8], v[8:12], v[12:]))
        if t == 'STRING':
            s = env.str(self.name('string'), self.strlen)
            if self.strlen > 1 and env.flag(self.name('accent')):
                s = s[:1] + '\xe9\u20ac' + s[1:]
            raw = s.encode('utf-8')
            return Node(t, le(len(raw), 2) + raw, s)
        if t in ('HASH', 'LINK'):
            v = self.uint(32, t.lower())
            return Node(t, le(v, 4), v)
        if t == 'PATH':
            v = self.uint(64, 'path')
            return Node(t, le(v, 8), v)
        raise AssertionError(t)

    def list(self, t, items, vtype):
        data = self.code(vtype) + le(self.uint(32, 'size'), 4) + le(len(items), 4)
        for i in items:
            data += i.data
        return Node(t, data, items, vtype=vtype)

    def option(self, item, vtype):
        if item is None:
            return Node('OPTION', self.code(vtype) + b'\0', None, vtype=vtype)
        flag = self.uint(8, 'has')
        self.env.assume(flag != 0)
        return Node('OPTION', self.code(vtype) + le(flag, 1) + item.data, item, vtype=vtype)

    def map(self, items, ktype, vtype):
        data = self.code(ktype) + self.code(vtype) + le(self.uint(32, 'size'), 4) + le(len(items), 4)
        for k, v in items:
            data += k.data + v.data
        # the keys of a map are distinct
        for i in range(len(items)):
            for j in range(i):
                self.env.assume(items[i][0].value != items[j][0].value)
                if ktype == 'FLOAT':
                    self.env.assume(items[i][0].value == items[i][0].value)
        return Node('MAP', data, items, vtype=vtype, ktype=ktype)

    def fields(self, nodes, distinct=False):
        names = [self.uint(32, 'field') for _ in nodes]
        if distinct:
            for i in range(len(names)):
                for j in range(i):
                    self.env.assume(names[i] != names[j])
        data = b''
        for h, v in zip(names, nodes):
            data += le(h, 4) + self.code(v.type) + v.data
        return list(zip(names, nodes)), data

    def struct(self, t, nodes, distinct=False):
        """STRUCT or EMBEDDED; a structure without type has nothing else"""
        if nodes is None:
            return Node('STRUCT', bytes(4), fields=[], htype=0)
        htype = self.uint(32, 'type')
        if t == 'STRUCT':
            self.env.assume(htype != 0)
        fields, data = self.fields(nodes, distinct)
        return Node(t, le(htype, 4) + le(self.uint(32, 'size'), 4) + le(len(nodes), 2) + data, fields=fields, htype=htype)

    def entry(self, nodes, distinct=False):
        hpath = self.uint(32, 'path')
        htype = self.uint(32, 'type')
        fields, data = self.fields(nodes, distinct)
        data = le(hpath, 4) + le(len(nodes), 2) + data
        return Entry(hpath, htype, fields, le(len(data), 4) + data)


class Entry:
    def __init__(self, hpath, htype, fields, data):
        self.hpath = hpath
        self.htype = htype
        self.fields = fields
        self.data = data


def binfile(entries, version, linked=()):
    data = b'PROP' + le(version, 4)
    if version >= 2:
        data += le(len(linked), 4)
        for s in linked:
            raw = s.encode('utf-8')
            data += le(len(raw), 2) + raw
    data += le(len(entries), 4)
    for e in entries:
        data += le(e.htype, 4)
    for e in entries:
        data += e.data
    return data


def same_float(env, a, b):
    return env.any([a == b, env.all([a != a, b != b])])


def check_floats(env, got, exp):
    env.check(len(got) == len(exp), 'number of components')
    for a, b in zip(got, exp):
        env.check(same_float(env, a, b), 'component')


def check_value(env, t, v, node):
    """A decoded value is the one of the node"""
    env.check(t.name == node.type, 'value type')
    check_same(env, v, node)


def check_same(env, v, node):
    t = node.type
    if t == 'FLOAT':
        env.check(same_float(env, v, node.value), 'float value')
    elif t.startswith('VEC'):
        check_floats(env, v, node.value)
    elif t == 'MATRIX4X4':
        env.check(len(v) == 4, 'matrix rows')
        for a, b in zip(v, node.value):
            check_floats(env, a, b)
    elif t in ('EMPTY', 'RGBA'):
        env.check(env.eq(tuple(v), node.value), 'tuple value')
    elif t in ('HASH', 'PATH', 'LINK'):
        env.check(v.h == node.value, 'hash value')
    elif t in ('LIST', 'LIST2'):
        env.check(v.vtype.name == node.vtype, 'type of elements')
        env.check(len(v.values) == len(node.value), 'number of elements')
        for a, b in zip(v.values, node.value):
            check_same(env, a, b)
    elif t == 'OPTION':
        env.check(v.vtype.name == node.vtype, 'type of option')
        if node.value is None:
            env.check(v.value is None, 'empty option')
        else:
            check_same(env, v.value, node.value)
    elif t == 'MAP':
        env.check(v.ktype.name == node.ktype and v.vtype.name == node.vtype, 'types of map')
        env.check(len(v.values) == len(node.value), 'size of map')
        for (k, a), (kn, b) in zip(v.values.items(), node.value):
            check_same(env, k, kn)
            check_same(env, a, b)
    elif t in ('STRUCT', 'EMBEDDED'):
        env.check(v.type.h == node.htype, 'type of structure')
        check_fields(env, v.fields, node.fields)
    else:
        env.check(v == node.value, f'{t} value')
        if t == 'BOOL':
            env.check(isinstance(v, bool), 'boolean')


def check_fields(env, fields, exp):
    env.check(len(fields) == len(exp), 'number of fields')
    for f, (h, node) in zip(fields, exp):
        env.check(f.name.h == h, 'name of field')
        check_value(env, f.type, f.value, node)


def check_entry(env, e, exp):
    env.check(e.path.h == exp.hpath, 'path of entry')
    env.check(e.type.h == exp.htype, 'type of entry')
    check_fields(env, e.fields, exp.fields)


FILES = ('binentries', 'binhashes', 'binfields', 'bintypes', 'game')


def put_hashes(env, lines=None):
    """Hash files, empty by default"""
    d = env.load('cdtb.hashes').default_hash_dir
    for n in FILES:
        env.fs.put(f'{d}/hashes.{n}.txt', (lines or {}).get(n, b''))
