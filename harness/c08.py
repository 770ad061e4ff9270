"""BIN hashes and access by name"""
import io
from symx.runner import Case
from harness.util import le
from harness.bintree import Gen, binfile, put_hashes

META = {
    'bounds': 'names of 0 to 5 (thorough: up to 10) ASCII characters, any 32 or 64 bit hash; known names with any hash; structures and entries of up to 3 fields with any name hashes; access by text, hash, hash object',
    'outside': 'longer names; files of hash names are read by C22',
    'assumptions': ['xxh64 is an uninterpreted function'],
}

PRIME = 0x01000193


def fnv1a(s):
    h = 0x811c9dc5
    for c in s.lower().encode('ascii'):
        h = ((h ^ c) * PRIME) & 0xffffffff
    return h


def name_input(env, name, n):
    return env.str(name, n, alphabet=''.join(map(chr, range(128))))


def binhash(env, lengths):
    m = env.load('cdtb.binfile')
    s = name_input(env, 'name', env.choose('length', lengths))
    exp = fnv1a(s)
    r = env.call(m.compute_binhash, s)
    env.check(r.ok and r.value == exp, 'FNV-1a of the lowercase name')
    if len(s) < 3:
        env.check(m.compute_binhash(s.upper()) == exp, 'uppercase')
    env.check(m.key_to_hash(s) == exp, 'key of a name')
    put_hashes(env)
    for cls in (m.BinHashValue, m.BinEntryPath, m.BinFieldName, m.BinTypeName):
        env.check(cls.compute_hash(s) == exp, 'hash of a name')
        env.check(m.key_to_hash(cls(exp)) == exp, 'key of a hash object')
    env.check(m.BinPathValue.compute_hash(s) == env.hashed('xxh64', s.lower(), 64), 'hash of a file path')
    env.reach('done')


def known_names(env, m, names):
    """Known names with any hash"""
    put_hashes(env)
    keys = []
    for i, n in enumerate(names):
        k = env.uint(f'known{i}', 64 if 'path' in n else 32)
        for k2 in keys:
            env.assume(k != k2)
        keys.append(k)
    return keys


CLASSES = ('BinHashValue', 'BinEntryPath', 'BinFieldName', 'BinTypeName', 'BinPathValue')


def identity(env, cls, lengths):
    m = env.load('cdtb.binfile')
    put_hashes(env)
    c = getattr(m, cls)
    bits = 64 if cls == 'BinPathValue' else 32
    key = env.uint('known', bits)
    name = 'Some/Name'
    if env.flag('known names'):
        c.hashfile.load()[key] = name
        known = True
    else:
        known = False
    h, h2 = env.uint('h', bits), env.uint('h2', bits)
    a, b = c(h), c(h2)
    env.check((a == b) == (h == h2), 'equality of hash values')
    env.check((a != b) == (h != h2), 'inequality of hash values')
    env.check((a == h2) == (h == h2), 'equality with a number')
    env.check((a != h2) == (h != h2), 'inequality with a number')
    d = {a: 1}
    env.check((b in d) == (h == h2), 'as keys')
    env.check((h2 in d) == (h == h2), 'as keys with numbers')
    s = name_input(env, 's', env.choose('length', lengths))
    digits = 16 if bits == 64 else 8
    env.check(a.hex() == f'{h:0{digits}x}', 'hexadecimal form')
    if known and h == key:
        env.check(str(a) == name and a.to_serializable() == name and a == name and not (a != name), 'known name')
        env.check(a.s == name, 'name')
        env.check((a == s) == (s == name), 'equality with another text')
        env.reach('known')
    else:
        env.check(a.s is None, 'no name')
        exp = env.hashed('xxh64', s.lower(), 64) if bits == 64 else fnv1a(s)
        env.check((a == s) == (h == exp), 'equality with a name')
        env.check((a != s) == (h != exp), 'inequality with a name')
        if env.flag('text'):
            env.check(str(a) == '{' + f'{h:0{digits}x}' + '}', 'text of an unknown hash')
        env.reach('unknown')


def access(env, where, nfields, keylen):
    m = env.load('cdtb.binfile')
    put_hashes(env)
    g = Gen(env, strlen=1)
    nodes = [g.leaf('U32') for _ in range(nfields)]
    if where == 'entry':
        e = g.entry(nodes)
        fields = e.fields
        obj = m.BinFile(io.BytesIO(binfile([e], 1))).entries[0]
    else:
        s = g.struct(where, nodes)
        fields = s.fields
        e = g.entry([s])
        obj = m.BinFile(io.BytesIO(binfile([e], 1))).entries[0].fields[0].value
    kind = env.choose('kind', ('name', 'hash', 'object'))
    if kind == 'name':
        key = name_input(env, 'key', keylen)
        h = fnv1a(key)
    else:
        h = env.uint('key', 32)
        key = h if kind == 'hash' else m.BinFieldName(h)
    exp = None
    for fh, node in fields:
        if fh == h:
            exp = node
            break
    env.check((key in obj) == (exp is not None), 'in')
    r = env.call(lambda: obj[key])
    if exp is None:
        env.check(not r.ok and r.exc_name == 'KeyError', 'a missing field raises KeyError')
        env.check(obj.get(key) is None and obj.get(key, 7) == 7, 'default')
        env.check(obj.getv(key) is None and obj.getv(key, 7) == 7, 'default value')
        env.check(obj.get_path(key) is None and obj.get_path(key, default=7) == 7, 'default of path')
        env.reach('missing')
    else:
        env.check(r.ok and r.value.name.h == h and r.value.value == exp.value, 'field')
        env.check(obj.get(key) is r.value and obj.get(key, 7) is r.value, 'get')
        env.check(obj.getv(key) == exp.value and obj.getv(key, 7) == exp.value, 'value')
        env.check(obj.get_path(key) == exp.value, 'path')
        env.reach('found')
    # assignment replaces the field, or adds it
    n = len(obj.fields)
    new = m.BinField(h, m.BinType.U8, 5)
    obj[key] = new
    env.check(obj[key] is new and obj.getv(key) == 5, 'assigned field')
    env.check(len(obj.fields) == (n if exp is not None else n + 1), 'number of fields')
    k = 0
    for f, (fh, node) in zip(obj.fields, fields):
        if f is not new:
            env.check(f.name.h == fh and f.value == node.value, 'other fields are kept')
            k += 1
    env.check(k == n - (exp is not None), 'one field is replaced')


def values(env):
    """Values of fields as Python objects"""
    m = env.load('cdtb.binfile')
    put_hashes(env)
    g = Gen(env, strlen=2)
    kind = env.choose('kind', ('LIST', 'LIST2', 'MAP', 'OPTION', 'NONE', 'STRING', 'EMBEDDED', 'STRUCT'))
    if kind in ('LIST', 'LIST2'):
        items = [g.leaf('U8'), g.leaf('U8')]
        node = g.list(kind, items, 'U8')
        exp = [i.value for i in items]
    elif kind == 'MAP':
        k, v = g.leaf('U8'), g.leaf('STRING')
        node = g.map([(k, v)], 'U8', 'STRING')
        exp = None
    elif kind == 'OPTION':
        v = g.leaf('S32')
        node = g.option(v, 'S32')
        exp = v.value
    elif kind == 'NONE':
        node = g.option(None, 'S32')
        exp = None
    elif kind == 'STRING':
        node = g.leaf('STRING')
        exp = node.value
    else:
        leaf = g.leaf('U16')
        node = g.struct(kind, [leaf])
    e = g.entry([node])
    h = e.fields[0][0]
    obj = m.BinFile(io.BytesIO(binfile([e], 1))).entries[0]
    got = obj.getv(h, 'default')
    if kind == 'MAP':
        env.check(len(got) == 1, 'size of map')
        for a, b in got.items():
            env.check(a == k.value and b == v.value, 'item of map')
    elif kind in ('STRUCT', 'EMBEDDED'):
        env.check(got is obj[h].value, 'structure')
        h2 = node.fields[0][0]
        env.check(obj.get_path(h, h2) == leaf.value, 'path')
        h3 = env.uint('other', 32)
        if h3 != h2:
            env.check(obj.get_path(h, h3, default='no') == 'no', 'missing path')
        if h3 != h:
            env.check(obj.get_path(h3, h2, default='no') == 'no', 'missing start of path')
    elif kind == 'NONE':
        env.check(got is None, 'empty option')
    else:
        env.check(env.eq(got, exp), 'value')
        env.check(env.eq(obj.get_path(h), exp), 'value of path')
    env.reach(kind)


CASES = [
    Case('names', 'binhash', lengths=(0, 1, 2, 3, 5), reach=['done']),
    Case('long names', 'binhash', lengths=(7, 10), quick=False, reach=['done']),
    Case('values', 'values', reach=('LIST', 'LIST2', 'MAP', 'OPTION', 'NONE', 'STRING', 'EMBEDDED', 'STRUCT')),
]
for c in CLASSES:
    CASES.append(Case(f'identity {c}', 'identity', cls=c, lengths=(1, 3), reach=['known', 'unknown']))
for w in ('entry', 'STRUCT', 'EMBEDDED'):
    CASES.append(Case(f'access {w}', 'access', where=w, nfields=2, keylen=3, reach=['missing', 'found']))
    CASES.append(Case(f'access {w} 0', 'access', where=w, nfields=0, keylen=1, reach=['missing']))
    CASES.append(Case(f'access {w} 3', 'access', where=w, nfields=3, keylen=5, quick=False, reach=['missing', 'found']))
