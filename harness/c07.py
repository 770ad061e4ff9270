"""Numbering of BIN types"""
import io
from symx.runner import Case
from harness.util import le
from harness.bintree import Gen, Node, CODES, LEAVES, check_entry, binfile, put_hashes

META = {
    'bounds': 'every type code under every game version from 1 to 65535 and without version, as type of a field, of list elements, options, map keys and values, nested in a structure, and in patch sections',
    'outside': 'versions above 65535',
    'assumptions': ['versions are major * 100 + minor (9.23 is 923, 10.8 is 1008)'],
}

OLD = ('LIST', 'STRUCT', 'EMBEDDED', 'LINK', 'OPTION', 'MAP', 'FLAG')  # before 10.8, in order


def expected(code, version):
    """Type designated by a code"""
    for n, c in CODES.items():
        if n in LEAVES and c < 18 and code == c:
            return n
    if version is None or version >= 1008:
        for n, c in CODES.items():
            if code == c:
                return n
        return None
    if version >= 923:
        if code == 18:
            return 'PATH'
        base = 0x80
    else:
        base = 18
    for i, n in enumerate(OLD):
        if code == base + i:
            return n
    return None


def simple(g, t):
    if t in LEAVES:
        return g.leaf(t)
    if t in ('LIST', 'LIST2'):
        return g.list(t, [g.leaf('U8')], 'U8')
    if t == 'OPTION':
        return g.option(g.leaf('U16'), 'U16')
    if t == 'MAP':
        return g.map([(g.leaf('U8'), g.leaf('U16'))], 'U8', 'U16')
    return g.struct(t, [g.leaf('U32')])


def version_input(env):
    if env.flag('no version'):
        return None
    return env.int('version', 1, 65535)


def parse(env, data, version):
    m = env.load('cdtb.binfile')
    put_hashes(env)
    if version is None and env.flag('omitted'):
        return env.call(m.BinFile, io.BytesIO(data))
    return env.call(m.BinFile, io.BytesIO(data), btype_version=version)


def field(env, where):
    version = version_input(env)
    code = env.uint('code', 8)
    t = expected(code, version)
    g = Gen(env, strlen=1)
    outer = Gen(env, lambda t: le(code, 1), strlen=1)  # writes the code under test
    outer.n = 1000
    node = simple(g, t) if t is not None else g.leaf('U64')
    if where == 'field':
        e = outer.entry([node])
    elif where == 'nested':
        if version is None or version >= 1008:
            c = 0x83
        elif version >= 923:
            c = 0x82
        else:
            c = 20
        top = Gen(env, lambda t: bytes([c]))
        top.n = 2000
        e = top.entry([outer.struct('EMBEDDED', [node])])
    else:
        if where == 'list':
            v = outer.list('LIST', [node] if t is not None else [], node.type)
        elif where == 'option':
            v = outer.option(node if t is not None else None, node.type)
        elif where == 'key':
            if t is not None:
                env.assume(t in LEAVES and t != 'FLOAT' and not t.startswith('VEC') and t != 'MATRIX4X4')
            data = le(code, 1) + b'\x07' + bytes(4)
            if t is None:
                v = Node('MAP', data + le(0, 4), [], vtype='U32', ktype='U32')
            else:
                w = g.leaf('U32')
                v = Node('MAP', data + le(1, 4) + node.data + w.data, [(node, w)], vtype='U32', ktype=t)
        else:
            data = b'\x07' + le(code, 1) + bytes(4)
            if t is None:
                v = Node('MAP', data + le(0, 4), [], vtype='U32', ktype='U32')
            else:
                k = g.leaf('U32')
                v = Node('MAP', data + le(1, 4) + k.data + node.data, [(k, node)], vtype=t, ktype='U32')
        codes = {'LIST': (0x80, 0x80, 18), 'OPTION': (0x85, 0x84, 22), 'MAP': (0x86, 0x85, 23)}[v.type]
        if version is None or version >= 1008:
            c = codes[0]
        elif version >= 923:
            c = codes[1]
        else:
            c = codes[2]
        top = Gen(env, lambda t: bytes([c]))
        top.n = 2000
        e = top.entry([v])
    r = parse(env, binfile([e], 1), version)
    if t is None:
        env.check(not r.ok, 'a code without type is rejected')
        env.reach('invalid')
    else:
        env.check(r.ok, 'a code with a type is accepted')
        check_entry(env, r.value.entries[0], e)
        env.reach(t)


def patch(env):
    version = version_input(env)
    code = env.uint('code', 8)
    t = expected(code, version)
    g = Gen(env, strlen=1)
    node = simple(g, t) if t is not None else g.leaf('U64')
    data = b'PTCH' + le(1, 4) + le(0, 4) + binfile([], 3) + le(1, 4) + bytes(8) + le(code, 1) + bytes(2) + node.data
    r = parse(env, data, version)
    if t is None:
        env.check(not r.ok, 'a code without type is rejected')
        env.reach('invalid')
    else:
        env.check(r.ok, 'a code with a type is accepted')
        f = r.value.patch_entries[0].fields[0]
        env.check(f.type.name == t, 'type of patched value')
        env.reach(t)


ALL = tuple(CODES) + ('invalid',)
CASES = [
    Case('field', 'field', where='field', reach=ALL),
    Case('nested', 'field', where='nested', reach=ALL),
    Case('list', 'field', where='list', reach=ALL),
    Case('option', 'field', where='option', reach=ALL),
    Case('map key', 'field', where='key', reach=('U8', 'STRING', 'PATH', 'invalid')),
    Case('map value', 'field', where='value', reach=ALL),
    Case('patch', 'patch', reach=ALL),
]
