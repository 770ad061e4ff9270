"""Decoding of BIN files"""
import io
from symx.runner import Case
from harness.util import le
from harness import bintree
from harness.bintree import Gen, LEAVES, CODES, check_entry, check_value, binfile, put_hashes

META = {
    'bounds': 'all 27 value types with any value (strings of up to 2 ASCII and 2 other characters), lists, maps, options and structures of up to 2 (thorough: 3) items nested up to 3 levels; '
              'up to 3 entries of up to 3 fields, up to 2 linked files; patch sections of up to 3 records; any version, hash, declared size and magic number; strings of up to 65535 characters and up to 300 items, fields, entries or linked files, most of them given; files cut at any point of their last entry',
    'outside': 'more items, deeper nesting, other long strings; maps with repeated keys or keys which are containers',
    'assumptions': ['hash files are present'],
}


def parse(env, data, path=False):
    m = env.load('cdtb.binfile')
    put_hashes(env)
    if path:
        env.fs.put('/work/a.bin', data)
        return env.call(m.BinFile, '/work/a.bin')
    return env.call(m.BinFile, io.BytesIO(data))


def leaves(env, types):
    g = Gen(env)
    node = g.leaf(env.choose('type', types))
    after = g.leaf('U16')
    e = g.entry([node, after])
    version = env.uint('version', 32)
    r = parse(env, binfile([e], version))
    env.check(r.ok, 'accepted')
    b = r.value
    env.check(b.version == version, 'version')
    env.check(not b.is_patch and b.patch_entries is None, 'no patch')
    env.check(len(b.entries) == 1, 'one entry')
    check_entry(env, b.entries[0], e)
    env.reach('done')


def header(env, nentries, nlinked, path=False):
    g = Gen(env)
    version = env.uint('version', 32)
    n = env.choose('entries', nentries)
    linked = ['linked' + str(i) for i in range(env.choose('linked', nlinked))]
    linked = [env.str(s, i + 1) for i, s in enumerate(linked)]
    entries = []
    for i in range(n):
        entries.append(g.entry([g.leaf('U8') for _ in range(i)]))
    r = parse(env, binfile(entries, version, linked), env.flag('path'))
    env.check(r.ok, 'accepted')
    b = r.value
    env.check(b.version == version, 'version')
    if version >= 2:
        env.check(b.linked_files is not None and len(b.linked_files) == len(linked), 'linked files')
        for x, y in zip(b.linked_files, linked):
            env.check(x == y, 'linked file')
        env.reach('linked')
    else:
        env.check(b.linked_files is None, 'no linked file')
        env.reach('not linked')
    env.check(len(b.entries) == n, 'number of entries')
    for e, x in zip(b.entries, entries):
        check_entry(env, e, x)


INNER = ('U8', 'S32', 'STRING', 'HASH')


def inner(env, g, types, depth, kinds):
    """Any value, up to some depth"""
    kind = env.choose(g.name('kind'), (('leaf',) + kinds) if depth else ('leaf',))
    return value(env, g, kind, types, depth, kinds)


def value(env, g, kind, types, depth, kinds, maxn=2):
    if kind == 'leaf':
        return g.leaf(env.choose(g.name('leaf'), types))
    if kind == 'NULL':
        return g.struct('STRUCT', None)
    if kind in ('LIST', 'LIST2'):
        n = env.choose(g.name('n'), range(maxn + 1))
        if not n:
            return g.list(kind, [], env.choose(g.name('vtype'), ('U8', 'EMBEDDED')))
        first = inner(env, g, types, depth - 1, kinds)
        return g.list(kind, [first] + [like(g, first) for _ in range(n - 1)], first.type)
    if kind == 'OPTION':
        if env.flag(g.name('some')):
            v = inner(env, g, types, depth - 1, kinds)
            return g.option(v, v.type)
        return g.option(None, env.choose(g.name('vtype'), ('STRING', 'MAP')))
    if kind == 'MAP':
        n = env.choose(g.name('n'), range(maxn + 1))
        ktype = env.choose(g.name('ktype'), ('U8', 'STRING', 'HASH', 'LINK', 'PATH', 'S32')[:1 + len(types)])
        if not n:
            return g.map([], ktype, 'LIST')
        first = inner(env, g, types, depth - 1, kinds)
        return g.map([(g.leaf(ktype), first)] + [(g.leaf(ktype), like(g, first)) for _ in range(n - 1)], ktype, first.type)
    n = env.choose(g.name('n'), range(maxn + 1))
    return g.struct(kind, [inner(env, g, types, depth - 1, kinds)] + [g.leaf('S16') for _ in range(n - 1)] if n else [])


def like(g, node):
    """Another value of the same shape"""
    if node.type in LEAVES:
        return g.leaf(node.type)
    if node.type in ('LIST', 'LIST2'):
        return g.list(node.type, [like(g, i) for i in node.value], node.vtype)
    if node.type == 'OPTION':
        return g.option(None, node.vtype)
    if node.type == 'MAP':
        return g.map([(g.leaf(node.ktype), like(g, v)) for _, v in node.value], node.ktype, node.vtype)
    return g.struct(node.type, [g.leaf('U8')])


KINDS = ('LIST', 'LIST2', 'OPTION', 'MAP', 'STRUCT', 'EMBEDDED', 'NULL')


def containers(env, kind, types, depth, kinds=KINDS, maxn=2):
    g = Gen(env, strlen=1)
    node = value(env, g, kind, types, depth, kinds, maxn)
    e = g.entry([node, g.leaf('U32')])
    r = parse(env, binfile([e], 1))
    env.check(r.ok, 'accepted')
    check_entry(env, r.value.entries[0], e)
    env.reach('done')


def of_leaf(env, kind):
    """Containers of each type"""
    g = Gen(env, strlen=1)
    t = env.choose('type', LEAVES)
    if kind == 'OPTION':
        node = g.option(g.leaf(t), t)
    elif kind == 'MAP value':
        node = g.map([(g.leaf('U8'), g.leaf(t))], 'U8', t)
    elif kind == 'MAP key':
        env.assume(t not in ('FLOAT', 'VEC2_FLOAT', 'VEC3_FLOAT', 'VEC4_FLOAT', 'MATRIX4X4'))
        node = g.map([(g.leaf(t), g.leaf('U16'))], t, 'U16')
    else:
        node = g.list(kind, [g.leaf(t), g.leaf(t)], t)
    e = g.entry([node, g.leaf('U8')])
    r = parse(env, binfile([e], 3))
    env.check(r.ok, 'accepted')
    check_entry(env, r.value.entries[0], e)
    env.reach('done')


def patch(env, n, types):
    g = Gen(env, strlen=1)
    version = env.uint('version', 32)
    entries = [g.entry([g.leaf('U8')])]
    data = b'PTCH' + le(1, 4) + le(0, 4) + binfile(entries, version)
    recs = []
    body = le(n, 4)
    for i in range(n):
        h = env.uint(f'patch{i}', 32)
        path = env.str(f'object{i}', i)
        v = g.leaf(env.choose(f'type{i}', types))
        body += le(h, 4) + le(g.uint(32), 4) + bytes([CODES[v.type]]) + le(len(path), 2) + path.encode('utf-8') + v.data
        recs.append((h, path, v))
    r = parse(env, data + body)
    env.check(r.ok, 'accepted')
    b = r.value
    env.check(b.is_patch, 'patch')
    check_entry(env, b.entries[0], entries[0])
    if version < 3:
        env.check(b.patch_entries is None, 'no patch section')
        env.reach('no section')
        return
    groups = []
    for h, path, v in recs:
        for hg, items in groups:
            if hg == h:
                items.append((path, v))
                break
        else:
            groups.append((h, [(path, v)]))
    env.check(len(b.patch_entries) == len(groups), 'number of patched entries')
    for e, (h, items) in zip(b.patch_entries, groups):
        env.check(e.path.h == h, 'path of patched entry')
        env.check(len(e.fields) == len(items), 'number of patched values')
        for f, (path, v) in zip(e.fields, items):
            env.check(f.path == path, 'path of patched value')
            check_value(env, f.type, f.value, v)
    env.reach(f'{len(groups)} groups')


def rejected(env):
    g = Gen(env)
    kind = env.choose('kind', ('magic', 'patch magic', 'patch header', 'type', 'inner type', 'length', 'patch type'))
    e = g.entry([g.leaf('U32')])
    good = binfile([e], 3)
    if kind == 'magic':
        magic = env.bytes('magic', 4)
        env.assume(magic != b'PROP')
        env.assume(magic != b'PTCH')
        r = parse(env, magic + good[4:])
    elif kind == 'patch magic':
        magic = env.bytes('magic', 4)
        env.assume(magic != b'PROP')
        r = parse(env, b'PTCH' + le(1, 4) + le(0, 4) + magic + good[4:] + bytes(4))
    elif kind == 'patch header':
        header = env.bytes('header', 8)
        env.assume(header != le(1, 4) + le(0, 4))
        r = parse(env, b'PTCH' + header + good + bytes(4))
    elif kind == 'length':
        n = env.uint('length', 32)
        env.assume(n != len(e.data) - 4)
        r = parse(env, good[:-len(e.data)] + le(n, 4) + e.data[4:])
    else:
        code = env.uint('code', 8)
        for c in CODES.values():
            env.assume(code != c)
        if kind == 'type':
            e = Gen(env, lambda t: le(code, 1)).entry([g.leaf('U32')])
            r = parse(env, binfile([e], 3))
        elif kind == 'inner type':
            bad = Gen(env, lambda t: le(code, 1))
            which = env.choose('container', ('LIST', 'OPTION', 'MAP'))
            node = bad.list('LIST', [], 'U8') if which == 'LIST' else bad.option(None, 'U8') if which == 'OPTION' else bad.map([], 'U8', 'U8')
            r = parse(env, binfile([g.entry([node])], 3))
        else:
            r = parse(env, b'PTCH' + le(1, 4) + le(0, 4) + good + le(1, 4) + bytes(8) + le(code, 1) + bytes(20))
    env.check(not r.ok, 'rejected')
    env.reach(kind)


def truncated(env, types):
    g = Gen(env, strlen=2)
    e = g.entry([g.leaf('U8'), g.leaf(env.choose('type', types))])
    data = binfile([e], 3, ['ab'])
    n = env.choose('cut', range(len(data)))
    r = parse(env, data[:n])
    env.check(not r.ok, 'a truncated file is rejected')
    env.reach('done')


def numbered(g, nodes):
    """Fields with given names"""
    data = b''
    for i, v in enumerate(nodes):
        data += le(i + 1, 4) + g.code(v.type) + v.data
    return [(i + 1, v) for i, v in enumerate(nodes)], data


def big(env, kind, counts):
    """Many items, and long strings"""
    g = Gen(env)
    n = env.choose('count', counts)
    few = (0, n // 2, n - 1)
    bytes_ = [g.leaf('U8') if i in few else bintree.Node('U8', bytes([i & 0xff]), i & 0xff) for i in range(n)] if kind not in ('string', 'linked') else []
    linked, first = [], g.leaf('U32')
    entries = []
    if kind in ('string', 'linked'):
        s = env.str('start', 2) + ('abcdefgh' * (n // 8))[:n - 3] + env.str('end', 1)
        if kind == 'linked':
            linked = ['x', s, 'y']
        else:
            first = bintree.Node('STRING', le(len(s), 2) + s.encode('utf-8'), s)
    elif kind == 'list':
        first = g.list(env.choose('list', ('LIST', 'LIST2')), bytes_, 'U8')
    elif kind == 'map':
        first = bintree.Node('MAP', g.code('U16') + g.code('U8') + le(3 * n, 4) + le(n, 4), [], vtype='U8', ktype='U16')
        for i, b in enumerate(bytes_):
            first.value.append((bintree.Node('U16', le(i, 2), i), b))
            first.data += le(i, 2) + b.data
    elif kind == 'fields':
        t = env.choose('structure', ('STRUCT', 'EMBEDDED'))
        fields, data = numbered(g, bytes_)
        first = bintree.Node(t, le(77, 4) + le(len(data), 4) + le(n, 2) + data, fields=fields, htype=77)
    elif kind == 'entry':
        fields, data = numbered(g, bytes_)
        data = le(5, 4) + le(n, 2) + data
        entries.append(bintree.Entry(5, 6, fields, le(len(data), 4) + data))
    elif kind == 'entries':
        for i, b in enumerate(bytes_):
            fields, data = numbered(g, [b])
            data = le(i, 4) + le(1, 2) + data
            entries.append(bintree.Entry(i, i + 7, fields, le(len(data), 4) + data))
    elif kind == 'linked files':
        linked = [str(i) for i in range(n)]
    entries.append(g.entry([first, g.leaf('U16')]))
    r = parse(env, binfile(entries, 2, linked))
    env.check(r.ok, 'accepted')
    b = r.value
    env.check(env.eq(list(b.linked_files), linked), 'linked files')
    env.check(len(b.entries) == len(entries), 'number of entries')
    for e, x in zip(b.entries, entries):
        check_entry(env, e, x)
    env.reach('done')


CASES = [
    *[Case(f'many or long: {k}', 'big', kind=k, counts=(255, 256, 300), reach=['done'])
      for k in ('list', 'map', 'fields', 'entry', 'entries', 'linked files')],
    *[Case(f'many or long: {k}', 'big', kind=k, counts=(127, 128, 255, 256, 32767, 32768, 65535), reach=['done']) for k in ('string', 'linked')],
    Case('leaves 1', 'leaves', types=LEAVES[:10], reach=['done']),
    Case('leaves 2', 'leaves', types=LEAVES[10:], reach=['done']),
    Case('header', 'header', nentries=(0, 1, 2), nlinked=(0, 1, 2), reach=['linked', 'not linked']),
    Case('header 3', 'header', nentries=(3, 4), nlinked=(0, 3), reach=['linked', 'not linked'], quick=False),
    Case('patch 0', 'patch', n=0, types=('U8',), reach=['no section', '0 groups']),
    Case('patch 2', 'patch', n=2, types=('U8', 'STRING', 'HASH'), reach=['no section', '1 groups', '2 groups']),
    Case('patch 3', 'patch', n=3, types=('U16',), reach=['1 groups', '2 groups', '3 groups']),
    Case('rejected', 'rejected', reach=['magic', 'patch magic', 'patch header', 'type', 'inner type', 'length', 'patch type']),
    Case('truncated', 'truncated', types=('U64', 'STRING', 'MATRIX4X4'), reach=['done']),
]
for k in ('LIST', 'LIST2', 'OPTION', 'MAP value', 'MAP key'):
    CASES.append(Case(f'{k} of each type', 'of_leaf', kind=k, reach=['done']))
for k in KINDS[:-1]:
    CASES.append(Case(f'{k} depth 2', 'containers', kind=k, types=('U8', 'STRING'), depth=2, reach=['done']))
    CASES.append(Case(f'{k} depth 3', 'containers', kind=k, types=('U8',), depth=3, kinds=('LIST', 'MAP', 'EMBEDDED'), maxn=1, reach=['done']))
    CASES.append(Case(f'{k} depth 2 more', 'containers', kind=k, types=('U8', 'HASH', 'FLOAT', 'RGBA'), depth=2, maxn=3, quick=False, reach=['done']))
    CASES.append(Case(f'{k} depth 3 more', 'containers', kind=k, types=('U8',), depth=3, maxn=1, quick=False, reach=['done']))
