"""JSON and text forms of BIN files"""
import io
from symx.runner import Case
from harness.util import le
from harness.bintree import Gen, LEAVES, binfile, put_hashes, same_float
from harness.c06 import KINDS, inner, value, like

META = {
    'bounds': 'all value types, nested up to 2 (thorough: 3) levels, 2 items; hashes with and without known name; 2 entries; patch sections of 2 records',
    'outside': 'entries or fields of the same name in one object; maps whose keys are not scalars or hashes; floats which are not finite',
    'assumptions': ['names of hashes are distinct'],
}

NAMES = {'binentries': 'Entry/Name', 'binhashes': 'Hash Name', 'binfields': 'mField', 'bintypes': 'SomeType', 'game': 'assets/path.dds'}


class Names:
    """One known name of each kind, with any hash"""

    def __init__(self, env, m, kinds):
        put_hashes(env)
        self.env = env
        self.keys = {}
        files = {'binentries': m.hashfile_binentries, 'binhashes': m.hashfile_binhashes, 'binfields': m.hashfile_binfields,
                 'bintypes': m.hashfile_bintypes, 'game': m.hashfile_binpaths}
        for k in kinds:
            self.keys[k] = env.uint('known ' + k, 64 if k == 'game' else 32)
            files[k].load()[self.keys[k]] = NAMES[k]

    def __call__(self, kind, h):
        if kind in self.keys and h == self.keys[kind]:
            return NAMES[kind]
        digits = 16 if kind == 'game' else 8
        return '{' + f'{h:0{digits}x}' + '}'


def check_json(env, v, node, names):
    """JSON form of a value"""
    t = node.type
    if t == 'FLOAT':
        env.check(same_float(env, v, node.value), 'float')
    elif t.startswith('VEC'):
        check_floats(env, v, node.value)
    elif t == 'MATRIX4X4':
        env.check(len(v) == 4, 'rows')
        for a, b in zip(v, node.value):
            check_floats(env, a, b)
    elif t in ('EMPTY', 'RGBA'):
        env.check(isinstance(v, (tuple, list)) and env.eq(tuple(v), node.value), 'array of integers')
    elif t in ('HASH', 'PATH', 'LINK'):
        env.check(isinstance(v, str) and v == names({'HASH': 'binhashes', 'PATH': 'game', 'LINK': 'binentries'}[t], node.value), 'name of a hash')
    elif t in ('LIST', 'LIST2'):
        env.check(isinstance(v, list) and len(v) == len(node.value), 'array')
        for a, b in zip(v, node.value):
            check_json(env, a, b, names)
    elif t == 'OPTION':
        if node.value is None:
            env.check(v is None, 'null')
        else:
            check_json(env, v, node.value, names)
    elif t == 'MAP':
        env.check(isinstance(v, dict) and len(v) == len(node.value), 'size of object')
        for (k, a), (kn, b) in zip(v.items(), node.value):
            check_json(env, k, kn, names)
            check_json(env, a, b, names)
    elif t in ('STRUCT', 'EMBEDDED'):
        if t == 'STRUCT' and node.htype == 0:
            env.check(v is None, 'null structure')
        else:
            check_object(env, v, node.fields, node.htype, names)
    else:
        env.check(v == node.value, f'{t} value')
        if t == 'BOOL':
            env.check(isinstance(v, bool), 'boolean')


def check_floats(env, got, exp):
    env.check(isinstance(got, (tuple, list)) and len(got) == len(exp), 'array of numbers')
    for a, b in zip(got, exp):
        env.check(same_float(env, a, b), 'number')


def check_object(env, v, fields, htype, names):
    env.check(isinstance(v, dict) and len(v) == len(fields) + 1, 'number of keys')
    for h, node in fields:
        k = names('binfields', h)
        env.check(k in v, 'name of field')
        check_json(env, v[k], node, names)
    env.check('__type' in v and v['__type'] == names('bintypes', htype), 'type of object')


def parse(env, m, data):
    r = env.call(m.BinFile, io.BytesIO(data))
    env.check(r.ok, 'accepted')
    return r.value


def leaves(env, types):
    m = env.load('cdtb.binfile')
    g = Gen(env)
    node = g.leaf(env.choose('type', types))
    kinds = ['binfields', 'bintypes', 'binentries']
    if node.type in ('HASH', 'PATH'):
        kinds.append({'HASH': 'binhashes', 'PATH': 'game'}[node.type])
    names = Names(env, m, kinds)
    e = g.entry([node])
    b = parse(env, m, binfile([e], 1))
    r = env.call(b.to_serializable)
    env.check(r.ok, 'serialisable')
    s = r.value
    env.check(isinstance(s, dict) and len(s) == 1, 'one entry')
    k = names('binentries', e.hpath)
    env.check(k in s, 'path of entry')
    check_object(env, s[k], e.fields, e.htype, names)
    env.reach('done')


def dump(env, types):
    m = env.load('cdtb.binfile')
    g = Gen(env)
    names = Names(env, m, ['binentries'])
    e = g.entry([g.leaf(env.choose('type', types))])
    e2 = g.entry([])
    check_dump(env, parse(env, m, binfile([e, e2], 1)), [e, e2], names)
    env.reach('done')


def check_dump(env, b, entries, names):
    """The text form has each entry"""
    out = io.StringIO()
    r = env.call(b.dump, out)
    env.check(r.ok, 'text form')
    text = out.getvalue()
    for e in entries:
        p = names('binentries', e.hpath)
        env.check((repr(p) if p[0] != '{' else p) in text, 'entry of text form')


def nested(env, kind, types, depth, kinds=KINDS, maxn=2, known=('binfields',)):
    m = env.load('cdtb.binfile')
    names = Names(env, m, known)
    g = Gen(env, strlen=1)
    node = value(env, g, kind, types, depth, kinds, maxn)
    e = g.entry([node, g.leaf('U8')], distinct=True)
    distinct(env, node)
    b = parse(env, m, binfile([e], 1))
    s = env.call(b.to_serializable)
    env.check(s.ok, 'serialisable')
    k = names('binentries', e.hpath)
    env.check(k in s.value and len(s.value) == 1, 'path of entry')
    check_object(env, s.value[k], e.fields, e.htype, names)
    env.reach('done')


def distinct(env, node):
    """Fields of a structure have different names"""
    if node.type in ('STRUCT', 'EMBEDDED'):
        for i in range(len(node.fields)):
            for j in range(i):
                env.assume(node.fields[i][0] != node.fields[j][0])
            distinct(env, node.fields[i][1])
    elif node.type in ('LIST', 'LIST2'):
        for v in node.value:
            distinct(env, v)
    elif node.type == 'OPTION' and node.value is not None:
        distinct(env, node.value)
    elif node.type == 'MAP':
        for k, v in node.value:
            distinct(env, v)


def file(env, patch):
    m = env.load('cdtb.binfile')
    names = Names(env, m, ('binentries',))
    g = Gen(env, strlen=2)
    n = env.choose('entries', (0, 1, 2))
    entries = [g.entry([g.leaf('U8')][:i]) for i in range(n)]
    if n == 2:
        env.assume(entries[0].hpath != entries[1].hpath)
    version = env.uint('version', 32)
    linked = [env.str('linked', 2)] if env.flag('has linked') else []
    data = binfile(entries, version, linked)
    recs = []
    if patch:
        data = b'PTCH' + le(1, 4) + le(0, 4) + data + le(2, 4)
        for i in range(2):
            h = env.uint(f'patch{i}', 32)
            v = g.leaf('S16')
            data += le(h, 4) + bytes(4) + b'\x04' + le(1, 2) + bytes([97 + i]) + v.data
            recs.append((h, 'ab'[i], v))
    b = parse(env, m, data)
    s = env.call(b.to_serializable)
    env.check(s.ok, 'serialisable')
    s = s.value
    has_linked = version >= 2
    has_patch = patch and version >= 3
    env.check(len(s) == n + (1 if has_linked else 0) + (1 if has_patch else 0), 'keys of the file')
    for e in entries:
        k = names('binentries', e.hpath)
        env.check(k in s, 'path of entry')
        check_object(env, s[k], e.fields, e.htype, names)
    if has_linked:
        env.check('__linked' in s and env.eq(list(s['__linked']), linked), 'linked files')
        env.reach('linked')
    if has_patch:
        p = s['__patches']
        if recs[0][0] == recs[1][0]:
            env.check(len(p) == 1, 'one patched entry')
            o = p[names('binentries', recs[0][0])]
            env.check(len(o) == 2 and o['a'] == recs[0][2].value and o['b'] == recs[1][2].value, 'patched values')
        else:
            env.check(len(p) == 2, 'two patched entries')
            for h, path, v in recs:
                o = p[names('binentries', h)]
                env.check(len(o) == 1 and o[path] == v.value, 'patched value')
        env.reach('patches')
    env.reach('done')


CASES = [
    Case('leaves 1', 'leaves', types=LEAVES[:10], reach=['done']),
    Case('leaves 2', 'leaves', types=LEAVES[10:], reach=['done']),
    Case('dump', 'dump', types=('U8', 'STRING', 'HASH', 'LINK', 'FLOAT'), reach=['done']),
    Case('file', 'file', patch=False, reach=['done', 'linked']),
    Case('patch file', 'file', patch=True, reach=['done', 'linked', 'patches']),
]
for k in KINDS[:-1]:
    CASES.append(Case(f'{k} of leaves', 'nested', kind=k, types=('U8', 'HASH', 'STRING', 'LINK'), depth=1, kinds=(), known=('binhashes', 'binentries'), reach=['done']))
    CASES.append(Case(f'{k} depth 2', 'nested', kind=k, types=('U16',), depth=2, known=(), maxn=1, reach=['done']))
    CASES.append(Case(f'{k} depth 2 names', 'nested', kind=k, types=('U16',), depth=2, known=('bintypes',), quick=False, reach=['done']))
    CASES.append(Case(f'{k} depth 2 more', 'nested', kind=k, types=('U8', 'BOOL', 'VEC2_FLOAT'), depth=2, maxn=3, quick=False, reach=['done']))
