"""Paths found in the content of files"""
from symx.runner import Case
from harness.util import LOWER, UPPER, wad_header, wad_entry, wild, le
from harness.c34 import Run, GD, is_in

META = {
    'bounds': 'archives of up to 3 files with one path in the content of interest, whose marked characters are all those of an alphabet, non-ASCII bytes included; lengths before paths of any 16-bit (bin) or 32-bit (other files) value; files which are unreadable, redirections, no text or no known JSON documents',
    'outside': 'longer contents; JSON documents of a known kind with unexpected values inside',
    'assumptions': ['xxh64 is a function', 'zstd may fail'],
}
ALPHA = 'Xb9./ "'


def archive(env, files, kind, toc=None):
    """A WAD with files: (path or None, content, type)"""
    w = env.load('cdtb.wad')
    hashes = {}
    head = wad_header(4, len(files))
    off = 272 + 32 * len(files)
    body = b''
    for i, (path, content, t) in enumerate(files):
        if path is not None:
            hashes[i + 1] = path
        head = head + wad_entry(i + 1, off + len(body), len(content), len(content), t)
        body = body + content
    name = '/work/a.wad' + ('.client' if kind == 'game' else '')
    env.fs.put(name, head + body)
    return w.Wad(name, hashes=hashes)


class Grep(Run):
    def __init__(self, env, kind, files, known=('x/y.z',)):
        super().__init__(env, kind, list(known), env.choose('found', (None, 0)), False)
        self.kind = kind
        self.wad = archive(env, files, kind)

    def found(self, required, what, method=None, *args, **kw):
        env = self.env
        self.tried.clear()
        env.hash_hook = self._hash
        r = env.call(getattr(self.g, method), *args, **kw) if method else env.call(self.g.grep_wad, self.wad)
        env.hash_hook = None
        env.check(r.ok, 'files are searched')
        have = {env.key(t): t for t in self.tried}
        for t in required:
            if env.key(t) not in have:
                env.check(env.any([x == t for x in have.values() if len(x) == len(t)]), what + ' are tried')
        env.check(True, what + ' are tried')
        if self.hit is not None and self.hit < len(self.tried):
            env.check(HIT_OK(env, self), 'what is found is known')
        env.reach('found' if required else 'nothing')


def HIT_OK(env, r):
    from harness.c34 import HIT
    return HIT in r.g.known and HIT not in r.g.unknown and env.eq(r.g.known[HIT], r.tried[r.hit])


def raw(env, name, shape, alphabet=ALPHA, high=False):
    """Bytes of a shape in which question marks are any of an alphabet, or any byte"""
    if not high:
        return wild(env, name, shape, alphabet).encode('ascii')
    out = b''
    for i, c in enumerate(shape):
        out = out + (env.bytes(f'{name}[{i}]', 1) if c == '?' else c.encode('ascii'))
    return out


def text(b):
    """Lower case text of bytes, None if they are not ASCII"""
    if any(c > 127 for c in b):
        return None
    return b.lower().decode('ascii')


SHADER_EXT = ('.ps_2_0', '.ps_3_0', '.vs_2_0', '.vs_3_0', '.ps', '.vs')
SHADER_VAR = ('.dx11', '.dx9', '.dx9sm3', '.glsl', '.metal', '-dx11', '-metal')


def lua(p, all=True):
    return [p] + [p[:-4] + x for x in ('.luabin', '.luabin64') + (('.preload',) if all else ())]


def bin_paths(p):
    """Candidates for a string of a bin file"""
    if p.startswith('characters'):
        return [p, 'assets/' + p, 'data/' + p]
    if p.endswith('.lua'):
        return lua(p)
    if p.startswith('shaders'):
        out = ['assets/shaders/generated/' + p + e for e in SHADER_EXT]
        return out + [x + v for x in out for v in SHADER_VAR]
    if p.startswith('maps/mapgeometry/'):
        return ['data/' + p + '.mapgeo', 'data/' + p + '.materials.bin']
    if any(p.startswith(x) for x in ('clientstates', 'patching', 'loadouts', 'maps')):
        out = [p]
        cut = [i for i in range(len(p)) if p[i] == '/']
        out += [p[:i] for i in cut[-2:]]
        return out
    if p.endswith('.png'):
        return [p, p[:-4] + '.dds']
    return [p]


def bins(env, prefix, rest, high=False, known=True):
    """Strings of bin files"""
    ext = env.choose('extension', ('bin', 'inibin'))
    s = raw(env, 'string', prefix + rest, ALPHA, high)
    n = env.uint('length', 16)
    before = env.choose('before', (b'', b'A'))
    after = env.bytes('after', 1) if high else b'\0'
    g = Grep(env, 'game', [('x/a.' + ext, before + n.to_bytes(2, 'little') + s + after, 0), ('x/b.bin', b'\x06\0DATA/z', 0)])
    required = ['data/z']
    # another prefix may follow by chance, or begin before
    t = text((s + after)[:n])
    if t is not None and n >= len(prefix):
        required += bin_paths(t)
    g.found(required, 'strings of bin files')


def bin_start(env):
    """Strings at the very start of bin files"""
    d = env.bytes('before', env.choose('bytes before', (0, 1)))
    g = Grep(env, 'game', [('x/a.bin', d + b'DATA/x', 0), ('x/b.bin', b'\x06\0DATA/z', 0)])
    g.found(['data/z'], 'strings of bin files')


def two_strings(env):
    """Several strings of a file"""
    a = raw(env, 'a', 'ASSETS/?', 'aB.')
    b = raw(env, 'b', 'DATA/??', 'aB.')
    gap = env.bytes('gap', env.choose('gap size', (0, 1)))
    g = Grep(env, 'game', [('x/a.bin', le(len(a), 2) + a + gap + le(len(b), 2) + b, 0)])
    g.found(bin_paths(text(a)) + bin_paths(text(b)), 'all strings of bin files')


def preloads(env, shape, high=False):
    path = env.choose('path', ('d/e/x.preload', 'x.preload'))
    s = raw(env, 'name', shape, 'A./_', high)
    other = env.choose('other', ('b.lua', 'C.troy', 'd'))
    g = Grep(env, 'game', [(path, b'<a Name="' + s + b'" x="y"/>\n<b Name="' + other.encode('ascii') + b'"', 0)])
    names = [other.lower()]
    if all(c != 34 for c in s):
        names.append(text(s))
    out = []
    for t in names:
        if t is None:
            continue
        if t.endswith('.lua'):
            out += lua(t, False)
        elif t.endswith('.troy'):
            out.append('data/shared/particles/' + t[:-5] + '.troybin')
        elif path == 'x.preload':
            pass  # no directory
        else:
            out.append('d/e/' + t + '.preload')
    g.found(out, 'names of preload files')


def includes(env, high=False):
    ext = env.choose('extension', ('hls', 'ps_2_0', 'ps_3_0', 'vs_2_0', 'vs_3_0'))
    s = raw(env, 'include', env.choose('shape', ('?B', '../?x')), 'A.b', high)
    g = Grep(env, 'game', [('d/e/x.' + ext, b'#include "' + s + b'"\n#include "../c/Dd.h"', 0)])
    out = ['d/c/dd.h']
    t = text(s) if all(c != 34 for c in s) else None
    if t is not None and len(t) > 1 and not is_in(t[-2], '/\\') and not (t[-2] == '.' and is_in(t[-1], './')):
        out.append('d/' + t[3:] if t.startswith('../') else 'd/e/' + t)
    g.found(out, 'includes of shaders')


def atlases(env, high=False):
    s = raw(env, 'line', 'A?b', 'A./_', high)
    end = env.choose('end', (b'', b'\n'))
    g = Grep(env, 'game', [('d/e/x.atlas', b'One.PNG\n' + s + b'\nother.dds' + end, 0)])
    out = ['d/e/one.png', 'd/e/other.dds']
    t = text(s)
    if t is not None and t[1] != '\n':
        out.append('d/e/' + t)
    g.found(out, 'lines of atlases')


PREFIXES = ('ASSETS', 'Common', 'DATA', 'DATA_SOON', 'DATA_Soon', 'Gameplay', 'Global', 'LEVELS', 'Loadouts', 'UX', 'UIAutoAtlas')


def other_files(env, how, prefixes, rest='/?b?', high=False, sizes=(0, 1, 2, 4)):
    """Other files"""
    prefix = env.choose('prefix', prefixes)
    s = raw(env, 'string', prefix + rest, ALPHA, high)
    size = env.choose('length size', sizes)
    n = env.uint('length', 32)
    if size == 0:
        head = b''
    elif size == 4:
        head = n.to_bytes(4, 'little')
    else:
        env.assume(n < (1 << 8 * size))
        head = n.to_bytes(size, 'little')
    data = head + s
    if how == 'wad':
        g = Grep(env, 'game', [('x/a.txt', data, 0)])
        args = ()
    else:
        g = Grep(env, 'game', [])
        if how == 'path':
            env.fs.put('/work/file', data)
            args = ('grep_file', '/work/file')
        else:
            args = ('grep_file',)
    # lengths are no parts of paths
    env.assume(env.any([n < 32, n == 0xffff, n == 0xffffffff, env.all([n % 65536 == 0, n < 32 << 16])]))
    # the longest run of characters of paths
    p = text(prefix.encode('ascii')) + '/'
    i = len(prefix) + 1
    while i < len(s) and any([bool(lo <= s[i]) and bool(s[i] <= hi) for lo, hi in ((48, 57), (65, 90), (97, 122), (95, 95), (46, 47), (32, 32), (45, 45))]):
        p = p + text(s[i:i + 1])
        i += 1
    out = []
    if i > len(prefix) + 1:
        cand = [p]
        short = None
        if size == 2:
            short = n
        elif size == 4:
            short = n // 65536
            if short == 0:
                short = n
        if short is not None and short < len(p):
            cand.append(p[:short])
        for c in cand:
            c = c.replace('data_soon/', 'data/')
            out += lua(c) if c.endswith('.lua') else [c]
    g.found(out, 'paths of files', *args, **({'data': data} if how == 'data' else {}))


def file_arguments(env):
    g = Grep(env, 'game', [])
    r = env.call(g.g.grep_file)
    env.check(not r.ok and r.exc_name == 'TypeError', 'something has to be searched')
    env.reach('refused')


def skipped(env, kind):
    """Files which cannot be read don't stop the others"""
    env.libs['zstd_fails'] = 'always'
    t = env.choose('type', (2, 4, 0))
    content = env.choose('content', (b'\x03\0\0\0a/b', b'\0\0\0\0', b'\xff\xfe\0', b'not zstd')[:2 if t == 2 else None])
    ext = env.choose('extension', ('txt', 'json', 'bin', 'preload', 'atlas', None))
    good = b'\x06\0DATA/z' if kind == 'game' else b' /DATA/z'
    g = Grep(env, kind, [(None if ext is None else 'x/a.' + ext, content, t), ('x/b.bin' if kind == 'game' else 'x/b.txt', good, 0)])
    g.found(['data/z' if kind == 'game' else GD + 'data/z'], 'paths of the other files')


def names_only(env):
    """Kinds of files which have no paths are not read"""
    ext = env.choose('extension', ('dds', 'jpg', 'png', 'ogg', 'webm', 'skn', 'tex', 'bnk'))
    g = Grep(env, 'game', [('x/a.' + ext, b'any data', 3), ('x/b.bin', b'\x06\0DATA/z', 0)])
    g.found(['data/z'], 'paths of the other files')


# ---------------------------------------------------------------- LCU

def urls(env, before, shape, high=False):
    """Known forms of paths in texts"""
    b = raw(env, 'before', before, 'a"/ ')
    s = raw(env, 'path', shape, 'Ab/._" ')
    g = Grep(env, 'lcu', [(env.choose('path', (None, 'x/a.js')), b + s + env.choose('after', (b'', b'"', b'\n')), 0)])
    t = s.decode('ascii')
    prev = b.decode('ascii')[-1:]
    word = len(prev) > 0 and (prev == 'a')
    out = []

    def run(i):
        j = i
        while j < len(t) and not is_in(t[j], '" '):
            j += 1
        return t[i:j].lower()
    if t.startswith('/fe/'):
        i = 4
        while i < len(t) and not t[i] == '/':
            i += 1
        if 4 < i < len(t) and len(run(i + 1)):
            out.append('plugins/rcp-fe-' + t[4:i].lower() + '/global/default/' + run(i + 1))
    elif t.startswith('/DATA/'):
        if len(run(6)):
            out.append(GD + 'data/' + run(6))
    elif t.startswith('lol-game-data/assets/'):
        if len(run(21)) and not word:
            out.append(GD + run(21))
    g.found(out, 'paths of texts')


def relative(env, before, shape, after='"', known=('plugins/a/b/x.js', 'plugins/c/y.js')):
    """Relative paths are tried in each directory"""
    b = raw(env, 'before', before, '" /\'=')
    s = raw(env, 'path', shape, 'Ab/_-')
    g = Grep(env, 'lcu', [(None, b + s + after.encode('ascii'), 0)], known)
    dirs = ['plugins', 'plugins/a', 'plugins/a/b', 'plugins/c']
    t = s.decode('ascii')
    prev = b[-1]
    if t.startswith('.'):
        ok = not is_in(chr_of(prev), '/')
    elif t.startswith('<'):
        ok = True
        t = None
    else:
        ok = is_in(chr_of(prev), '"\'')
    out = [d + '/' + t.lower() for d in dirs] if ok and t is not None else []
    g.found(out, 'relative paths')


def chr_of(c):
    return bytes_1(c).decode('ascii')


def bytes_1(c):
    return c.to_bytes(1, 'little')


def templates(env):
    s = raw(env, 'name', '?b?', 'A-_')
    g = Grep(env, 'lcu', [(None, b'<template id="x-template-' + s + b'">\n//# sourceMappingURL=d/' + s + b'.js.map', 0)], ['plugins/a/x.js'])
    t = s.decode('ascii').lower()
    g.found(['plugins/a/' + t + '/template.html', 'plugins/a/d/' + t + '.js'], 'templates and source maps')


def to_json(x):
    """JSON text; strings have no special characters"""
    if isinstance(x, dict):
        out = '{'
        for i, (k, v) in enumerate(x.items()):
            out = out + (', ' if i else '') + to_json(k) + ': ' + to_json(v)
        return out + '}'
    if isinstance(x, list):
        out = '['
        for i, v in enumerate(x):
            out = out + (', ' if i else '') + to_json(v)
        return out + ']'
    return str(x) if isinstance(x, int) else '"' + x + '"'


JSONS = {
    'null': None, 'true': True, 'number': 5, 'string': 'pluginDependencies name', 'list': ['pluginDependencies', 'name'], 'numbers': [1],
    'empty': {}, 'other': {'name': 'x'}, 'huge': None, 'deep': None,
}


def documents(env):
    """JSON documents of any kind"""
    kind = env.choose('document', list(JSONS))
    data = b'1' * 5000 if kind == 'huge' else b'[' * 100000 if kind == 'deep' else env.json_bytes(JSONS[kind])
    path = env.choose('path', ('x/a.json', 'plugins/rcp-fe-lol-loot/global/default/trans.json'))
    g = Grep(env, 'lcu', [(path, env.choose('mark', (b'', b'\xef\xbb\xbf')) + data, 0), ('x/b.txt', b' /DATA/z', 0)])
    g.found([GD + 'data/z'], 'paths of the other files')


def known_documents(env):
    """Documents of known kinds"""
    kind = env.choose('document', ('loot', 'plugin', 'splash', 'champions', 'items'))
    path = 'x/a.json'
    if kind == 'loot':
        k = env.str('key', 2, 'aB_')
        path = 'plugins/rcp-fe-lol-loot/global/default/trans.json'
        doc = {'other': 'x', k: 'y'}
        out = [GD + 'v1/hextech-images/' + k + '.png', GD + 'v1/hextech-images/other.png']
    elif kind == 'plugin':
        name = 'rcp-' + env.str('name', 2, 'aB-')
        doc = {'name': name, 'pluginDependencies': {}}
        out = [f'plugins/{name}/global/default/{x}' for x in ('index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json')]
    elif kind == 'splash':
        name = env.str('name', 2, 'aB_')
        file = 'dir/music-splash-' + name + '.ogg'
        doc = {'musicVolume': 1, 'files': {'a': file, 'b': 'Other.PNG'}}
        base = 'plugins/rcp-fe-lol-splash/global/default/splash-assets/' + name.lower() + '/'
        out = [base + 'config.json', base + file.lower(), base + 'other.png']
    elif kind == 'champions':
        path = GD + 'v1/champion-summary.json'
        n = env.choose('id', (-1, 1, 300))
        doc = [{'id': n, 'name': 'x'}, {'id': 7}]
        out = [GD + x for i in (n, 7) for x in ('v1/champions/' + str(i) + '.json', 'v1/champion-splashes/' + str(i) + '/metadata.json')]
    else:
        s = env.str('name', 2, 'aB_')
        doc = {'recommendedItemDefaults': ['/data/' + s + '.json', '/x.json']}
        out = [GD + 'data/' + s.lower() + '.json', GD + 'x.json']
    g = Grep(env, 'lcu', [(path, env.choose('mark', (b'', b'\xef\xbb\xbf')) + to_json(doc).encode('ascii'), 0)])
    g.found(out, 'paths of known documents')


CASES = [
    Case('bin: assets', 'bins', prefix='ASSETS/', rest='?b?', reach=['found']),
    Case('bin: data', 'bins', prefix='DATA/', rest='a??', high=True, reach=['found']),
    Case('bin: scripts and images', 'bins', prefix='DATA/', rest='?.lua', reach=['found']),
    Case('bin: images', 'bins', prefix='ASSETS/', rest='?.PNG', reach=['found']),
    Case('bin: characters', 'bins', prefix='Characters/', rest='?.lua', reach=['found']),
    Case('bin: shaders', 'bins', prefix='Shaders/', rest='??', reach=['found']),
    Case('bin: map geometry', 'bins', prefix='Maps/', rest='MapGeometry/??', reach=['found']),
    Case('bin: maps', 'bins', prefix='Maps/', rest='?b?c', reach=['found']),
    Case('bin: client states', 'bins', prefix='ClientStates/', rest='?b', reach=['found']),
    Case('bin: patching', 'bins', prefix='Patching/', rest='b?c', reach=['found']),
    Case('bin: loadouts', 'bins', prefix='Loadouts/', rest='b?', reach=['found']),
    Case('bin: gameplay', 'bins', prefix='Gameplay/', rest='b?', reach=['found']),
    Case('bin: start of file', 'bin_start', reach=['found']),
    Case('bin: two strings', 'two_strings', reach=['found']),
    Case('preload: scripts', 'preloads', shape='?b.lua', reach=['found']),
    Case('preload: particles', 'preloads', shape='?b.Troy', reach=['found']),
    Case('preload: others', 'preloads', shape='b?c', reach=['found']),
    Case('preload: any bytes', 'preloads', shape='b?.lua', high=True, reach=['found']),
    Case('includes', 'includes', reach=['found']),
    Case('includes: any bytes', 'includes', high=True, reach=['found']),
    Case('atlases', 'atlases', reach=['found']),
    Case('atlases: any bytes', 'atlases', high=True, reach=['found']),
    Case('other files', 'other_files', how='wad', prefixes=PREFIXES, rest='/b?', sizes=(2,), reach=['found']),
    Case('other files: lengths', 'other_files', how='wad', prefixes=('DATA', 'UX'), reach=['found', 'nothing']),
    Case('other files: scripts', 'other_files', how='wad', prefixes=('LEVELS',), rest='/?.lua?', reach=['found']),
    Case('file', 'other_files', how='path', prefixes=('DATA_SOON',), sizes=(2, 4), reach=['found', 'nothing']),
    Case('data', 'other_files', how='data', prefixes=('ASSETS',), sizes=(0, 4), high=True, reach=['found', 'nothing']),
    Case('arguments', 'file_arguments', reach=['refused']),
    Case('skipped files (game)', 'skipped', kind='game', reach=['found']),
    Case('skipped files (LCU)', 'skipped', kind='lcu', reach=['found']),
    Case('files not searched', 'names_only', reach=['found']),
    Case('frontend paths', 'urls', before='?', shape='/fe/a?b?', reach=['found', 'nothing']),
    Case('data paths', 'urls', before='?', shape='/DATA/??b', reach=['found', 'nothing']),
    Case('asset paths', 'urls', before='?', shape='lol-game-data/assets/??', reach=['found', 'nothing']),
    Case('relative paths', 'relative', before='a?', shape='./?b', reach=['found', 'nothing']),
    Case('relative paths: parents', 'relative', before='?', shape='../a?b', reach=['found', 'nothing']),
    Case('relative paths: names', 'relative', before='?', shape='A?b.png', reach=['found', 'nothing']),
    Case('relative paths: scripts', 'relative', before='?', shape='d/?.json', reach=['found', 'nothing']),
    Case('templates and maps', 'templates', reach=['found']),
    Case('documents', 'documents', reach=['found']),
    Case('known documents', 'known_documents', reach=['found']),
]
