"""Conversions of exported files"""
import errno
import re
from symx.runner import Case
from harness.util import LOWER, le, wad_header, wad_entry
from harness.faults import run

META = {
    'bounds': 'all converters of a patch export, on paths with any name of up to 3 letters and any content of up to 3 bytes (copies, images), one document of each other format with any values, all their truncations, and other malformed documents; '
              'images which the library cannot read or cannot write, at any point; plain files, and files of archives next to other files; existing outputs; one failing file system operation, or a kill, at any point',
    'outside': 'two exported files with the same converted path, or one below another; content accepted by the image library (PIL is a stub); failures of the image library other than OSError and NotImplementedError',
    'assumptions': ['the image library writes an image, or raises OSError or NotImplementedError at any point'],
}
OUT = '/work/out'


def u(v, n):
    return v.to_bytes(n, 'little')


# documents: (content, {extension: expected converted form})

def image(env, kind):
    return env.bytes('image', env.choose('size', (0, 3)))


def tex(env):
    return b'TEX\x00' + le(4, 2) + le(4, 2) + b'\x01\x14\x00\x00' + env.bytes('pixels', 4)


def bin_doc(env):
    h, v = env.uint('path hash', 32), env.uint('value', 32)
    field = u(env.uint('field', 32), 4) + b'\x07' + u(v, 4)
    entry = u(h, 4) + le(1, 2) + field
    data = b'PROP' + le(2, 4) + le(0, 4) + le(1, 4) + le(5, 4) + le(len(entry), 4) + entry
    return data, [h, v]


def rst_doc(env, version=5, bits=38):
    key = env.uint('key', bits)
    data = b'RST' + bytes([version]) + le(2, 4)
    text = env.str('text', 2, LOWER + 'é')
    raw = text.encode('utf-8')
    data += u((0 << bits) + key, 8) + u((1 << bits) + ((key + 1) & ((1 << bits) - 1)), 8)
    if version < 5:
        data += b'\x00'
    return data + raw + b'\x00', [key, text]


def atlas_doc(env):
    return le(1, 4) + le(2, 4) + b'A/' + le(1, 4) + le(3, 4) + b'a/t' + bytes(16) + le(0, 4)


def skins_doc(env):
    n = env.str('champion', 2, LOWER)
    sid = env.uint('skin', 32)
    return b'mahC' + le(2, 4) + le(1, 4) + le(2, 4) + n.encode('ascii') + le(1, 4) + u(sid, 4) + env.bytes('flag', 1) + le(1, 4) + b'S'


def skn_doc(env):
    return b'\x33\x22\x11\x00' + le(0, 2) + le(1, 2) + le(3, 4) + le(0, 4) + le(0, 2) + le(1, 2) + le(2, 2)


SKN2 = b'\x33\x22\x11\x00' + le(2, 2) + le(1, 2) + le(2, 4) + b'one' + bytes(61) + bytes(16) + b'two' + bytes(61) + bytes(16) + le(0, 4) + le(0, 4)

PATHS = {
    'copy': lambda n: n + '.txt', 'copy dir': lambda n: 'game/' + n + '/x.png', 'no extension': lambda n: 'a/' + n, 'dds': lambda n: 'game/a/' + n + '.dds', 'tga': lambda n: n + '.x.tga', 'tex': lambda n: 'game/' + n + '.tex',
    'bin': lambda n: 'game/data/' + n + '.bin', 'rst': lambda n: 'game/data/menu/' + n + '.stringtable', 'rst txt': lambda n: 'game/en_us/data/menu/' + n + '.txt',
    'atlas': lambda n: 'game/' + n + '.cdtb', 'atlas bin': lambda n: 'game/assets/items/icons2d/autoatlas/' + n + '/atlas_info.bin',
    'skins': lambda n: 'game/global/champions/championskins.info', 'skn': lambda n: 'game/' + n + '/m.skn',
    'other bin': lambda n: 'plugins/' + n + '.bin', 'other menu': lambda n: 'data/menu/' + n + '.txt', 'upper': lambda n: n + '.DDS', 'other info': lambda n: 'game/' + n + '/championskins.info',
}
ANNOUNCED = {
    'dds': lambda p: [p[:-4] + '.png'], 'tga': lambda p: [p[:-4] + '.png'], 'tex': lambda p: [p[:-4] + '.png'], 'bin': lambda p: [p, p + '.json'], 'rst': lambda p: [p, p + '.json'],
    'rst txt': lambda p: [p, p + '.json'], 'atlas': lambda p: [p + '.json'], 'atlas bin': lambda p: [p + '.json'], 'skins': lambda p: [p + '.json'], 'skn': lambda p: [p, p[:-4]],
}
COPIES = ('copy', 'copy dir', 'no extension', 'other bin', 'other menu', 'upper', 'other info')


def content(env, kind):
    if kind in COPIES:
        return env.bytes('copied', env.choose('size', (0, 3)))
    if kind in ('dds', 'tga'):
        return image(env, kind)
    if kind == 'tex':
        return tex(env)
    if kind == 'bin':
        return bin_doc(env)[0]
    if kind.startswith('rst'):
        return rst_doc(env)[0]
    if kind.startswith('atlas'):
        return atlas_doc(env)
    if kind == 'skins':
        return skins_doc(env)
    return env.choose('mesh', (skn_doc(env), SKN2))


class Picture:
    """Image of the image library"""

    def __init__(self, data, fail):
        self.data = data
        self.fail = fail

    def save(self, f, *args, **kw):
        f.write(b'PNG')
        if self.fail is not None:
            raise self.fail
        f.write(self.data)


FAILURES = {'open': OSError, 'open truncated': OSError, 'not implemented': NotImplementedError, 'save': OSError, 'save not implemented': NotImplementedError}


def images(env, bad=None):
    """Image library; `bad` (content, way it fails)"""
    def open_image(f):
        data = f.read()
        fail = None
        if bad is not None and len(data) == len(bad[0]) and env.eq(data, bad[0]):
            exc = FAILURES[bad[1]]('cannot identify image file')
            if not bad[1].startswith('save'):
                raise exc
            fail = exc
        return Picture(data, fail)
    env.libs['image_open'] = open_image


def exporter(env, keys=None):
    """Exporter with the converters of a patch export"""
    m = env.load('cdtb.export')
    h = env.load('cdtb.hashes')
    h.hashfile_game.hashes = {}
    h.hashfile_lcu.hashes = {}
    r = env.load('cdtb.rstfile')
    r.hashfile_rst_xxh3.hashes = keys or {}
    r.hashfile_rst_xxh64.hashes = {}
    b = env.load('cdtb.binfile')
    for n in ('hashfile_binentries', 'hashfile_binhashes', 'hashfile_binfields', 'hashfile_bintypes', 'hashfile_binpaths'):
        if hasattr(b, n):
            getattr(b, n).hashes = {}
    images(env)

    class Version:
        version = env.load('cdtb.storage').PatchVersion('16.1')

        def latest(self):
            return self
        elements = ()
    e = m.CdragonRawPatchExporter(OUT, Version())
    return m, e._create_exporter(Version())


def announced(kind, path):
    return ANNOUNCED[kind](path) if kind in ANNOUNCED else [path]


def file_of(env, path):
    return env.fs.content(OUT + '/' + path)


def source(env, ex, via, path, data, others=True):
    """Add a file to the export, among others"""
    if via == 'plain':
        if others:
            env.fs.put('/src/first', b'first')
            ex.add_path('/src/first', 'first.txt')
        env.fs.put('/src/file', data)
        ex.plain_files[path] = '/src/file'
        if others:
            env.fs.put('/src/last', b'last')
            ex.add_path('/src/last', 'last.txt')
        return
    n = 3 if others else 1
    body = []
    head = wad_header(4, n)
    offset = 268 + 4 + 32 * n
    parts = [(1, b'first'), (2, data), (3, b'last')] if others else [(2, data)]
    for h, d in parts:
        head += wad_entry(h, offset, len(d), len(d), 0)
        offset += len(d)
        body.append(d)
    for d in body:
        head = head + d
    env.fs.put('/src/a.wad.client', head)
    env.load('cdtb.hashes').hashfile_game.hashes = {1: 'first.txt', 2: 'x.txt', 3: 'last.txt'}
    ex.add_path('/src/a.wad.client', 'a.wad.client')
    for f in ex.wads['a.wad.client'].files:
        if f.path_hash == 2:
            f.path = path


def listing(env):
    """Files and directories which are announced: {path: entry}"""
    return env.fs.tree(OUT)


def check_others(env):
    env.check(file_of(env, 'first.txt') == b'first' and file_of(env, 'last.txt') == b'last', 'other files are exported')


def check_exact(env, ann, extra=('first.txt', 'last.txt')):
    """The files which exist are the announced ones"""
    files = env.fs.files(OUT)
    for p in ann:
        env.check(env.os.path.lexists(OUT + '/' + p), 'announced files exist')
    for f in files:
        env.check(any(env.eq(f, p) if len(f) == len(p) else (len(f) > len(p) and env.eq(f[:len(p) + 1], p + '/')) for p in list(ann) + list(extra)), 'other files do not exist')


def success(env, kinds, vias, lengths=(2,)):
    """Files which can be converted"""
    kind = env.choose('kind', kinds)
    m, ex = exporter(env)
    path = PATHS[kind](env.str('name', env.choose('length', lengths), LOWER))
    env.assume(path != 'first.txt' and path != 'last.txt')
    data = content(env, kind)
    via = env.choose('via', vias)
    source(env, ex, via, path, data)
    ann = announced(kind, path)
    got = list(ex.converted_exported_paths(path))
    env.check(len(got) == len(ann) and sorted(got) == sorted(ann), 'announced files')
    got = list(ex.all_converted_exported_paths())
    env.check(sorted(got) == sorted(ann + ['first.txt', 'last.txt']), 'all announced files')
    state = env.choose('before', ('nothing', 'older files', 'mesh directory') if kind == 'skn' else ('nothing', 'older files'))
    if state == 'older files':
        for a in ann:
            if kind == 'skn' and a != path:
                env.fs.put(OUT + '/' + a + '/old.obj', b'old')
            else:
                env.fs.put(OUT + '/' + a, b'older content')
    elif state == 'mesh directory':
        env.fs.makedirs(OUT + '/' + path[:-4])
    r = env.call(ex.export)
    env.check(r.ok, 'files are exported')
    check_others(env)
    check_exact(env, ann)
    env.check(env.reports() == 0, 'nothing to report')
    if kind in COPIES:
        env.check(env.eq(file_of(env, path), data), 'copy has the same content')
        env.reach('copy')
    elif kind in ('dds', 'tga'):
        env.check(env.eq(file_of(env, ann[0]), b'PNG' + data), 'converted image')
    elif kind == 'tex':
        dds = env.call(m.TexConverter.tex_to_dds, data)
        env.check(dds.ok and env.eq(file_of(env, ann[0]), b'PNG' + dds.value), 'converted texture')
    elif path in ann:
        env.check(env.eq(file_of(env, path), data), 'copied along with its conversion')
    for a in ann:
        c = file_of(env, a)
        if c is not None:
            env.check(kind in COPIES or len(c) > 0, 'conversions are not empty')
            env.check(c != b'older content', 'older files are replaced')
    if kind == 'skn':
        objs = sorted(env.fs.files(OUT + '/' + path[:-4]))
        env.check(objs == (['one.obj', 'two.obj'] if data[4] == 2 else ['Unknown.obj']), 'submeshes, without older ones')
    env.reach(kind)


def json_forms(env):
    """JSON forms"""
    kind = env.choose('kind', ('bin', 'rst', 'rst txt', 'atlas', 'skins'))
    m, ex = exporter(env)
    path = PATHS[kind]('n')
    if kind == 'bin':
        data, (h, v) = bin_doc(env)
    elif kind.startswith('rst'):
        version = env.choose('version', (3, 4, 5))
        bits = 40 if version == 3 else 38
        data, (key, text) = rst_doc(env, version, bits)
        known = env.flag('known')
        if known:
            full = env.uint('full hash', 64)
            env.assume((full & ((1 << bits) - 1)) == key)
            m, ex = exporter(env, {full: 'some_key'})
    elif kind == 'atlas':
        data = atlas_doc(env)
    else:
        data = skins_doc(env)
    source(env, ex, 'plain', path, data)
    r = env.call(ex.export)
    env.check(r.ok, 'files are exported')
    doc = env.read_json(OUT + '/' + path + '.json')
    if kind == 'bin':
        name = '{' + f'{h:08x}' + '}'
        env.check(sorted(doc) == sorted(['__linked', name]) and doc[name]['__type'] == '{00000005}' and doc['__linked'] == [], 'object in the JSON form')
        vals = [x for k, x in doc[name].items() if not k.startswith('__')]
        env.check(len(vals) == 1 and env.eq(vals[0], v), 'value in the JSON form')
    elif kind.startswith('rst'):
        n0 = 'some_key' if known else '{' + f'{key:010x}' + '}'
        n1 = '{' + f'{(key + 1) & ((1 << bits) - 1):010x}' + '}'
        env.check(doc['version'] == version, 'version in the JSON form')
        env.check(sorted(doc['entries']) == sorted([n0, n1]), 'keys in the JSON form')
        env.check(env.eq(doc['entries'][n0], text), 'texts in the JSON form')
    elif kind == 'atlas':
        env.check(list(doc) == ['a/t'] and doc['a/t']['atlasPath'] == 'a/', 'atlas in the JSON form')
    else:
        env.check(len(doc) == 1 and len(list(doc.values())[0]) == 1, 'champions in the JSON form')
    env.reach(kind)


BAD = {
    'bin': (b'', b'PROX' + bytes(20), b'PROP\x02\x00', b'PTCH' + bytes(20), b'PROP' + le(2, 4) + le(0, 4) + le(1, 4) + le(5, 4) + le(6, 4) + bytes(4) + le(1, 2) + bytes(4) + b'\x70',
            b'PROP' + le(1, 4) + le(1, 4) + le(5, 4) + le(9, 4) + bytes(4) + le(0, 2), b'PROP' + le(2, 4) + le(1, 4) + le(2, 2) + b'\xff\xfe' + le(0, 4)),
    'rst': (b'', b'RST', b'XXX\x05' + bytes(8), b'RST\x09' + bytes(8), b'RST\x05' + le(2, 4) + bytes(8), b'RST\x02\x01' + le(1, 4) + b'\xff' + le(0, 4) + b'\x00', b'RST\x03' + le(1, 4) + le(5, 4) + b'\x00\x01\x00\x00' + b'\x01'),
    'atlas': (b'', b'\x01', le(1, 4), le(1, 4) + le(2, 4) + b'\xff\xff', b'IMAA' + le(0, 4) + le(1, 4) + bytes(8) + bytes(20), b'IMAA', le(0, 4) + le(1, 4) + le(1, 4) + b'a' + bytes(20)),
    'skins': (b'', b'mah', b'XXXX' + bytes(8), b'mahC' + le(1, 4) + le(0, 4), b'mahC' + le(2, 4) + le(1, 4), b'mahC' + le(2, 4) + le(1, 4) + le(1, 4) + b'\xff' + le(0, 4)),
    'skn': (b'', b'\x33\x22\x11', b'XXXX' + bytes(20), b'\x33\x22\x11\x00', SKN2[:40], SKN2[:-3], b'\x33\x22\x11\x00' + le(2, 2) + le(1, 2) + le(1, 4) + b'\xff' + bytes(79) + le(0, 4) + le(0, 4)),
    'tex': (b'', b'TEX', b'TEX\x01' + bytes(12), b'TEX\x00' + bytes(8), b'TEX\x00' + le(4, 2) + le(4, 2) + b'\x01\x99\x00\x00'),
}


def failure(env, kinds, vias):
    """Files which cannot be converted do not prevent the others"""
    kind = env.choose('kind', kinds)
    m, ex = exporter(env)
    path = PATHS[kind](env.str('name', 1, LOWER))
    via = env.choose('via', vias)
    if kind in ('dds', 'tga', 'tex') and (kind != 'tex' or env.flag('library')):
        data = content(env, kind)
        seen = data
        if kind == 'tex':
            seen = m.TexConverter.tex_to_dds(data)
        env.assume(len(data) > 0)
        images(env, (seen, env.choose('failure', list(FAILURES))))
    elif env.flag('truncated'):
        full = content(env, kind)
        cut = env.choose('cut', range(len(full)))
        data = full[:cut]
        if kind == 'rst' and cut >= 24:
            data = data[:23]
        if kind == 'tex' and cut >= 12:
            data = data[:11]
    else:
        data = env.choose('malformed', BAD[kind])
    old = env.flag('older files')
    ann = announced(kind, path)
    if old:
        for a in ann:
            if kind == 'skn' and a != path:
                env.fs.put(OUT + '/' + a + '/old.obj', b'old')
            else:
                env.fs.put(OUT + '/' + a, b'older content')
    source(env, ex, via, path, data)
    r = env.call(ex.export)
    env.check(r.ok, 'a failing conversion does not stop the export')
    check_others(env)
    env.check(env.reports() == 1, 'a failing conversion is reported')
    for f in env.fs.files(OUT):
        env.check(any(env.eq(f, p) if len(f) == len(p) else (len(f) > len(p) and env.eq(f[:len(p) + 1], p + '/')) for p in ann + ['first.txt', 'last.txt']), 'other files do not exist')
    whole = True
    for a in ann:
        c = file_of(env, a)
        if c is None:
            whole &= a != path and env.os.path.isdir(OUT + '/' + a)
            continue
        if a == path:
            env.check(env.eq(c, data), 'the copy is complete')
        else:
            env.check(old and c == b'older content', 'no partial conversion')
            whole = whole and c != b'older content'
    if kind == 'skn':
        env.check(not env.os.path.exists(OUT + '/' + path[:-4]), 'no partial conversion to a directory')
    elif not old:
        env.check(not whole, 'conversions which fail are not announced as done')
    env.reach(kind)


def skipped(env):
    """Entries of archives which have no file"""
    m, ex = exporter(env)
    env.libs['zstd_fails'] = True
    h = env.load('cdtb.hashes')
    order = env.choose('order', ((1, 2, 3), (2, 1, 3), (1, 3, 2)))
    what = env.choose('what', ('unknown', 'unreadable', 'both', 'existing', 'conversion'))
    kinds = {1: 'file', 2: what, 3: 'file'}
    head = wad_header(4, 4)
    offset = 268 + 4 + 32 * 4
    body = b''
    paths = {}
    for n in order + (4,):
        k = kinds.get(n, 'both' if what == 'both' else 'file')
        d = b'file' + bytes([48 + n])
        t = 0
        if k in ('unreadable', 'both') and n != 4:
            t = 4
        head += wad_entry(n, offset + len(body), 5, 5, t)
        body += d
        if not (k == 'unknown' or (n == 4 and what == 'both')):
            paths[n] = f'd/{n}.txt' if k != 'conversion' else 'd/2.dds'
    if what in ('unreadable', 'both'):
        c = env.call(env.decompress, 'zstd', b'file2')
        env.assume(not c.ok)
    images(env, (b'file2', 'open'))
    h.hashfile_game.hashes = paths
    env.fs.put('/src/a.wad.client', head + body)
    if what == 'existing':
        env.fs.put(OUT + '/d/2.txt', b'old')
    ex.add_path('/src/a.wad.client', 'a.wad.client')
    r = env.call(ex.export, overwrite=False)
    env.check(r.ok, 'the export goes on')
    for n in range(1, 5):
        c = file_of(env, f'd/{n}.txt')
        if kinds.get(n, '') == 'existing':
            env.check(c == b'old', 'existing file')
        elif n in paths and kinds.get(n, 'file') == 'file':
            env.check(c == b'file' + bytes([48 + n]), 'other entries are exported')
        else:
            env.check(c is None, 'no file for other entries')
    env.reach(what)


def existing(env, kinds, vias):
    """Existing files are not converted again without overwriting"""
    kind = env.choose('kind', kinds)
    m, ex = exporter(env)
    path = PATHS[kind](env.str('name', 1, LOWER))
    data = content(env, kind)
    via = env.choose('via', vias)
    source(env, ex, via, path, data, others=False)
    ann = announced(kind, path)
    exist = []
    for i, a in enumerate(ann):
        st = env.choose(f'state{i}', ('missing', 'file', 'link'))
        exist.append(st)
        if st == 'file':
            if kind == 'skn' and i == 1:
                env.fs.put(OUT + '/' + a + '/old.obj', b'old')
            else:
                env.fs.put(OUT + '/' + a, b'older content')
        elif st == 'link':
            env.fs.makedirs((OUT + '/' + a).rsplit('/', 1)[0], True)
            env.fs.symlink('/nowhere', OUT + '/' + a)
    if kind == 'skn' and exist[1] == 'link':
        env.assume('missing' not in exist)
    before = env.fs.tree(OUT)
    r = env.call(ex.export, overwrite=False) if env.flag('keyword') else env.call(ex.export, False)
    env.check(r.ok, 'files are exported')
    after = env.fs.tree(OUT)
    if 'missing' not in exist:
        env.check(len(after) == len(before), 'existing files are left alone')
        for p in before:
            env.check(p in after and env.eq(after[p], before[p]), 'existing files are left alone')
        env.reach('skipped')
    else:
        check_exact(env, ann, ())
        for a in ann:
            c = file_of(env, a)
            env.check(c != b'older content', 'files are converted again when one is missing')
        env.reach('converted')


def long_names(env):
    """Names which the file system refuses"""
    m, ex = exporter(env)
    kind = env.choose('kind', ('copy dir', 'dds', 'bin', 'atlas'))
    no = env.choose('error', (errno.ENAMETOOLONG, errno.EINVAL, errno.ENOSPC, errno.EACCES))
    data = content(env, kind)
    path = PATHS[kind]('name')
    if kind == 'copy dir' and env.flag('really'):
        path = 'x' * 300 + '.txt'
        no = errno.ENAMETOOLONG
    else:
        def hook(op, p):
            if str(p).startswith(OUT + '/game/'):
                raise OSError(no, 'refused')
        env.fs.makedirs(OUT + '/game/name')
        env.fs.makedirs(OUT + '/game/a')
        env.fs.makedirs(OUT + '/game/data')
        env.fs.hook = hook
    source(env, ex, 'wad', path, data)
    r = env.call(ex.export)
    env.fs.hook = None
    if r.ok:
        check_others(env)
        env.check(no in (errno.ENAMETOOLONG, errno.EINVAL), 'other errors are not hidden')
        env.check(env.reports() == 1, 'invalid names are reported')
        env.reach('ignored')
    else:
        env.check(r.exc_name.endswith('Error') and no not in (errno.ENAMETOOLONG, errno.EINVAL), 'invalid names are ignored')
        env.reach('error')
    for f in env.fs.files(OUT):
        env.check(f in ('first.txt', 'last.txt') or f == path, 'no partial conversion')


def faults(env, kinds, what, limit):
    """A failure or a kill at any point leaves no partial file under an announced name"""
    kind = env.choose('kind', kinds)
    m, ex = exporter(env)
    path = PATHS[kind]('n')
    data = content(env, kind)
    source(env, ex, env.choose('via', ('plain', 'wad')), path, data)
    ann = announced(kind, path)
    happened, r = run(env, what, ex.export, limit)
    env.assume(happened)
    if what == 'error':
        env.check(r is not None and (not r.ok or True), 'errors')
    for f in env.fs.files(OUT):
        c = file_of(env, f)
        if f in ('first.txt', 'last.txt'):
            env.check(c == f[:-4].encode('ascii'), 'no partial copy')
        elif f == path:
            env.check(env.eq(c, data), 'no partial copy')
        elif f in ann:
            if f.endswith('.json'):
                env.check(env.call(env.read_json, OUT + '/' + f).ok, 'no partial conversion')
            else:
                env.check(env.eq(c, b'PNG' + (m.TexConverter.tex_to_dds(data) if kind == 'tex' else data)), 'no partial conversion')
        elif what == 'error':
            env.check(kind == 'skn', 'no other file is left')
    env.reach('fault')


def add(env, kinds):
    """Files and archives added to an export"""
    m, ex = exporter(env)
    kind = env.choose('name', kinds)
    n = env.str('name', 2, LOWER)
    src = '/src/' + n + {'wad': '.wad', 'client': '.wad.client', 'wad in name': '.wad.txt', 'plain': '.json', 'bare': '', 'other client': '.client', 'lang': '.en_us.wad.client'}[kind]
    dst = 'x/' + n
    if kind in ('wad', 'client', 'lang'):
        ents = []
        paths = {}
        data = wad_header(4, 3)
        for i in range(3):
            h = 10 + i
            t = env.choose(f'type{i}', (0, 2)) if i < 2 else 0
            data += wad_entry(h, 500 + 10 * i, 10, 10, t)
            ents.append((h, t))
        known = env.choose('known', ('none', 'path', 'no extension'))
        if known != 'none':
            paths[10] = 'a/b' + ('.txt' if known == 'path' else '')
        body = bytes(500 - len(data))
        for h, t in ents:
            body += b'PROP      ' if t == 0 else le(2, 4) + b'xy    '
        env.fs.put(src, data + body)
        hf = env.load('cdtb.hashes')
        hf.hashfile_game.hashes = dict(paths) if kind != 'wad' else {12: 'wrong'}
        hf.hashfile_lcu.hashes = dict(paths) if kind == 'wad' else {12: 'wrong'}
        r = env.call(ex.add_path, src, dst)
        env.check(r.ok, 'archive is added')
        env.check(list(ex.wads) == [dst] and not ex.plain_files, 'archive is exported')
        w = ex.wads[dst]
        env.check([f.path_hash for f in w.files] == [h for h, t in ents if t == 0], 'redirections are left out')
        for f in w.files:
            if f.path_hash in paths:
                env.check(f.path == ('a/b.txt' if known == 'path' else 'a/b.cdtb.bin' if False else f.path), 'known path')
                env.check(f.path.startswith('a/b.'), 'paths have an extension')
            else:
                env.check(f.path is None and f.ext == 'bin', 'extensions are guessed')
        unknown = list(ex.unknown_hashes())
        env.check(unknown == [f.path_hash for f in w.files if f.path_hash not in paths], 'unknown hashes')
        env.reach('archive')
    else:
        env.fs.put(src, b'RW')
        r = env.call(ex.add_path, src, dst)
        env.check(r.ok and not ex.wads and list(ex.plain_files.items()) == [(dst, src)], 'file is exported as it is')
        env.check(list(ex.unknown_hashes()) == [], 'no unknown hashes')
        env.reach('file')


KINDS = ('dds', 'tga', 'tex', 'bin', 'rst', 'rst txt', 'atlas', 'atlas bin', 'skins', 'skn')
CASES = [
    Case('conversions', 'success', kinds=KINDS, vias=('plain', 'wad'), reach=list(KINDS)),
    Case('copies', 'success', kinds=COPIES, vias=('plain', 'wad'), lengths=(1,), reach=list(COPIES) + ['copy']),
    Case('JSON forms', 'json_forms', reach=['bin', 'rst', 'rst txt', 'atlas', 'skins']),
    Case('failing images', 'failure', kinds=('dds', 'tga', 'tex'), vias=('plain', 'wad'), reach=['dds', 'tga', 'tex']),
    Case('failing documents in archives', 'failure', kinds=('bin', 'rst', 'atlas', 'skins', 'skn'), vias=('wad',), reach=['bin', 'rst', 'atlas', 'skins', 'skn']),
    Case('failing documents', 'failure', kinds=('bin', 'rst', 'atlas', 'skins', 'skn'), vias=('plain',), quick=False, reach=['bin', 'rst', 'atlas', 'skins', 'skn']),
    Case('existing files', 'existing', kinds=('copy', 'dds', 'tex', 'bin', 'rst', 'atlas', 'skins', 'skn'), vias=('plain', 'wad'), reach=['skipped', 'converted']),
    Case('entries without file', 'skipped', reach=['unknown', 'unreadable', 'both', 'existing', 'conversion']),
    Case('invalid names', 'long_names', reach=['ignored', 'error']),
    Case('failing operations', 'faults', kinds=('copy', 'dds', 'tex', 'bin', 'rst', 'atlas', 'skins'), what='error', limit=40, reach=['fault']),
    Case('kills', 'faults', kinds=('copy', 'dds', 'tex', 'bin', 'rst', 'atlas', 'skins'), what='crash', limit=40, reach=['fault']),
    Case('added files', 'add', kinds=('wad', 'client', 'lang', 'wad in name', 'plain', 'bare', 'other client'), reach=['archive', 'file']),
]
