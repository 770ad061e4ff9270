"""Names of files extracted from a WAD"""
import errno
from symx.runner import Case
from harness.util import wad_header, wad_entry

META = {
    'bounds': 'any 64-bit hashes; paths of up to 7 (quick), 9 (thorough) symbolic characters over a / . - B and directories; basenames of 245..256 characters with symbolic and fixed parts; '
              '1 or 2 entries; every prior state of the outputs; every errno refused by open or mkdir',
    'outside': 'extensions longer than 200 characters; paths which are absolute or contain .. components; non-ASCII paths',
    'assumptions': ['the file system is modelled: names are limited to 255 bytes'],
}

ALPHA = 'aB/.-'


def sym_path(env, name, n):
    """Relative path in normal form"""
    p = env.str(name, n, ALPHA)
    if n:
        env.assume(p[0] != '/' and p[-1] != '/')
    for c in p.split('/'):
        env.assume(c != '' and c != '.' and c != '..')
    return p


def split_ext(path):
    """Directory, basename and extension, as documented for os.path"""
    d, s, b = path.rpartition('/')
    lead = 0
    while lead < len(b) and b[lead] == '.':
        lead += 1
    k = b.rfind('.')
    ext = b[k:] if k >= lead and k >= 0 else ''
    return d + s, b, ext


def build(env, entries, minor=4):
    data = wad_header(minor, len(entries))
    start = len(data) + 32 * len(entries)
    body = b''
    for h, content in entries:
        data += wad_entry(h, start + len(body), len(content), len(content), 0)
        body += content
    env.fs.put('/work/a.wad', data + body)


CONTENTS = {'bin': b'PROPxx', None: b'\x01\x02\x03\x04', 'json': b'{}'}


def check_name(env, out, path, gext, h, msg):
    """out is an acceptable name for an entry of known path"""
    d, b, ext = split_ext(path)
    full = path
    if ext == '':
        ext = '.cdtb' + ('.' + gext if gext else '')
        full = path + ext
        b = b + ext
    if len(b) < 250:
        env.check(env.eq(out, full), msg + ': name')
        env.reach('short')
        return
    env.reach('long')
    env.check(out.startswith(d), msg + ': directory of a long name')
    ob = out[len(d):]
    env.check(len(ob) <= 250, msg + ': long name is shortened')
    tail = '.' + '%016x' % h + ext
    env.check(ob.endswith(tail), msg + ': hash and extension of a long name')
    env.check(b.startswith(ob[:len(ob) - len(tail)]), msg + ': prefix of a long name')


def known(env, n, prefix, gexts, guess):
    """Entry with a known path"""
    wad = env.load('cdtb.wad')
    path = prefix + sym_path(env, 'path', n)
    h = env.uint('hash', 64)
    gext = env.choose('content', gexts)
    build(env, [(h, CONTENTS[gext])])
    w = env.call(wad.Wad, '/work/a.wad', {h: path})
    env.check(w.ok, 'opens')
    w = w.value
    if guess:
        w.guess_extensions()
    else:
        gext = None
    r = env.call(w.extract, '/out')
    env.check(r.ok, 'extracts')
    files = env.fs.files('/out')
    env.check(len(files) == 1, 'one file')
    check_name(env, files[0], path, gext, h, 'known path')
    env.check(env.eq(env.fs.content('/out/' + files[0]), env.fs.content('/work/a.wad')[304:]), 'content')


def long_names(env, lengths, dirs, tail):
    wad = env.load('cdtb.wad')
    d = env.choose('dir', dirs)
    n = env.choose('length', lengths)
    path = d + 'x' * (n - tail - 2) + env.str('c', 2, 'aZ_') + env.str('tail', tail, 'a.')
    h1, h2 = env.uint('hash1', 64), env.uint('hash2', 64)
    env.assume(h1 != h2)
    _, b, ext = split_ext(path)
    # a second path which only differs in the middle
    path2 = d + 'x' * 230 + 'y' + path[len(d) + 231:]
    build(env, [(h1, b'1'), (h2, b'2')])
    w = wad.Wad('/work/a.wad', {h1: path, h2: path2})
    r = env.call(w.extract, '/out')
    env.check(r.ok, 'extracts')
    files = env.fs.files('/out')
    env.check(len(files) == 2, 'different entries have different names')
    for f in files:
        if env.fs.content('/out/' + f) == b'1':
            check_name(env, f, path, None, h1, 'first')
        else:
            check_name(env, f, path2, None, h2, 'second')
    env.reach('done')


def unknown(env, guess, nfiles):
    """Entries without known path"""
    wad = env.load('cdtb.wad')
    hs = [env.uint(f'hash{i}', 64) for i in range(nfiles)]
    for i in range(nfiles):
        for j in range(i):
            env.assume(hs[i] != hs[j])
    gexts = [env.choose(f'content{i}', list(CONTENTS)) for i in range(nfiles)]
    build(env, [(h, CONTENTS[g] + b' ' * i) for i, (h, g) in enumerate(zip(hs, gexts))])
    w = wad.Wad('/work/a.wad', {})
    if guess:
        w.guess_extensions()
    r = env.call(w.extract, '/out')
    env.check(r.ok, 'extracts')
    env.check(len(env.fs.files('/out')) == nfiles, 'one file for each entry')
    for i, (h, g) in enumerate(zip(hs, gexts)):
        name = 'unknown/%016x' % h
        if guess and g:
            name += '.' + g
        env.check(env.eq(env.fs.content('/out/' + name), CONTENTS[g] + b' ' * i), 'content of unknown entry')
    env.reach('done')


def overwrite(env, flag):
    """Files which already exist"""
    wad = env.load('cdtb.wad')
    build(env, [(1, b'new1'), (2, b'new2'), (3, b'new3')])
    paths = {1: 'a/b.txt', 2: 'a/noext'}
    outs = ['a/b.txt', 'a/noext.cdtb', 'unknown/0000000000000003']
    prior = [env.flag(f'exists{i}') for i in range(3)]
    old = env.bytes('old', 2)
    for i in range(3):
        if prior[i]:
            env.fs.put('/out/' + outs[i], old)
    env.fs.put('/out/other', b'x')
    w = wad.Wad('/work/a.wad', paths)
    r = env.call(w.extract, '/out', flag) if env.flag('positional') else env.call(w.extract, '/out', overwrite=flag)
    env.check(r.ok, 'extracts')
    for i in range(3):
        exp = old if prior[i] and not flag else b'new%d' % (i + 1)
        env.check(env.eq(env.fs.content('/out/' + outs[i]), exp), 'content with existing files')
    env.check(env.fs.content('/out/other') == b'x', 'other files are untouched')
    env.check(len(env.fs.files('/out')) == 4, 'no extra file')
    env.reach('done')


def refused(env, ops):
    """Names which the file system refuses"""
    wad = env.load('cdtb.wad')
    build(env, [(1, b'one'), (2, b'two'), (3, b'three')])
    op = env.choose('op', ops)
    no = env.choose('errno', (errno.EINVAL, errno.ENAMETOOLONG, errno.ENOSPC, errno.EACCES))

    def hook(o, path):
        if o == op and path.startswith('/out/bad'):
            raise OSError(no, 'refused')
    w = wad.Wad('/work/a.wad', {1: 'a/a.txt', 2: 'bad/b.txt', 3: 'c.txt'})
    env.fs.hook = hook
    r = env.call(w.extract, '/out')
    env.fs.hook = None
    env.check(env.fs.content('/out/bad/b.txt') is None, 'no partial file')
    env.check(env.fs.content('/out/a/a.txt') == b'one', 'earlier entry')
    if no in (errno.EINVAL, errno.ENAMETOOLONG):
        env.check(r.ok, 'a refused name does not stop the extraction')
        env.check(env.fs.content('/out/c.txt') == b'three', 'later entry')
        env.reach('skipped')
    else:
        env.check(not r.ok and isinstance(r.exc, OSError) and r.exc.errno == no, 'other errors are raised')
        env.reach('raised')


def too_long_dir(env):
    wad = env.load('cdtb.wad')
    n = env.choose('n', (254, 255, 256, 300))
    build(env, [(1, b'one'), (2, b'two')])
    w = wad.Wad('/work/a.wad', {1: 'd' * n + '/a.txt', 2: 'c.txt'})
    r = env.call(w.extract, '/out')
    env.check(r.ok, 'a path which is too long does not stop the extraction')
    env.check(env.fs.content('/out/c.txt') == b'two', 'later entry')
    if n <= 255:
        env.check(env.fs.content('/out/' + 'd' * n + '/a.txt') == b'one', 'allowed name')
    env.reach('done')


CASES = [
    Case('path 3', 'known', n=3, prefix='', gexts=('bin', None), guess=False, reach=['short']),
    Case('path 5', 'known', n=5, prefix='', gexts=(None,), guess=False, reach=['short']),
    Case('path 7', 'known', n=7, prefix='', gexts=(None,), guess=False, quick=False, reach=['short']),
    Case('path guessed', 'known', n=4, prefix='d.d/', gexts=('bin', None, 'json'), guess=True, reach=['short']),
    Case('long names', 'long_names', lengths=range(245, 257), dirs=('', 'a.b/c/'), tail=3, reach=['long', 'short']),
    Case('long names, no extension', 'long_names', lengths=range(240, 252), dirs=('d/',), tail=0, reach=['long', 'short']),
    Case('long names, long extension', 'long_names', lengths=(249, 250, 253), dirs=('d/',), tail=6, reach=['long'], quick=False),
    Case('unknown', 'unknown', guess=False, nfiles=2, reach=['done']),
    Case('unknown guessed', 'unknown', guess=True, nfiles=2, reach=['done']),
    Case('overwrite', 'overwrite', flag=True, reach=['done']),
    Case('no overwrite', 'overwrite', flag=False, reach=['done']),
    Case('refused', 'refused', ops=('mkdir', 'create', 'write'), reach=['skipped', 'raised']),
    Case('long directory', 'too_long_dir', reach=['done']),
]
