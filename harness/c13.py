"""Extraction of release files"""
from symx.runner import Case
from harness.pstore import World, F, setup, BASE
from harness.faults import run
from harness.util import le

META = {
    'bounds': 'elements of up to 3 files made of up to 3 of 4 chunks in 2 bundles, chunk contents of 0 to 3 bytes (any bytes); one failure or kill at any file system operation of the extraction (a failing write may write half of its data), '
              'a missing, truncated or altered bundle, followed by an extraction without failure; links and plain files; output paths which are missing, a file of the same or another size, a directory, a valid, dangling or foreign link',
    'outside': 'two failures in one run, several processes at once; file systems which lose data which was written before a rename; more or larger files',
    'assumptions': ['zstd decompression is a function which gives each chunk back, and fails for altered data', 'SHA-1 has no collisions among the explored files',
                    'file system operations are atomic, except writes'],
}
B7, B9 = 0xa00000000000007f, 0xbc9
ROOT = f'{BASE}/cdtb/releases/live/100/files'


def world(env, files, sizes=((2, 1), (3, 0))):
    return World(env, {B7: list(sizes[0]), B9: list(sizes[1])}, [F(n, c) for n, c in files])


def read(env, path):
    """Content of a path, through links"""
    return env.fs.content(path)


def complete(env, w, done=()):
    for f in w.files:
        p = f'{ROOT}/{f.name}'
        env.check(env.os.path.isfile(p), 'file is there')
        env.check(read(env, p) == w.content(f), 'content of the file')


def partial(env, w, before, crash):
    """No path of the release, and no stored file, is partial"""
    names = {f'{ROOT}/{f.name}': f for f in w.files}
    for p in names:
        if env.os.path.isfile(p) and not same(before, p, env.fs.content(p)):
            env.check(env.fs.content(p) == w.content(names[p]), 'no partial file')
    if not crash:
        for p in env.fs.files(BASE + '/cdtb'):
            q = BASE + '/cdtb/' + p
            c = env.fs.content(q)
            if env.os.path.islink(q) or same(before, q, c):
                continue
            env.check(env.any([len(c) == len(w.content(f)) and c == w.content(f) for f in w.files]), 'no partial file in the storage')


def same(before, p, c):
    return p in before and before[p] is c


def snapshot(env):
    out = {}
    for p in env.fs.files(BASE):
        out[BASE + '/' + p] = env.fs.content(BASE + '/' + p)
    return out


def links(env, w, symlinks):
    for f in w.files:
        p = f'{ROOT}/{f.name}'
        if symlinks:
            env.check(env.os.path.islink(p), 'path is a link')
            env.check(not env.os.readlink(p).startswith('/'), 'link is relative')
            for g in w.files:
                if f.chunks == g.chunks:
                    env.check(env.os.path.realpath(p) == env.os.path.realpath(f'{ROOT}/{g.name}'), 'copy is shared')
        else:
            env.check(not env.os.path.islink(p), 'path is a plain file')


def fault(env, files, kind, symlinks, again=None, overwrite=(False,)):
    """Failing or killed extraction, then another one"""
    w = world(env, files)
    s, e = setup(env, w, symlinks=symlinks)
    e.manif
    env.libs['zstd_fails'] = 'always'
    before = snapshot(env)
    happened, r = run(env, kind, lambda: e.extract(overwrite=env.choose('overwrite', overwrite)), limit=44)
    if not happened:
        env.check(r.ok, 'extraction succeeds')
        complete(env, w)
        links(env, w, symlinks)
    else:
        if kind == 'crash':
            env.check(r is None or r.ok, 'killed')
            partial(env, w, before, True)
        else:
            if r.ok:
                complete(env, w)
            else:
                env.check(r.exc_name == 'OSError', 'error of the operation is raised')
            partial(env, w, before, False)
    if again is not None:
        s.use_extract_symlinks = again
    r = env.call(lambda: e.extract())
    env.check(r.ok, 'second extraction succeeds')
    complete(env, w)
    if again is None and not happened:
        n = len(env.fs.log)
        env.check(env.call(lambda: e.extract()).ok, 'third extraction succeeds')
        env.check(len(env.fs.log) == n, 'complete files are not extracted again')
    env.reach('failed' if happened else 'no failure')


def damage(env, files, symlinks):
    """Missing or altered bundle data"""
    w = world(env, files)
    s, e = setup(env, w, symlinks=symlinks)
    e.manif
    env.libs['zstd_fails'] = 'always'
    before = snapshot(env)
    which = env.choose('bundle', (B7, B9))
    k = env.choose('damage', ('missing', 'truncated', 'altered', 'directory'))
    data = w.bundle_data[which]
    p = w.bundle_path(which)
    if k == 'truncated':
        env.fs.put(p, data[:env.choose('length', (0, 1, len(data) // 2, len(data) - 1))])
    elif k == 'altered':
        pos = env.choose('position', (0, len(data) // 2, len(data) - 1))
        env.fs.put(p, data[:pos] + b'!' + data[pos + 1:])
    else:
        env.fs.remove(p)
        if k == 'directory':
            env.fs.makedirs(p)
    used = []
    for f in sorted(w.files, key=lambda f: f.name):
        bad = [c for c in f.chunks if w.chunk(c).bundle == which]
        if bad:
            used.append(f)
    r = env.call(lambda: e.extract())
    if k in ('missing', 'directory'):
        env.check(r.ok == (not used), 'error when a bundle is missing')
    if r.ok:
        complete(env, w)
    partial(env, w, before, False)
    env.reach('failed' if not r.ok else 'unused')
    if k == 'directory':
        env.fs.rmdir(p)
    env.fs.put(p, data)
    env.check(env.call(lambda: e.extract()).ok, 'extraction succeeds once bundles are there')
    complete(env, w)
    links(env, w, symlinks)


def state(env, symlinks):
    """Any state of the output path and of the stored copy"""
    w = world(env, [('Dir/x.bin', [1, 2]), ('y', [3])])
    s, e = setup(env, w, symlinks=symlinks)
    e.manif
    f = w.files[0]
    p = f'{ROOT}/Dir/x.bin'
    k = env.choose('output', ('same', 'smaller', 'empty', 'directory', 'dangling', 'foreign', 'foreign same', 'loop', 'parent'))
    content = w.content(f)
    if k == 'same':
        env.fs.put(p, content)
    elif k == 'smaller':
        env.fs.put(p, content[:2])
    elif k == 'empty':
        env.fs.put(p, b'')
    elif k == 'directory':
        env.fs.makedirs(p)
    elif k == 'dangling':
        env.fs.makedirs(ROOT + '/Dir')
        env.fs.symlink('../../nothing/here', p)
    elif k == 'loop':
        env.fs.makedirs(ROOT + '/Dir')
        env.fs.symlink('x.bin', p)
    elif k == 'parent':
        env.fs.put(ROOT + '/Dir', b'file')
    else:
        env.fs.put('/other/file', content if k == 'foreign same' else b'other data')
        env.fs.makedirs(ROOT + '/Dir')
        env.fs.symlink('/other/file', p)
    other = env.fs.content('/other/file')
    overwrite = env.flag('overwrite')
    n = len(env.fs.log)
    r = env.call(lambda: e.extract(overwrite=overwrite))
    if k in ('directory', 'parent'):
        env.check(not r.ok, 'error when the path cannot be written')
        env.reach('error')
        return
    env.check(r.ok, 'extraction succeeds')
    complete(env, w)
    changed = [q for _, q in env.fs.log[n:] if q == p]
    if not overwrite and k in ('same', 'foreign same'):
        env.check(not changed, 'complete file is not extracted again')
    elif k != 'loop' or symlinks:
        links(env, w, symlinks)
    env.check(env.fs.content('/other/file') is other, 'other files are not changed')
    env.reach('done')


def release(env, symlinks):
    """Extraction of a whole release, with a file shared between its elements, and between releases"""
    m = env.load('cdtb.patcher')
    from harness.pstore import GAME_URL, CLIENT_URL, put_release, manifest_path
    w1 = World(env, {7: [2, 1]}, [F('a', [1, 2]), F('d/b', [2])])
    w2 = World(env, {8: [1]}, [F('c', [10])], prefix='x', first=10)
    w3 = World(env, {7: [w1.chunks[0].content, w1.chunks[1].content]}, [F('a', [1, 2]), F('e', [1, 2])], prefix='y')
    for c, d in zip(w3.chunks, w1.chunks):
        c.stored = d.stored
    put_release(env, 100, game=GAME_URL, client=CLIENT_URL)
    put_release(env, 200, game=GAME_URL.replace('A1', 'A3'))
    for w, u in ((w1, GAME_URL), (w2, CLIENT_URL), (w3, GAME_URL.replace('A1', 'A3'))):
        env.fs.put(manifest_path(u), w.manifest())
    w1.put_bundles()
    w2.put_bundles()
    s = m.PatcherStorage(BASE)
    s.use_extract_symlinks = symlinks
    order = env.choose('order', ((100, 200), (200, 100)))
    overwrite = env.choose('overwrite', (None, False, True))
    kw = {} if overwrite is None else {'overwrite': overwrite}
    changed = f'{BASE}/cdtb/releases/live/100/files/d/b'
    env.fs.put(changed, b'?')
    for v in order:
        r = env.call(lambda: m.PatcherRelease(s, v).extract(**kw))
        env.check(r.ok, 'extraction succeeds')
    env.check(env.fs.content(changed) == (w1.content(w1.files[1]) if overwrite else b'?'), 'overwritten when requested')
    if not overwrite:
        env.fs.remove(changed)
        m.PatcherRelease(s, 100).element('game').extract_file(m.PatcherRelease(s, 100).element('game').manif.files['d/b'])
    for v, ws in ((100, (w1, w2)), (200, (w3,))):
        for w in ws:
            for f in w.files:
                p = f'{BASE}/cdtb/releases/live/{v}/files/{f.name}'
                env.check(env.fs.content(p) == w.content(f), 'content of the file')
    real = {env.os.path.realpath(f'{BASE}/cdtb/releases/live/{p}') for p in ('100/files/a', '200/files/a', '200/files/e')}
    env.check(len(real) == (1 if symlinks else 3), 'one copy with links')
    n = len(env.fs.log)
    r = env.call(lambda: m.PatcherRelease(s, 100).extract(**kw))
    env.check(r.ok, 'extraction again')
    env.check((len(env.fs.log) > n) == bool(overwrite), 'extracted again when overwriting')
    env.reach('done')


IDS = {
    'digits': ([0x1, 0x23, 0x12, 0x3], [0x1, 0x23], [0x12, 0x3]),
    'repeated digits': ([0x1, 0x11], [0x1, 0x11], [0x11, 0x1]),
    'high bits': ([5, 5 + (1 << 32), 5 + (1 << 63)], [5, 5 + (1 << 32)], [5, 5 + (1 << 63)]),
    'order': ([1, 2], [1, 2], [2, 1]),
    'prefix': ([1, 2, 3], [1, 2, 3], [1, 2]),
    'suffix': ([1, 2, 3], [1, 2, 3], [2, 3]),
    'repeated': ([1, 2], [1, 1], [1]),
    'one': ([0x31, 0x1], [0x31], [0x1]),
    'zero': ([0x10, 0x1, 0x100], [0x10, 0x1], [0x1, 0x100]),
}


def identifiers(env, symlinks):
    """Different chunk lists"""
    ids, a, b = IDS[env.choose('chunks', IDS)]
    n = len(ids) // 2
    w = World(env, {B7: [2] * n, B9: [2] * (len(ids) - n)}, [F('a', a), F('d/b', b), F('c', a)], ids=ids)
    s, e = setup(env, w, symlinks=symlinks)
    env.check(env.call(lambda: e.extract()).ok, 'extraction succeeds')
    complete(env, w)
    links(env, w, symlinks)
    if symlinks:
        env.check(env.os.path.realpath(f'{ROOT}/a') != env.os.path.realpath(f'{ROOT}/d/b'), 'copies of other chunks')
    env.reach('done')


A = [('a', [1, 2, 3]), ('d/b', [3, 1])]
B = [('a', [4]), ('b', [2, 2]), ('c', [2, 2])]
C = [('b', [3]), ('a', []), ('e/c', [1, 2, 3])]

CASES = [
    Case('fault, links', 'fault', files=A, kind='error', symlinks=True, reach=['failed', 'no failure']),
    Case('fault, plain', 'fault', files=A, kind='error', symlinks=False, reach=['failed', 'no failure']),
    Case('kill, links', 'fault', files=A, kind='crash', symlinks=True, reach=['failed', 'no failure']),
    Case('kill, plain', 'fault', files=A, kind='crash', symlinks=False, reach=['failed', 'no failure']),
    Case('kill, links then plain', 'fault', files=B, kind='crash', symlinks=True, again=False, reach=['failed', 'no failure']),
    Case('kill, plain then links', 'fault', files=B, kind='crash', symlinks=False, again=True, reach=['failed', 'no failure']),
    Case('fault, links, shared', 'fault', files=B, kind='error', symlinks=True, overwrite=(False, True), reach=['failed', 'no failure']),
    Case('fault, plain, shared', 'fault', files=B, kind='error', symlinks=False, overwrite=(False, True), reach=['failed', 'no failure']),
    Case('damage, links', 'damage', files=A, symlinks=True, reach=['failed']),
    Case('damage, plain', 'damage', files=A, symlinks=False, reach=['failed']),
    Case('damage, empty chunks', 'damage', files=B, symlinks=True, reach=['failed']),
    Case('damage, empty file', 'damage', files=C, symlinks=False, reach=['failed']),
    Case('state, links', 'state', symlinks=True, reach=['done', 'error']),
    Case('state, plain', 'state', symlinks=False, reach=['done', 'error']),
    Case('identifiers, links', 'identifiers', symlinks=True, reach=['done']),
    Case('identifiers, plain', 'identifiers', symlinks=False, reach=['done']),
    Case('releases, links', 'release', symlinks=True, reach=['done']),
    Case('releases, plain', 'release', symlinks=False, reach=['done']),
    Case('fault more, links', 'fault', files=C, kind='error', symlinks=True, overwrite=(False, True), quick=False, reach=['failed', 'no failure']),
    Case('kill more, plain', 'fault', files=C, kind='crash', symlinks=False, again=True, overwrite=(False, True), quick=False, reach=['failed', 'no failure']),
]
