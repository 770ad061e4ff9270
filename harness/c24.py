"""Files which are not exported again"""
from symx.runner import Case
from harness.util import LOWER, wad_header, wad_entry, le

META = {
    'bounds': 'up to 3 entries in each archive with any 64-bit hash and checksum (distinct hashes in an archive), archives of all versions with and without checksums, known and unknown paths, equal or different export paths; '
              'up to 3 plain files with any names and storage paths of one letter; every predicate on the paths of entries (its verdict is symbolic)',
    'outside': 'two entries of an archive with the same hash',
    'assumptions': [],
}


def archive(env, path, entries, version):
    """Archive of empty entries of given hashes and checksums"""
    if version == 1:
        data = b'RW\x01\x00\x68\x00\x18\x00' + le(len(entries), 4)
        for h, sha in entries:
            data += h.to_bytes(8, 'little') + le(500, 4) + le(0, 4) + le(0, 4) + le(0, 4)
    elif version == 2:
        data = b'RW\x02\x00' + bytes(96) + le(len(entries), 4)
        for h, sha in entries:
            data += wad_entry(h, 500, 0, 0, 0, 0, sha, 3)
    else:
        data = wad_header(version - 30, len(entries))
        for h, sha in entries:
            data += wad_entry(h, 500, 0, 0, 0, 0, sha, version - 30)
    env.fs.put(path, data + bytes(100))


def exporter(env, wads, plain, tag, known):
    """Exporter with these archives, from files added one after another"""
    e = env.load('cdtb.export').Exporter('/out')
    for name, (source, entries, version) in wads.items():
        if not env.os.path.exists(source):
            archive(env, source, entries, version)
        e.add_path(source, name)
    for name, source in plain:
        e.add_path(source, name)
    return e


def setup(env, hashes):
    h = env.load('cdtb.hashes')
    h.hashfile_game.hashes = dict(hashes)
    h.hashfile_lcu.hashes = dict(hashes)


def entries_of(env, tag, n, version, values):
    ents = []
    for i in range(n):
        h = env.uint(f'{tag} hash{i}', 64) if values == 'any' else env.uint(f'{tag} hash{i}', 2)
        for o, _ in ents:
            env.assume(o != h)
        sha = env.uint(f'{tag} sha{i}', 64) if version != 1 else None
        ents.append((h, sha))
    return ents


def snapshot(e):
    return ([(k, w.path, [(f, f.path, f.path_hash, f.sha256) for f in w.files]) for k, w in e.wads.items()], list(e.plain_files.items()))


def same(env, a, b):
    if len(a[0]) != len(b[0]) or len(a[1]) != len(b[1]):
        return False
    for (k, p, fs), (k2, p2, fs2) in zip(a[0], b[0]):
        if k != k2 or p != p2 or len(fs) != len(fs2):
            return False
        for f, f2 in zip(fs, fs2):
            if f[0] is not f2[0] or not env.eq(f[1], f2[1]) or not env.eq(f[2], f2[2]) or not env.eq(f[3], f2[3]):
                return False
    return len(a[1]) == len(b[1]) and all(env.eq(x, y) for i, j in zip(a[1], b[1]) for x, y in zip(i, j))


def archives(env, sizes, versions, paths):
    """The same archive in both exports"""
    n1, n2 = env.choose('sizes', sizes)
    v1, v2 = env.choose('versions', versions)
    setup(env, {})
    e1 = entries_of(env, 'new', n1, v1, 'any')
    e2 = entries_of(env, 'old', n2, v2, 'any')
    new = exporter(env, {'a.wad.client': ('/new/a.wad.client', e1, v1)}, [], 'new', {})
    old = exporter(env, {'a.wad.client': ('/old/a.wad.client', e2, v2)}, [], 'old', {})
    p1 = [env.choose('new path', paths) for _ in e1]
    p2 = [env.choose('old path', paths) for _ in e2]
    for ex, ps in ((new, p1), (old, p2)):
        for f, p in zip(ex.wads['a.wad.client'].files, ps):
            f.path = p
    all_files = list(new.wads['a.wad.client'].files)
    before = snapshot(old)
    r = env.call(new.filter_exporter, old)
    env.check(r.ok, 'files are filtered')
    env.check(same(env, snapshot(old), before), 'the previous export is kept')
    kept = list(new.wads['a.wad.client'].files) if 'a.wad.client' in new.wads else []
    expected = []
    for f, (h, sha), p in zip(all_files, e1, p1):
        gone = False
        if sha is not None:
            for (h2, sha2), q in zip(e2, p2):
                if sha2 is not None and p == q and h == h2 and sha == sha2:
                    gone = True
        if not gone:
            expected.append(f)
    env.check(len(kept) == len(expected) and all(a is b for a, b in zip(kept, expected)), 'exactly the identical files are left out')
    for f, (h, sha), p in zip(all_files, e1, p1):
        env.check(f.path == p and env.eq(f.path_hash, h) and env.eq(f.sha256, sha), 'entries are kept as they are')
    env.check(('a.wad.client' in new.wads) == (expected != []), 'emptied archives are left out')
    env.reach('kept' if len(kept) == n1 else 'emptied' if not kept else 'filtered')


def several(env):
    """Archives and plain files in one, the other, or both exports"""
    setup(env, {})
    h = env.uint('hash', 64)
    sha = env.uint('sha', 64)
    sources = {}
    exps = []
    where = {}
    for tag in ('new', 'old'):
        wads = {}
        for w in ('a.wad', 'b.wad.client'):
            st = env.choose(f'{tag} {w}', ('none', 'own', 'common') if w == 'a.wad' else ('none', 'own'))
            where[tag, w] = st
            if st != 'none':
                src = ('/common/' if st == 'common' else f'/{tag}/') + w
                x = sha if st == 'common' or tag == 'old' else env.uint(f'sha {w}', 64)
                where[tag, w, 'sha'] = x
                wads[w] = (src, [(h, x)], 34)
        plain = []
        for i in range(2 if tag == 'new' else 1):
            plain.append((env.str(f'{tag} name{i}', 1, LOWER), '/st/' + env.str(f'{tag} source{i}', 1, LOWER)))
        if len(plain) == 2:
            env.assume(plain[0][0] != plain[1][0])
        where[tag] = plain
        exps.append(exporter(env, wads, plain, tag, {}))
    new, old = exps
    for e in exps:
        for w in e.wads.values():
            w.files[0].path = 'x/y.png'
    before = snapshot(old)
    r = env.call(new.filter_exporter, old)
    env.check(r.ok, 'files are filtered')
    env.check(same(env, snapshot(old), before), 'the previous export is kept')
    for w in ('a.wad', 'b.wad.client'):
        if where['new', w] == 'none':
            env.check(w not in new.wads, 'archives are not added')
        elif where['old', w] == 'none':
            env.check(w in new.wads and len(new.wads[w].files) == 1, 'new archives are kept')
            env.reach('new archive')
        elif env.eq(where['new', w, 'sha'], where['old', w, 'sha']):
            env.check(w not in new.wads, 'identical archives are left out')
            env.reach('identical')
        else:
            env.check(w in new.wads and len(new.wads[w].files) == 1, 'changed archives are kept')
            env.reach('changed')
    on, op = where['old'][0]
    n = 0
    for name, source in where['new']:
        if env.eq(name, on) and env.eq(source, op):
            env.check(name not in new.plain_files, 'identical plain files are left out')
            env.reach('same plain file')
        else:
            n += 1
            env.check(name in new.plain_files, 'other plain files are kept')
            env.check(env.eq(new.plain_files[name], source), 'source of plain files')
    env.check(len(new.plain_files) == n, 'plain files are not added')
    env.reach('plain')


def same_archive(env):
    """The stored archive is the same"""
    setup(env, {})
    v = env.choose('version', (1, 2, 34))
    e = entries_of(env, 'entries', 2, v, 'any')
    new = exporter(env, {'a.wad': ('/st/a.wad', e, v), 'c.wad': ('/st/a.wad', e, v)}, [], 'new', {})
    old = exporter(env, {env.choose('name', ('a.wad', 'b.wad')): ('/st/a.wad', e, v)}, [], 'old', {})
    r = env.call(new.filter_exporter, old)
    env.check(r.ok, 'files are filtered')
    env.check(('a.wad' in new.wads) == ('a.wad' not in old.wads), 'the same archive is left out')
    env.check('c.wad' in new.wads and len(new.wads['c.wad'].files) == 2, 'archives are compared by name')
    env.reach('kept' if 'a.wad' in new.wads else 'left out')


def predicate(env, nfiles, plain=True):
    """Filter by path"""
    setup(env, {})
    wads = {}
    paths = {}
    for w, n in zip(('a.wad', 'b.wad.client'), nfiles):
        wads[w] = ('/st/' + w, [(10 + i, i) for i in range(n)], 34)
        paths[w] = [None if env.flag('unknown') else env.str('path', 1, 'abc') for _ in range(n)]
    plain = [(env.str('plain', 1, 'abc'), '/st/x'), ('other', '/st/y')] if plain else []
    e = exporter(env, wads, plain, '', {})
    files = {}
    for w in wads:
        files[w] = list(e.wads[w].files)
        for f, p in zip(files[w], paths[w]):
            f.path = p
    keep = {'a': env.flag('a'), 'b': env.flag('b'), 'c': env.flag('c'), None: env.flag('None'), 'other': env.flag('other')}
    truthy = env.choose('truth', ('bool', 'value'))

    def pred(p):
        if p is None or env.eq(p, 'other'):
            k = keep[p if p is None else 'other']
        else:
            k = keep['a'] if env.eq(p, 'a') else keep['b'] if env.eq(p, 'b') else keep['c']
        if truthy == 'value':
            return p or 'x' if k else ''
        return k
    r = env.call(e.filter_export_paths, pred)
    env.check(r.ok, 'files are filtered')
    for w in wads:
        exp = [f for f, p in zip(files[w], paths[w]) if pred(p)]
        if exp:
            env.check(w in e.wads, 'archives with files are kept')
            env.check(len(e.wads[w].files) == len(exp) and all(a is b for a, b in zip(e.wads[w].files, exp)), 'files of archives are filtered')
            env.reach('archive')
        else:
            env.check(w not in e.wads, 'emptied archives are removed')
            env.reach('emptied')
        for f, p in zip(files[w], paths[w]):
            env.check(env.eq(f.path, p), 'paths are kept')
    exp = [(k, s) for k, s in plain if pred(k)]
    env.check(len(e.plain_files) == len(exp), 'plain files are filtered')
    for k, s in exp:
        env.check(k in e.plain_files and e.plain_files[k] == s, 'plain files which are kept')
    env.reach('plain')


CASES = [
    Case('entries of an archive', 'archives', sizes=((1, 1), (1, 2), (2, 1), (2, 0)), versions=((34, 34),), paths=('x', 'y'), reach=['kept', 'filtered', 'emptied']),
    Case('entries of archives of all versions', 'archives', sizes=((1, 1), (2, 2)), versions=((1, 1), (1, 2), (2, 1), (2, 33), (33, 34), (34, 1)), paths=('x',), reach=['kept', 'filtered', 'emptied']),
    Case('unknown paths', 'archives', sizes=((1, 1),), versions=((34, 34), (31, 30)), paths=('x', None), reach=['kept', 'emptied']),
    Case('three entries', 'archives', sizes=((3, 3), (3, 1), (1, 3)), versions=((34, 34),), paths=('x',), quick=False, reach=['kept', 'filtered', 'emptied']),
    Case('three entries, paths', 'archives', sizes=((2, 2), (3, 2)), versions=((34, 34), (33, 34)), paths=('x', 'y'), quick=False, reach=['kept', 'filtered', 'emptied']),
    Case('archives and plain files', 'several', reach=['new archive', 'identical', 'changed', 'same plain file', 'plain']),
    Case('same archive', 'same_archive', reach=['kept', 'left out']),
    Case('predicate', 'predicate', nfiles=(1, 0), reach=['archive', 'emptied', 'plain']),
    Case('predicate on an archive', 'predicate', nfiles=(0, 2), plain=False, reach=['archive', 'emptied']),
    Case('predicate on all', 'predicate', nfiles=(2, 1), quick=False, reach=['archive', 'emptied', 'plain']),
]
