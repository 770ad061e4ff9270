"""WAD directory decoding"""
from symx.runner import Case

META = {
    'bounds': 'every WAD file of major version 1, 2, 3 (any minor) and up to 3 directory records (quick; 6 thorough) plus a truncated record, '
              'every header/record byte symbolic; every magic and version pair; hash tables of up to 3 symbolic hashes',
    'outside': 'longer directories; file system errors while reading',
    'assumptions': ['struct, open/read and dict are modelled; the models are validated by concrete replay of explored paths'],
}


def u(b, a, n):
    return int.from_bytes(b[a:a+n], 'little')


HEADER = {1: 8, 2: 100, 3: 268}
RECORD = {1: 24, 2: 32, 3: 32}


def directory(env, major, nrec, cut):
    """Any file of this major version and size: exactly the records of the directory, or an error"""
    wad = env.load('cdtb.wad')
    minor = env.uint('minor', 8)
    start = HEADER[major] + 4
    rec = RECORD[major]
    size = start + rec * nrec + cut
    pad = env.bytes('pad', 8)
    data = b'RW' + bytes([major, minor]) + (pad * 40)[:HEADER[major] - 4] + env.bytes('count', 4) + env.bytes('dir', rec * nrec + cut)
    env.fs.put('/work/a.wad', data)
    n = u(data, start - 4, 4)
    w = env.call(wad.Wad, '/work/a.wad', {})
    fits = n <= nrec
    if not fits:
        env.check(not w.ok, 'a truncated directory is an error')
        env.reach('truncated')
        return
    env.check(w.ok, 'a complete directory is accepted')
    w = w.value
    env.check(env.eq(tuple(w.version), (major, minor)), 'version')
    env.check(len(w.files) == n, 'one entry per record')
    for i, f in enumerate(w.files):
        p = start + rec * i
        env.check(f.path_hash == u(data, p, 8), 'path hash of entry')
        env.check(f.offset == u(data, p + 8, 4), 'offset of entry')
        env.check(f.compressed_size == u(data, p + 12, 4), 'compressed size of entry')
        env.check(f.size == u(data, p + 16, 4), 'size of entry')
        t = data[p + 20]
        env.check(f.type == t % 16, 'storage type of entry')
        env.check(f.subchunk_count == t // 16, 'number of subchunks of entry')
        env.check(f.path is None, 'unknown path')
        if major == 1:
            env.check(f.sha256 is None, 'no checksum in version 1')
            continue
        env.check(f.sha256 == u(data, p + 24, 8), 'checksum of entry')
        if major == 3 and minor >= 4:
            env.check(f.first_subchunk_index == data[p + 21] * 65536 + u(data, p + 22, 2), 'first subchunk (24 bits)')
            env.reach('v3.4')
        else:
            env.check(f.first_subchunk_index == u(data, p + 22, 2), 'first subchunk (16 bits)')
            env.check(f.duplicate == (data[p + 21] != 0), 'duplicate flag')
    env.reach(f'{nrec} records' if len(w.files) == nrec else 'fewer records')


def versions(env):
    """Any magic and version; the version selects the layout"""
    wad = env.load('cdtb.wad')
    head = env.bytes('head', 4)
    n = 1
    sizes = {}
    # a file in which the count is 0 for all layouts
    env.fs.put('/work/a.wad', head + bytes(400))
    w = env.call(wad.Wad, '/work/a.wad', {})
    if env.all([head[0] == ord('R'), head[1] == ord('W'), head[2] >= 1, head[2] <= 3]):
        env.check(w.ok, 'supported version is accepted')
        env.check(len(w.value.files) == 0, 'empty directory')
        env.check(env.eq(tuple(w.value.version), (head[2], head[3])), 'version')
        env.reach('supported')
    else:
        env.check(not w.ok, 'other magic or version is rejected')
        env.check(w.exc_name == 'ValueError', 'rejected with ValueError')
        env.reach('rejected')


def names(env, nfiles, nhashes, paths):
    """Paths come from the given hash table only, by hash"""
    wad = env.load('cdtb.wad')
    minor = env.choose('minor', (0, 4))
    data = bytes([82, 87, 3, minor]) + bytes(264) + bytes([nfiles, 0, 0, 0])
    hs = []
    for i in range(nfiles):
        h = env.bytes(f'hash{i}', 8)
        hs.append(u(h, 0, 8))
        data += h + bytes(24)
    env.fs.put('/work/a.wad', data)
    keys = [env.uint(f'key{j}', 64) for j in range(nhashes)]
    for j in range(nhashes):
        for k in range(j):
            env.assume(keys[j] != keys[k])
    table = {keys[j]: paths[j][0] for j in range(nhashes)}
    w = env.call(wad.Wad, '/work/a.wad', table)
    env.check(w.ok, 'accepted')
    env.check(len(w.value.files) == nfiles, 'one entry per record')
    for f, h in zip(w.value.files, hs):
        for j in range(nhashes):
            if h == keys[j]:
                env.check(f.path == paths[j][0], 'path of a known hash')
                env.check(f.ext == paths[j][1], 'extension of the path')
                env.reach('known')
                break
        else:
            env.check(f.path is None, 'path of an unknown hash')
            env.check(not f.ext, 'no extension without path')
            env.reach('unknown')
    env.check(len(table) == nhashes, 'hash table unchanged')


PATHS = [('a/b.c/d.dds', 'dds'), ('plugins/x/noext', ''), ('assets/y.tar.gz', 'gz'), ('.hidden', ''), ('DATA/Z.BIN', 'BIN')]

CASES = [Case('versions', 'versions', reach=['supported', 'rejected'])]
for major in (1, 2, 3):
    for nrec in (0, 1, 3):
        CASES.append(Case(f'v{major} {nrec} records', 'directory', major=major, nrec=nrec, cut=0, reach=[f'{nrec} records', 'truncated']))
    CASES.append(Case(f'v{major} 1 record and cut', 'directory', major=major, nrec=1, cut=RECORD[major] - 1, reach=['1 records', 'truncated']))
    CASES.append(Case(f'v{major} 6 records', 'directory', quick=False, major=major, nrec=6, cut=5, reach=['6 records', 'truncated']))
CASES.append(Case('names 2x2', 'names', nfiles=2, nhashes=2, paths=PATHS[:2], reach=['known', 'unknown']))
CASES.append(Case('names 1x3', 'names', nfiles=1, nhashes=3, paths=PATHS[2:], reach=['known', 'unknown']))
CASES.append(Case('names 3x3', 'names', quick=False, nfiles=3, nhashes=3, paths=PATHS[:3], reach=['known', 'unknown']))
