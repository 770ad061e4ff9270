"""Release manifests"""
import io
from symx.runner import Case
from harness.util import le, LOWER, UPPER, DIGITS
from harness.rman import Builder, manifest

META = {
    'bounds': 'up to 2 bundles of up to 3 chunks, 3 files of up to 3 chunks, 3 directories (any tree of up to 3 levels), 3 flags; any identifiers, sizes, masks; names of up to 3 characters; '
              'optional fields absent in both ways; 4 layouts of tables, fields and gaps; any header',
    'outside': 'larger manifests; references to missing chunks, flags or directories; repeated identifiers; repeated paths',
    'assumptions': ['zstd decompression is an uninterpreted function which gives the body back'],
}

LAYOUTS = {'plain': {}, 'reverse': {'reverse': True, 'vtable_after': True}, 'gaps': {'gap': 4, 'swap': True}, 'mixed': {'vtable_after': True, 'swap': True, 'gap': 8}}


def distinct(env, xs):
    for i in range(len(xs)):
        for j in range(i):
            env.assume(xs[i] != xs[j])


def load(env, body, minor=0):
    m = env.load('cdtb.patcher')
    data = manifest(env, body, minor)
    if env.flag('by path'):
        env.fs.put('/work/x.manifest', data)
        return env.call(m.PatcherManifest, '/work/x.manifest')
    return env.call(m.PatcherManifest, io.BytesIO(data))


def bundles(env, layout, counts, order):
    """Bundles and their chunks, used by one file in some order"""
    b = Builder(**LAYOUTS[layout])
    bundles = []
    ids = []
    for i, n in enumerate(counts):
        bid = env.uint(f'bundle{i}', 64)
        chunks = [(env.uint(f'chunk{i}.{j}', 64), env.uint(f'csize{i}.{j}', 31), env.uint(f'size{i}.{j}', 32)) for j in range(n)]
        bundles.append((bid, chunks))
        ids += [c[0] for c in chunks]
    distinct(env, ids)
    used = [ids[k] for k in order]
    size = env.uint('file size', 32)
    body = b.body([b.bundle(i, c) for i, c in bundles], [], [b.file(env.uint('file id', 64), None, size, 'f', None, used, None)], [], header=env.choose('header', (0, 4)))
    r = load(env, body, env.choose('minor', (0, 1)))
    env.check(r.ok, 'accepted')
    man = r.value
    env.check(len(man.bundles) == len(bundles), 'number of bundles')
    flat = []
    for got, (bid, chunks) in zip(man.bundles, bundles):
        env.check(got.bundle_id == bid, 'bundle')
        env.check(len(got.chunks) == len(chunks), 'number of chunks')
        offset = 0
        for c, (cid, csize, tsize) in zip(got.chunks, chunks):
            env.check(c.chunk_id == cid and c.size == csize and c.target_size == tsize, 'chunk')
            env.check(c.offset == offset, 'offset of chunk')
            env.check(c.bundle is got, 'bundle of chunk')
            offset = offset + csize
            flat.append(c)
    env.check(len(man.files) == 1, 'one file')
    f = man.files['f']
    env.check(f.name == 'f' and f.size == size, 'file')
    env.check(f.flags is None and not f.link, 'no flags, no link')
    env.check(len(f.chunks) == len(order), 'number of chunks of the file')
    for c, k in zip(f.chunks, order):
        env.check(c is flat[k], 'chunk of the file')
    env.reach('done')


def tree(env, layout, ndirs, nfiles):
    """Directories"""
    b = Builder(**LAYOUTS[layout])
    dids = [env.uint(f'dir{i}', 64) for i in range(ndirs)]
    distinct(env, dids)
    parents = [env.choose(f'parent{i}', [None] + list(range(i))) for i in range(ndirs)]
    dnames = [env.str(f'dname{i}', 1 + i % 2, LOWER + DIGITS + ' ._') for i in range(ndirs)]
    paths = []
    for i in range(ndirs):
        paths.append(dnames[i] if parents[i] is None else paths[parents[i]] + '/' + dnames[i])
    files = []
    dirs = [b.directory(dids[i], None if parents[i] is None else dids[parents[i]], dnames[i]) for i in range(ndirs)]
    if env.flag('other order'):
        dirs.reverse()
    exp = []
    for i in range(nfiles):
        d = env.choose(f'file dir{i}', [None] + list(range(ndirs)))
        name = env.str(f'fname{i}', 2, LOWER + UPPER + '._')
        size = env.uint(f'fsize{i}', 32)
        files.append(b.file(env.uint(f'fid{i}', 64), None if d is None else dids[d], size, name, None, [], None))
        exp.append((name if d is None else paths[d] + '/' + name, size))
    for i in range(nfiles):
        for j in range(i):
            env.assume(exp[i][0] != exp[j][0])
    r = load(env, b.body([], [], files, dirs))
    env.check(r.ok, 'accepted')
    env.check(len(r.value.files) == nfiles, 'number of files')
    for (k, f), (path, size) in zip(r.value.files.items(), exp):
        env.check(k == path and f.name == path, 'path of file')
        env.check(f.size == size and len(f.chunks) == 0, 'file')
    env.reach('done')


def options(env, layout, fids):
    """Flags, links, absent fields"""
    b = Builder(**LAYOUTS[layout])
    names = [env.str(f'flag{i}', 3 + i, LOWER + UPPER + '_') for i in range(len(fids))]
    mask = env.uint('mask', 64) if env.flag('has flags') else None
    if mask is not None:
        allowed = 0
        for f in fids:
            allowed |= 1 << (f - 1)
        env.assume((mask & ~allowed & 0xffffffffffffffff) == 0)
    link = env.str('link', env.choose('link length', (0, 2))) if env.flag('has link') else None
    size = env.uint('size', 32) if env.flag('has size') else None
    nfields = env.choose('fields', (13, 10, 8))
    if nfields == 8:
        env.assume(link is None)
    body = b.body([], [b.flag(f, n) for f, n in zip(fids, names)], [b.file(1, None, size, 'name', mask, [], link, nfields)], [])
    r = load(env, body)
    env.check(r.ok, 'accepted')
    f = r.value.files['name']
    if link is None:
        env.check(not f.link, 'no link')
    else:
        env.check(f.link == link, 'link')
    if size is None:
        env.check(not f.size, 'default size')
    else:
        env.check(f.size == size, 'size')
    exp = []
    if mask is not None:
        for fid, n in sorted(zip(fids, names), key=lambda x: x[0]):
            if mask & (1 << (fid - 1)):
                exp.append(n)
    if exp:
        env.check(f.flags is not None and env.eq(list(f.flags), exp), 'flags of file')
        env.reach('flags')
    else:
        env.check(not f.flags, 'no flag')
    env.reach('done')


def header(env):
    m = env.load('cdtb.patcher')
    body = Builder().body([], [], [Builder().file(1, None, 2, 'n', None, [], None)][:0], [])
    z = env.compressed('zstd', body, 12)
    magic = env.bytes('magic', 4)
    major, minor = env.uint('major', 8), env.uint('minor', 8)
    flags = env.uint('flags', 16)
    offset = env.uint('offset', 32)
    after = env.bytes('after', 4)
    data = magic + le(major, 1) + le(minor, 1) + le(flags, 2) + le(offset, 4) + le(12, 4) + env.bytes('id', 8) + le(env.uint('length', 32), 4) + z + after
    r = env.call(m.PatcherManifest, io.BytesIO(data))
    if env.all([magic == b'RMAN', major == 2, minor <= 1, (flags & 0x200) != 0, offset == 28]):
        env.check(r.ok, 'accepted')
        env.check(len(r.value.files) == 0 and len(r.value.bundles) == 0, 'empty manifest')
        env.reach('accepted')
    else:
        env.check(not r.ok, 'another magic number, version or layout is rejected')
        env.reach('rejected')


CASES = [
    Case('header', 'header', reach=['accepted', 'rejected']),
    Case('bundles plain', 'bundles', layout='plain', counts=(2, 1), order=(0, 1, 2), reach=['done']),
    Case('bundles reverse', 'bundles', layout='reverse', counts=(1, 2), order=(2, 0, 1), reach=['done']),
    Case('bundles gaps', 'bundles', layout='gaps', counts=(3,), order=(2, 2, 0), reach=['done']),
    Case('bundles mixed', 'bundles', layout='mixed', counts=(0, 2), order=(1,), reach=['done']),
    Case('tree plain', 'tree', layout='plain', ndirs=2, nfiles=2, reach=['done']),
    Case('tree reverse', 'tree', layout='reverse', ndirs=3, nfiles=1, reach=['done']),
    Case('tree mixed', 'tree', layout='mixed', ndirs=1, nfiles=2, reach=['done']),
    Case('tree more', 'tree', layout='gaps', ndirs=3, nfiles=3, quick=False, reach=['done']),
    Case('options plain', 'options', layout='plain', fids=(1, 2, 3), reach=['done', 'flags']),
    Case('options gaps', 'options', layout='gaps', fids=(64, 33), reach=['done', 'flags']),
    Case('options mixed', 'options', layout='mixed', fids=(5, 4, 32), reach=['done', 'flags']),
]
