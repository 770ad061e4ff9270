"""Extraction of RADS packages"""
from symx.runner import Case
from harness.faults import run
from harness.util import DIGITS

META = {
    'bounds': 'packages of any content up to 200 bytes, with up to 3 files of any offset and size (two digits, not overlapping), streamed in up to 4 pieces of any length; '
              'zlib or gzip files among raw ones, cut at every byte, whose decompressor outputs early, evenly or late; up to 3 packages with any files already extracted; '
              'HTTP errors, streams which end or fail at any byte, one failing operation or kill at any file system operation, followed by another extraction',
    'outside': 'overlapping files, paths with commas, longer manifests, corrupt compressed data, files which have the same path',
    'assumptions': ['the decompressor outputs a prefix of the content for each prefix of the stored data, and all of it when flushed at the end'],
}
BASE = '/st'
DIR = 'projects/lol_x/releases/0.0.1.7'
URL = 'http://l3cdn.riotgames.com/releases/live/'


def version(env):
    m = env.load('cdtb.rads')
    s = m.RadsStorage(BASE)
    return m.RadsProjectVersion(m.RadsProject(s, 'lol_x'), m.RadsVersion('0.0.1.7'))


def number(env, name, n=2):
    """A number, as text"""
    return env.str(name + 'a', 1, '123456789') + env.str(name + 'b', n - 1, DIGITS)


def manifest(lines, end='\r\n'):
    return end.join(['PKG1'] + lines + [''])


def serve(env, packages, man, pieces=None, fail=None):
    """packages: {name: content}; pieces: {name: list}"""
    def handle(method, url, kw):
        if fail is not None:
            r = fail(url)
            if r is not None:
                return r
        if url == URL + DIR + '/packages/files/packagemanifest':
            return env.response(man)
        if url == URL + DIR + '/releasemanifest':
            return env.response(b'RLSM')
        for name, data in packages.items():
            if url == URL + DIR + '/packages/files/' + name:
                if pieces is not None and name in pieces:
                    return env.response(data, chunks=lambda size: iter(pieces[name]))
                return env.response(data)
        return None
    env.http_handler = handle


def requested(env):
    p = URL + DIR + '/packages/files/'
    return sorted(u[len(p):] for _, u in env.http_log if u.startswith(p) and not u.endswith('manifest'))


def layout(env, nfiles, ncuts, size=32, digits=1):
    """Any offsets, sizes and pieces"""
    pkg = env.buf('package', size)
    n = len(pkg)
    order = env.choose('order', {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)]}[nfiles])
    files, end = [], 0
    for i in range(nfiles):
        off, sz = (env.str(f'{k}{i}', 1, DIGITS) if digits == 1 else number(env, f'{k}{i}') for k in ('off', 'size'))
        o, s = int(off), int(sz)
        env.assume(o >= end)
        end = o + s
        files.append((f'{DIR}/files/f{i}.bin', off, sz, o, s))
    cuts = []
    for i in range(ncuts):
        c = env.int(f'cut{i}', 0, size)
        env.assume(c <= n)
        if cuts:
            env.assume(c >= cuts[-1])
        cuts.append(c)
    bounds = [0] + cuts + [n]
    pieces = [pkg[a:b] for a, b in zip(bounds, bounds[1:])]
    man = manifest([f'/{files[k][0]},BIN_0x00000000,' + files[k][1] + ',' + files[k][2] + ',0' for k in order])
    serve(env, {'BIN_0x00000000': pkg}, man, {'BIN_0x00000000': pieces})
    pv = version(env)
    r = env.call(pv.extract)
    for p, _, _, o, s in files:
        c = env.fs.content(f'{BASE}/{p}')
        if c is not None:
            env.check(len(c) == s, 'size of the file')
            env.check(c == pkg[o:o + s], 'content of the file')
        elif r.ok:
            env.fail('file is extracted')
    if r.ok:
        env.check(end <= n, 'file is in the package')
        env.reach('extracted')
    else:
        env.check(end > n, 'extraction succeeds')
        env.reach('truncated')
    env.check(requested(env) == ['BIN_0x00000000'], 'package is requested once')
    env.check(sorted(q for q in env.fs.files(BASE)) == sorted([f'{DIR}/packagemanifest'] + [p for p, *_ in files if env.fs.content(f'{BASE}/{p}') is not None]), 'no other file')


class Packages:
    """Raw and compressed files with known content"""

    def __init__(self, env, spec):
        """spec: {package: [(name, kind, length, gap before)]}"""
        self.env = env
        self.data = {}
        self.files = {}
        lines = []
        for pkg, entries in spec.items():
            data = b''
            for name, kind, n, gap in entries:
                content = env.bytes(name, n)
                data += bytes([0x99] * gap)
                stored = content if kind == 'raw' else env.compressed(kind, content, 5)
                suffix = '' if kind == 'raw' else '.compressed'
                lines.append(f'/{DIR}/files/{name}{suffix},{pkg},{len(data)},{len(stored)},0')
                data += stored
                self.files[f'{DIR}/files/{name}'] = (pkg, content)
            self.data[pkg] = data
        self.lines = lines
        self.man = manifest(lines)

    def complete(self, paths=None):
        for p in (self.files if paths is None else paths):
            self.env.check(self.env.fs.content(f'{BASE}/{p}') == self.files[p][1], 'content of the file')

    def partial(self):
        """Files which are there are complete; no other one"""
        for p in list(self.env.fs.files(BASE)):
            if p in self.files:
                self.env.check(self.env.fs.content(f'{BASE}/{p}') == self.files[p][1], 'no partial file')


def cut(data, cuts):
    b = [0] + list(cuts) + [len(data)]
    return [data[i:j] for i, j in zip(b, b[1:])]


def compressed(env, spec, ncuts):
    p = Packages(env, {'BIN_0x00000001': spec})
    data = p.data['BIN_0x00000001']
    cuts = []
    for i in range(ncuts):
        cuts.append(env.choose(f'cut{i}', range(cuts[-1] if cuts else 0, len(data) + 1)))
    env.libs['zlib_pace'] = env.choose('pace', ('even', 'late', 'early'))
    serve(env, p.data, p.man, {'BIN_0x00000001': cut(data, cuts)})
    pv = version(env)
    r = env.call(pv.extract)
    env.check(r.ok, 'extraction succeeds')
    p.complete()
    env.check(sorted(env.fs.files(BASE)) == sorted([f'{DIR}/packagemanifest'] + list(p.files)), 'no other file')
    env.reach('done')


SPEC = {'BIN_0x00000000': [('a.txt', 'raw', 2, 0), ('sub/b.txt', 'zlib', 3, 1)],
        'BIN_0x00000001': [('c', 'gzip', 1, 0), ('empty', 'raw', 0, 2)],
        'BIN_0x00000002': [('d.compressed.txt', 'raw', 2, 3)]}


def existing(env, via):
    """Files which are there are not extracted again"""
    p = Packages(env, SPEC)
    lines = list(p.lines)
    if via != 'paths' and env.flag('reversed'):
        lines.reverse()
    serve(env, p.data, manifest(lines, env.choose('line end', ('\r\n', '\n'))))
    have = []
    for i, f in enumerate(p.files):
        if (via != 'paths' or i in (1, 3)) and env.flag(f'has{i}'):
            env.fs.put(f'{BASE}/{f}', b'there')
            have.append(f)
    pv = version(env)
    if via == 'download':
        r = env.call(pv.download)
        want = list(p.files)
    else:
        want = [f for i, f in enumerate(p.files) if env.flag(f'wanted{i}')] if via == 'paths' else list(p.files)
        r = env.call(pv.extract, want) if via == 'paths' else env.call(pv.extract)
    env.check(r.ok, 'extraction succeeds')
    for f in p.files:
        c = env.fs.content(f'{BASE}/{f}')
        if f in have:
            env.check(c == b'there', 'existing file is not changed')
        elif f in want:
            env.check(c == p.files[f][1], 'content of the file')
        else:
            env.check(c is None, 'other files are not extracted')
    need = []
    for f in want:
        if f not in have and p.files[f][0] not in need:
            need.append(p.files[f][0])
    env.check(requested(env) == sorted(need), 'only needed packages are requested, once')
    env.check(env.fs.content(f'{BASE}/{DIR}/packagemanifest') is not None, 'manifest is stored')
    if via == 'download':
        env.check(env.fs.content(f'{BASE}/{DIR}/releasemanifest') == b'RLSM', 'release manifest is stored')
    n = len(env.http_log)
    r = env.call(version(env).extract)
    if want == list(p.files):
        env.check(r.ok and len(env.http_log) == n, 'nothing is requested again')
    env.check(sorted(env.call(version(env).filepaths).value) == sorted(p.files), 'paths of the manifest')
    env.reach('nothing' if not need else 'some')


FAILS = ('status', 'timeout', 'truncated', 'broken', 'manifest status', 'manifest timeout', 'releasemanifest status')


def failing(env):
    """HTTP failures, then a working server"""
    p = Packages(env, SPEC)
    kind = env.choose('failure', FAILS)
    target = env.choose('package', list(SPEC)) if 'manifest' not in kind else None
    data = p.data.get(target, b'')
    # the last byte is needed in each package
    stop = env.choose('stop', range(len(data))) if kind in ('truncated', 'broken') else 0
    first = env.choose('first piece', (0, stop // 2)) if stop else 0
    active = [True]

    def pieces(size):
        yield data[:first]
        yield data[first:stop]
        if kind == 'broken':
            raise env.connection_error()

    def fail(url):
        if not active[0]:
            return None
        if 'manifest' in kind:
            if url.endswith('/releasemanifest' if kind.startswith('release') else '/packagemanifest'):
                return env.response(b'error page', status=404) if 'status' in kind else env.timeout_error()
        elif url.endswith(target):
            if kind == 'status':
                return env.response(b'error page' * 9, status=503)
            if kind == 'timeout':
                return env.timeout_error()
            return env.response(data[:stop], chunks=pieces)
        return None
    serve(env, p.data, p.man, fail=fail)
    r = env.call(version(env).download)
    env.check(not r.ok, 'failure is raised')
    p.partial()
    for f in env.fs.files(BASE):
        env.check(f in p.files or f.endswith('manifest'), 'no other file is left')
    active[0] = False
    r = env.call(version(env).download)
    env.check(r.ok, 'another extraction succeeds')
    p.complete()
    env.reach(kind)


def fault(env, kind, limit):
    """One operation fails, or the process is killed"""
    spec = {'BIN_0x00000000': [('a.txt', 'raw', 2, 0), ('sub/b.txt', 'zlib', 3, 1)], 'BIN_0x00000001': [('c', 'raw', 2, 1)]}
    p = Packages(env, spec)
    pieces = {k: cut(v, [len(v) - 1]) for k, v in p.data.items()}
    env.libs['zlib_pace'] = env.choose('pace', ('even', 'late'))
    serve(env, p.data, p.man, pieces)
    happened, r = run(env, kind, lambda: version(env).download(), limit=limit)
    if r is not None:
        env.check(r.ok == (not happened), 'failure is raised')
    p.partial()
    if kind == 'error':
        for f in env.fs.files(BASE):
            env.check(f in p.files or f.endswith('manifest'), 'no other file is left')
    r = env.call(version(env).download)
    env.check(r.ok, 'another extraction succeeds')
    p.complete()
    env.reach('failed' if happened else 'extracted')


def bad(env):
    """Manifests which are not"""
    text = env.choose('manifest', ('', 'PKG\r\n', 'XPKG1\r\n', '<html>\r\n', 'PKG1\r\n/a,b,1,2\r\n', 'PKG1\r\n/a,b,x,2,0\r\n', 'PKG1\r\n/a,b,1,,0\r\n', 'RADS'))
    serve(env, {}, text)
    r = env.call(version(env).extract)
    env.check(not r.ok, 'bad manifest is rejected')
    env.check(not requested(env), 'no package is requested')
    env.check(sorted(env.fs.files(BASE)) in ([], [f'{DIR}/packagemanifest']), 'nothing is extracted')
    env.reach('rejected')


def reader(env, nops):
    """The stream reader gives consecutive parts"""
    m = env.load('cdtb.storage')
    data = env.buf('data', 64)
    n = len(data)
    c = env.int('cut', 0, 64)
    env.assume(c <= n)
    rd = m.RequestStreamReader(env.response(data, chunks=lambda size: iter([data[:c], data[c:]])))
    pos = 0
    for i in range(nops):
        op = env.choose(f'op{i}', ('copy', 'skip', 'skip_to'))
        k = env.int(f'n{i}', 0, 64)
        out = []
        if op == 'copy':
            r = env.call(rd.copy, out.append, k)
        elif op == 'skip':
            r = env.call(rd.skip, k)
        else:
            r = env.call(rd.skip_to, pos + k)
        if pos + k > n:
            env.check(not r.ok, 'reading too far fails')
            env.reach('failed')
            return
        env.check(r.ok, 'reading succeeds')
        got = b''
        for x in out:
            got = got + x
        if op == 'copy':
            env.check(got == data[pos:pos + k], 'data which is read')
        pos = pos + k
    if pos > 0:
        env.check(not env.call(rd.skip_to, pos - 1).ok, 'no way back')
    env.reach('done')


CASES = [
    Case('1 file', 'layout', nfiles=1, ncuts=2, size=200, digits=2, reach=['extracted', 'truncated']),
    Case('2 files', 'layout', nfiles=2, ncuts=1, reach=['extracted', 'truncated']),
    Case('2 files, 3 pieces', 'layout', nfiles=2, ncuts=2, quick=False, reach=['extracted', 'truncated']),
    Case('3 files', 'layout', nfiles=3, ncuts=0, reach=['extracted', 'truncated']),
    Case('3 files, 4 pieces', 'layout', nfiles=3, ncuts=3, size=300, quick=False, reach=['extracted', 'truncated']),
    Case('compressed', 'compressed', spec=[('a', 'raw', 1, 1), ('b', 'zlib', 4, 0), ('c', 'gzip', 1, 1)], ncuts=2, reach=['done']),
    Case('compressed, 4 pieces', 'compressed', spec=[('b', 'zlib', 4, 1), ('c', 'raw', 2, 0), ('d', 'zlib', 0, 0)], ncuts=3, quick=False, reach=['done']),
    Case('existing files', 'existing', via='extract', reach=['nothing', 'some']),
    Case('download', 'existing', via='download', reach=['nothing', 'some']),
    Case('some files', 'existing', via='paths', reach=['nothing', 'some']),
    Case('HTTP failures', 'failing', reach=FAILS),
    Case('failing operation', 'fault', kind='error', limit=32, reach=['failed', 'extracted']),
    Case('kill', 'fault', kind='crash', limit=32, reach=['failed', 'extracted']),
    Case('bad manifest', 'bad', reach=['rejected']),
    Case('stream reader', 'reader', nops=2, reach=['done', 'failed']),
    Case('stream reader, 4 reads', 'reader', nops=4, quick=False, reach=['done', 'failed']),
]
