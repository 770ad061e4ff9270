"""Download of bundles and manifests"""
from symx.runner import Case
from harness.pstore import World, F, setup, languages, put_release, manifest_path, BASE, URL, GAME_URL, CLIENT_URL
from harness.faults import run
from harness.util import DIGITS, UPPER, LOWER

META = {
    'bounds': 'elements of 4 files and 3 bundles, each bundle and manifest present or not, files extracted or not, files with flags and links, all kinds of language filters; one HTTP failure (4 kinds) of any bundle, '
              'or one failure or kill at any file system operation, followed by a download without failure; every schedule of 2 or 3 concurrent downloads with one or two preemptions; manifest URLs with any name of 15 to 17 characters',
    'outside': 'more bundles or preemptions, two failures at once, truncated HTTP responses which requests does not detect',
    'assumptions': ['the tasks of a thread pool are interleaved at file system operations and requests', 'the CDN serves each bundle with its content'],
}
B1, B2, B3 = 0x1a, 0xffff00000000000c, 3
FILES = f'{BASE}/cdtb/releases/live/100/files'


def server(env, w, fail=None):
    """CDN; `fail(url)` may give a failing answer"""
    def handle(method, url, kw):
        if fail is not None:
            r = fail(url)
            if r is not None:
                return r
        for bid, data in w.bundle_data.items():
            if url == w.bundle_url(bid):
                return env.response(data)
        if url in (GAME_URL, CLIENT_URL):
            return env.response(w.manifest())
        return None
    env.http_handler = handle


def fetched(env):
    return [u for _, u in env.http_log]


def check_bundles(env, w, before):
    """Every bundle file is complete"""
    for bid, data in w.bundle_data.items():
        p = w.bundle_path(bid)
        if env.os.path.lexists(p) and bid not in before:
            env.check(env.fs.content(p) == data, 'bundle is complete')


def selection(env, flags, links, more):
    files = [F('a/x', [1, 4], flags=1), F('b', [2, 3], flags=flags), F('c', [5], link='b' if links else None), F('d', [1], flags=2)]
    w = World(env, {B1: [2, 1], B2: [1, 2], B3: [1]}, files, ('en_US', 'fr_FR', 'macos'))
    s, e = setup(env, w, bundles=False)
    present = [b for b in (B1, B2, B3) if env.flag(f'bundle {b:x} present')]
    if present == [B2] or present == [B1, B3]:
        env.fs.remove(manifest_path(GAME_URL))
        expected = [GAME_URL]
    else:
        expected = []
    for b in present:
        env.fs.put(w.bundle_path(b), w.bundle_data[b])
    extracted = []
    for f in files[:1 + more]:
        k = env.choose('state of ' + f.name, ('missing', 'extracted', 'partial'))
        if k == 'extracted':
            env.fs.put(f'{FILES}/{f.name}', w.content(f))
            extracted.append(f)
        elif k == 'partial':
            env.fs.put(f'{FILES}/{f.name}', w.content(f)[:1])
    server(env, w)
    langs, pred = languages(env, ('all', 'none', 'name', 'two', 'other'))
    selected = [f for f in files if not f.link and pred([t for i, t in enumerate(('en_US', 'fr_FR', 'macos')) if f.flags & (1 << i)])]
    via = env.choose('through', ('element', 'release', 'patch element'))
    skip = True if via == 'patch element' else env.choose('skip extracted', (None, True, False))
    kw = {} if skip is None or via == 'patch element' else {'skip_extracted': skip}
    if langs is not True:
        kw['langs'] = langs
    if via == 'patch element':
        m = env.load('cdtb.patcher')
        o = m.PatcherPatchElement.__new__(m.PatcherPatchElement)
        o.elem = e
        r = env.call(lambda: o.download(**kw))
    else:
        o = e if via == 'element' else e.release
        r = env.call(lambda: o.download_bundles(**kw))
    env.check(r.ok, 'download succeeds')
    want = [f for f in selected if not (skip is not False and f in extracted)]
    expected += [w.bundle_url(b) for b in w.needed(want) if b not in present]
    env.check(sorted(fetched(env)) == sorted(expected), 'each needed bundle is fetched once, and no other')
    check_bundles(env, w, [])
    if via != 'patch element':
        r = env.call(lambda: e.extract(**({} if langs is True else {'langs': langs})))
        env.check(r.ok, 'selected files can be extracted')
    for f in selected:
        env.check(env.fs.content(f'{FILES}/{f.name}') == w.content(f), 'content')
    n = len(env.http_log)
    r = env.call(lambda: (e if via == 'patch element' else o).download_bundles(**dict(kw, skip_extracted=False)))
    env.check(r.ok and len(env.http_log) == n + len([b for b in w.needed(selected) if b not in present and w.bundle_url(b) not in expected]), 'nothing is fetched twice')
    env.reach('some' if want else 'nothing')


def failing(env, kind, switches=0, nbundles=3):
    """Failing downloads, then another one"""
    sizes = dict(list({B1: [2, 1], B2: [1, 2], B3: [1]}.items())[:nbundles])
    files = [F('a/x', [1, 4]), F('b', [2, 3])] + ([F('c', [5])] if nbundles > 2 else [])
    w = World(env, sizes, files)
    s, e = setup(env, w, bundles=False, symlinks=env.flag('links') if not switches else True)
    e.manif
    env.libs['pool_switches'] = switches
    at = env.choose('failing bundle', list(sizes)) if kind == 'http' else None
    how = env.choose('failure', ('status 404', 'status 500', 'connection', 'timeout')) if kind == 'http' else None
    failed = []

    def fail(url):
        if at is None or failed or url != w.bundle_url(at):
            return None
        failed.append(url)
        if how == 'connection':
            return env.connection_error()
        if how == 'timeout':
            return env.timeout_error()
        return env.response(b'error', status=404 if how == 'status 404' else 500)
    server(env, w, fail)
    if kind == 'http':
        r = env.call(lambda: e.download_bundles())
        happened = bool(failed)
        env.check(happened, 'bundle is requested')
    elif kind == 'none':
        r = env.call(lambda: e.download_bundles())
        happened = False
    else:
        happened, r = run(env, kind, lambda: e.download_bundles(), limit=30)
    if happened:
        if r is not None and r.ok:
            env.check(all([env.os.path.isfile(w.bundle_path(b)) for b in sizes]), 'all bundles are there, or an error is raised')
        if kind == 'http':
            env.check(not r.ok, 'failure is raised')
            env.check(not env.os.path.lexists(w.bundle_path(at)), 'failed bundle is not there')
    else:
        env.check(r.ok, 'download succeeds')
    env.check(len(fetched(env)) <= nbundles, 'no bundle is requested twice')
    check_bundles(env, w, [])
    if kind != 'crash':
        for p in env.fs.files(f'{BASE}/channels/public/bundles') if env.os.path.isdir(f'{BASE}/channels/public/bundles') else []:
            env.check(f'{BASE}/channels/public/bundles/{p}' in [w.bundle_path(b) for b in sizes], 'no other file is left')
    there = [b for b in sizes if env.os.path.isfile(w.bundle_path(b))]
    if not happened:
        env.check(len(there) == nbundles, 'all bundles are there')
    n = len(env.http_log)
    r = env.call(lambda: e.download_bundles())
    env.check(r.ok, 'second download succeeds')
    env.check(sorted(fetched(env)[n:]) == sorted(w.bundle_url(b) for b in sizes if b not in there), 'only missing bundles are fetched')
    env.check(env.call(lambda: e.extract()).ok, 'files can be extracted')
    for f in files:
        env.check(env.fs.content(f'{FILES}/{f.name}') == w.content(f), 'content')
    env.reach('failed' if happened else 'no failure')


def download(env):
    """Storage.download"""
    m = env.load('cdtb.patcher')
    s = m.PatcherStorage(BASE)
    data, old = env.bytes('data', 3), env.bytes('old', 3)
    src, path = 'some/dir/file', env.choose('path', (None, 'other/place', 'flat'))
    full = f'{BASE}/{path or src}'
    present = env.flag('present')
    if present:
        env.fs.put(full, old)
    force = env.choose('force', (None, False, True))
    k = env.choose('answer', ('ok', 'status 404', 'status 503', 'connection', 'timeout'))

    def handle(method, url, kw):
        env.check(method.upper() == 'GET' and url == URL + src, 'URL')
        if k == 'ok':
            return env.response(data)
        if k.startswith('status'):
            return env.response(b'page', status=int(k[7:]))
        return env.connection_error() if k == 'connection' else env.timeout_error()
    env.http_handler = handle
    kw = {} if force is None else {'force': force}
    r = env.call(lambda: s.download(src, path, **kw))
    skipped = present and not force
    env.check(len(env.http_log) == (0 if skipped else 1), 'requested only when needed')
    env.check(r.ok == (skipped or k == 'ok'), 'failure is raised')
    if skipped:
        env.check(env.fs.content(full) is old, 'present file is kept')
    elif k == 'ok':
        env.check(env.fs.content(full) == data, 'content')
    elif env.os.path.lexists(full):
        env.check(present and env.fs.content(full) == old, 'no partial file')
    env.reach('skipped' if skipped else k)


OTHER = ('https://lol.dyn.riotcdn.net.secure/', 'https://x.lol.dyn.riotcdn.net/', 'https://lol.dyn.riotcdn.net/x/', 'https://lol.dyn.riotcdn.net//', 'https://lol.dyn.riotcdn.net', 'lol.dyn.riotcdn.net/',
         'https://lol-dyn.riotcdn.net/', 'https://lol.insecure.dyn.riotcdn.net/', 'https://lol.dyn.riotcdn.net.x/', 'https://LOL.dyn.riotcdn.net/', ' https://lol.dyn.riotcdn.net/', '/', '')


def manifest_url(env, length, secure):
    """Manifests given by URL or ID"""
    m = env.load('cdtb.patcher')
    s = m.PatcherStorage(BASE)
    name = env.str('name', length, DIGITS + UPPER + LOWER + './')
    base = env.choose('base', ('https://lol.dyn.riotcdn.net/', 'https://lol.dyn.riotcdn.com/', 'http://lol.dyn.riotcdn.net/', *OTHER))
    if secure and base not in OTHER:
        base = base.replace('lol.', 'lol.secure.')
    end = env.choose('suffix', ('.manifest', '.manifest2', ''))
    data = env.bytes('data', 2)
    env.http_handler = lambda method, url, kw: env.response(data)
    r = env.call(lambda: s.download_manifest(f'{base}channels/public/releases/{name}{end}'))
    hexa = env.all([env.any([c == x for x in '0123456789ABCDEF']) for c in name]) if length == 16 else False
    good = base.startswith('https://lol.') and base.endswith('.net/') and base not in OTHER and end == '.manifest' and bool(hexa)
    env.check(r.ok == good, 'accepted exactly when well-formed')
    if good:
        env.check(env.eq(r.value, f'channels/public/releases/{name}.manifest'), 'path')
        env.check(len(env.http_log) == 1 and env.eq(fetched(env)[0], f'{URL}channels/public/releases/{name}.manifest'), 'URL')
        env.check(env.fs.content(f'{BASE}/{r.value}') == data, 'content')
        env.call(lambda: s.download_manifest(f'{URL}channels/public/releases/{name}{end}'))
        env.check(len(env.http_log) == 1, 'fetched once')
    else:
        env.check(not env.http_log, 'nothing is requested')
    env.reach('good' if good else 'bad')


def manifest_id(env):
    m = env.load('cdtb.patcher')
    s = m.PatcherStorage(BASE)
    mid = env.uint('id', 64)
    bundle = env.flag('bundle')
    env.http_handler = lambda method, url, kw: env.response(b'data')
    exp = 'channels/public/bundles/%016X.bundle' if bundle else 'channels/public/releases/%016X.manifest'
    if env.flag('unknown element'):
        put_release(env, 5, client=None, game='')
        e = m.PatcherReleaseElement(m.PatcherRelease(s, 5), env.choose('name', ('client', 'game')))
        env.check(not env.call(lambda: e.manif).ok, 'no manifest')
        env.check(not env.http_log, 'nothing is requested')
        return
    r = env.call(lambda: (s.download_bundle if bundle else s.download_manifest)(mid))
    env.check(r.ok and env.eq(r.value, exp % mid), 'path')
    env.check(len(env.http_log) == 1 and env.eq(fetched(env)[0], URL + exp % mid), 'URL')
    env.check(env.os.path.isfile(f'{BASE}/{r.value}'), 'stored')
    env.reach('done')


FR = ['failed', 'no failure']
CASES = [
    Case('selection', 'selection', flags=3, links=False, more=0, reach=['some', 'nothing']),
    Case('selection, links', 'selection', flags=4, links=True, more=0, reach=['some', 'nothing']),
    Case('selection, more', 'selection', flags=0, links=True, more=1, quick=False, reach=['some', 'nothing']),
    Case('HTTP failure', 'failing', kind='http', reach=['failed']),
    Case('failing operation', 'failing', kind='error', reach=FR),
    Case('kill', 'failing', kind='crash', reach=FR),
    Case('schedules', 'failing', kind='none', switches=1, reach=['no failure']),
    Case('schedules, 2 switches', 'failing', kind='none', switches=2, nbundles=2, reach=['no failure']),
    Case('schedules, HTTP failure', 'failing', kind='http', switches=1, nbundles=2, reach=['failed']),
    Case('schedules, failing operation', 'failing', kind='error', switches=1, nbundles=2, reach=FR),
    Case('schedules, kill', 'failing', kind='crash', switches=1, nbundles=2, reach=FR),
    Case('schedules, 3 bundles, 2 switches', 'failing', kind='none', switches=2, quick=False, reach=['no failure']),
    Case('schedules, failing operation, 2 switches', 'failing', kind='error', switches=2, nbundles=2, quick=False, reach=FR),
    Case('download', 'download', reach=['skipped', 'ok', 'status 404', 'connection']),
    Case('manifest URL', 'manifest_url', length=16, secure=False, reach=['good', 'bad']),
    Case('manifest URL, secure', 'manifest_url', length=16, secure=True, reach=['good', 'bad']),
    Case('manifest URL, short', 'manifest_url', length=15, secure=False, reach=['bad']),
    Case('manifest URL, long', 'manifest_url', length=17, secure=False, reach=['bad']),
    Case('identifiers', 'manifest_id', reach=['done']),
]
