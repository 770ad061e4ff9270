"""Patch version of a release"""
from symx.runner import Case
from harness.pstore import World, F, setup, put_release, manifest_path, BASE, URL, GAME_URL, CLIENT_URL
from harness.faults import run
from harness.util import DIGITS, LOWER

META = {
    'bounds': 'versions of up to 3 numbers of up to 2 digits (all digits), some with numbers of 3 and 4 digits, in 8 forms of system.yaml lines among other lines, and in content metadata; any other characters in the free parts of lines; '
              'bundles present or not; cached values; one HTTP, data or file system failure or kill at any operation, followed by another reading',
    'outside': 'other long numbers, numbers with leading zeros, lines split over chunks in odd ways, non-ASCII digits',
    'assumptions': ['zstd decompression gives each chunk back'],
}
DIR = f'{BASE}/cdtb/releases/live/100'


def number(env, name, n, first='123456789'):
    s = env.str(name + '.0', 1, first)
    return s + env.str(name + '.1', n - 1, DIGITS) if n > 1 else s


def version(env, name, lengths):
    nums = [number(env, f'{name}{i}', n, DIGITS if n == 1 and i else '123456789') for i, n in enumerate(lengths)]
    return nums[0] + '.' + nums[1], '.'.join(nums)


def server(env, w, fail=None):
    def handle(method, url, kw):
        if fail is not None:
            r = fail(url)
            if r is not None:
                return r
        for bid, data in w.bundle_data.items():
            if url == w.bundle_url(bid):
                return env.response(data)
        return None
    env.http_handler = handle


LINES = {
    'slash': lambda a, v, b: '    branch: Releases/' + v + '\n',
    'quoted slash': lambda a, v, b: '    branch: "Releases/' + v + '"\n',
    'game branch': lambda a, v, b: 'game-branch: "Release/' + v + '"\n',
    'single': lambda a, v, b: "  game-branch: '" + v + "'\n",
    'double': lambda a, v, b: ' branch: "' + v + '"\n',
    'text': lambda a, v, b: 'branch: ' + a + '/' + v + '\n',
    'path': lambda a, v, b: '  branch: x/' + a + '/' + v + '"\n',
    'end of file': lambda a, v, b: 'game-branch: "' + v + '"',
}
BEFORE = {
    'nothing': lambda a: '',
    'other keys': lambda a: 'system:\n  build: "9.9.9"\n  my-branch: "8.8"\n  branches: "7.7"\n',
    'no version': lambda a: '  branch: main\n  branch: "' + a + 'x"\n',
    'no quote': lambda a: '  branch: 7.7\n',
    'trailing': lambda a: '  branch: "7.7" # ' + a + '\n  branch: "7.7"" \n',
    'comment': lambda a: '# branch: "7.7"\n  -branch: "7.7"\n',
    'tab': lambda a: '\tbranch: "7.7"\n  Branch: "7.7"\n  game branch: "7.7"\n  branch : "7.7"\n',
}


def client(env, lines, before, lengths):
    short, full = version(env, 'v', lengths)
    a = env.str('a', 2, LOWER + DIGITS + ' ._-')
    text = BEFORE[env.choose('before', before)](a) + LINES[env.choose('line', lines)](a, full, '')
    if text.endswith('\n'):
        text = text + env.choose('after', ('', '    branch: Releases/6.6\n'))
    data = text.encode('utf-8')
    cut = env.choose('cut', (3, len(data)))
    w = World(env, {1: [data[:cut], data[cut:]]}, [F('system.yaml', [1, 2]), F('content-metadata.json', [1])])
    s, e = setup(env, w, 'client')
    read(env, s, e, 'client', short)


def game(env, lengths, tails):
    short, full = version(env, 'v', lengths)
    tail = env.choose('tail', tails)
    b = env.str('b', 2, LOWER + DIGITS + '+.')
    data = env.json_bytes({'other': '1.2.3', 'version': full + tail + (b if tail else '')})
    w = World(env, {1: [data]}, [F('content-metadata.json', [1]), F('system.yaml', [1])])
    s, e = setup(env, w, 'game')
    read(env, s, e, 'game', short)


def read(env, s, e, name, short):
    m = env.load('cdtb.patcher')
    r = env.call(e.patch_version)
    env.check(r.ok, 'version is found')
    env.check(env.eq(str(r.value), short), 'version of the metadata file')
    env.check(r.value == m.PatchVersion(short), 'patch version')
    env.check(env.os.path.isfile(f'{DIR}/patch_version.{name}'), 'version is cached')
    for p in list(env.fs.files(BASE)):
        if p.startswith('channels/') or '/files/' in p:
            env.fs.remove(f'{BASE}/{p}')
    e2 = m.PatcherRelease(m.PatcherStorage(BASE), 100).element(name)
    r = env.call(e2.patch_version)
    env.check(r.ok and env.eq(str(r.value), short), 'same version from the cache')
    pe = env.call(m.PatcherPatchElement, e2)
    env.check(pe.ok and env.eq(str(pe.value.version), short) and pe.value.name == name, 'version of the patch element')
    env.check(not env.http_log, 'nothing is requested')
    env.reach('done')


def bad(env):
    """No version can be told"""
    name = env.choose('element', ('game', 'client'))
    if name == 'client':
        data = env.choose('text', ('', 'branch: main\n', 'x: "1.2"\n', '  branch: "12"\n', '  branch: "1..2"\n')).encode()
    else:
        data = env.choose('text', ('', '{}', '{"version": "main"}', '{"version": "12."}', '{"version": "a14.2.3"}', '[]', '{"version": null}', 'text')).encode()
    fn = {'game': 'content-metadata.json', 'client': 'system.yaml'}[name]
    other = {'client': 'content-metadata.json', 'game': 'system.yaml'}[name]
    good = {'client': b'  branch: "14.1"\n', 'game': b'{"version": "14.1.5"}'}
    missing = env.flag('file is missing')
    w = World(env, {1: [data], 2: [good['game' if name == 'client' else 'client']]}, ([] if missing else [F(fn, [1])]) + [F(other, [2])])
    s, e = setup(env, w, name)
    for _ in range(2):
        r = env.call(e.patch_version)
        env.check(not r.ok or r.value is None, 'no version is made up')
        c = env.fs.content(f'{DIR}/patch_version.{name}')
        env.check(c is None, 'nothing is cached')
    if not missing:
        env.check(not r.ok, 'failure is raised')
    env.reach('missing' if missing else 'bad')


def pbe(env):
    name = env.choose('element', ('game', 'client'))
    m = env.load('cdtb.patcher')
    put_release(env, patchline='pbe', **{name: {'game': GAME_URL, 'client': CLIENT_URL}[name]})
    if env.flag('cache'):
        env.fs.put(f'{BASE}/cdtb/releases/pbe/100/patch_version.{name}', '9.9\n')
    e = m.PatcherRelease(m.PatcherStorage(BASE, 'pbe'), 100).element(name)
    r = env.call(e.patch_version)
    env.check(r.ok and str(r.value) == 'main' and r.value == m.PatchVersion('main'), 'main')
    env.check(not env.http_log, 'nothing is requested')
    env.reach('done')


def failing(env, kind, symlinks):
    """Failure while reading, then another reading"""
    m = env.load('cdtb.patcher')
    name = env.choose('element', ('game', 'client'))
    short, full = version(env, 'v', (1, 2, 1))
    data = env.json_bytes({'version': full + '.x'}) if name == 'game' else ('  game-branch: "' + full + '"\n').encode()
    fn = {'game': 'content-metadata.json', 'client': 'system.yaml'}[name]
    cut = 1 if name == 'game' else 4
    w = World(env, {1: [data] if name == 'game' else [data[:cut]], 2: [b'x'] if name == 'game' else [data[cut:], b'x']}, [F(fn, [1] if name == 'game' else [1, 2]), F('other', [2])])
    s, e = setup(env, w, name, symlinks=symlinks, bundles=False)
    env.fs.put(w.bundle_path(1), w.bundle_data[1]) if env.flag('first bundle present') else None
    extracted = env.choose('extracted', ('no', 'complete', 'partial'))
    if extracted != 'no':
        env.fs.put(f'{DIR}/files/{fn}', data if extracted == 'complete' else data[:0])
    failed = []
    how = env.choose('failure', ('status', 'connection')) if kind == 'http' else None

    def fail(url):
        if kind == 'http' and not failed:
            failed.append(url)
            return env.connection_error() if how == 'connection' else env.response(b'{"version": "1.1.1"}', status=404)
    server(env, w, fail)
    if kind == 'http':
        r = env.call(e.patch_version)
        happened = bool(failed)
    else:
        happened, r = run(env, kind, e.patch_version, limit=50)
    if happened:
        env.check(r is None or not r.ok or env.eq(str(r.value), short), 'no version is made up')
        if kind == 'http':
            env.check(not r.ok, 'failure is raised')
    else:
        env.check(r.ok and env.eq(str(r.value), short), 'version')
    for _ in range(2):
        e2 = m.PatcherRelease(m.PatcherStorage(BASE), 100).element(name)
        e2.release.storage.use_extract_symlinks = symlinks
        r = env.call(e2.patch_version)
        env.check(r.ok and env.eq(str(r.value), short), 'version of the next readings')
    if extracted != 'complete':
        env.check(set(w.bundle_url(b) for b in w.needed(w.files[:1])) >= {u for _, u in env.http_log}, 'only needed bundles are fetched')
    else:
        env.check(not env.http_log, 'nothing is fetched when the file is there')
    env.reach('failed' if happened else 'no failure')


def both(env):
    """Elements of one release, and other releases, have their own version"""
    m = env.load('cdtb.patcher')
    short1, full1 = version(env, 'g', (1, 1))
    short2, full2 = version(env, 'c', (1, 1))
    put_release(env, game=GAME_URL, client=CLIENT_URL)
    w1 = World(env, {1: [env.json_bytes({'version': full1 + '.1'})]}, [F('content-metadata.json', [1])])
    w2 = World(env, {2: [('  branch: "' + full2 + '"\n').encode()]}, [F('system.yaml', [5])], first=5)
    env.fs.put(manifest_path(GAME_URL), w1.manifest())
    env.fs.put(manifest_path(CLIENT_URL), w2.manifest())
    w1.put_bundles()
    w2.put_bundles()
    s = m.PatcherStorage(BASE)
    env.fs.put(f'{BASE}/cdtb/releases/live/99/release.json', env.json_bytes({'game_patch_url': GAME_URL}))
    env.fs.put(f'{BASE}/cdtb/releases/live/99/patch_version.game', env.choose('cached', ('9.9', '9.9\n', '9.9.1\n')))
    order = env.choose('order', (('game', 'client', 'old'), ('client', 'old', 'game')))
    for _ in range(2):
        for n in order:
            e = m.PatcherRelease(s, 99 if n == 'old' else 100).element('client' if n == 'client' else 'game')
            r = env.call(e.patch_version)
            env.check(r.ok and env.eq(str(r.value), {'game': short1, 'client': short2, 'old': '9.9'}[n]), 'own version')
    env.reach('done')


L = list(LINES)
CASES = [
    Case('system.yaml', 'client', lines=L, before=('nothing',), lengths=(1, 2), reach=['done']),
    Case('system.yaml, 3 numbers', 'client', lines=L, before=('nothing',), lengths=(2, 2, 1), reach=['done']),
    Case('system.yaml, other lines', 'client', lines=('quoted slash', 'game branch'), before=list(BEFORE), lengths=(2, 1), reach=['done']),
    Case('content metadata', 'game', lengths=(2, 2), tails=('.', '.5', '.77.'), reach=['done']),
    Case('content metadata, 3 numbers', 'game', lengths=(1, 1, 2), tails=('', '.', '+'), reach=['done']),
    Case('content metadata, long numbers', 'game', lengths=(2, 3, 4), tails=('.', '.5'), reach=['done']),
    Case('system.yaml, long numbers', 'client', lines=('slash', 'single'), before=('nothing',), lengths=(3, 3), reach=['done']),
    Case('no version', 'bad', reach=['missing', 'bad']),
    Case('PBE', 'pbe', reach=['done']),
    Case('HTTP failure', 'failing', kind='http', symlinks=True, reach=['failed', 'no failure']),
    Case('failing operation, links', 'failing', kind='error', symlinks=True, reach=['failed', 'no failure']),
    Case('failing operation, plain', 'failing', kind='error', symlinks=False, reach=['failed', 'no failure']),
    Case('kill, links', 'failing', kind='crash', symlinks=True, reach=['failed', 'no failure']),
    Case('kill, plain', 'failing', kind='crash', symlinks=False, reach=['failed', 'no failure']),
    Case('two elements', 'both', reach=['done']),
    Case('system.yaml more', 'client', lines=L, before=list(BEFORE), lengths=(2, 2, 2), quick=False, reach=['done']),
]
