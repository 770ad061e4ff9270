"""Location and update of hash files"""
from symx.runner import Case
from harness import faults

META = {
    'bounds': 'each environment variable unset, empty, or an absolute or relative directory of any 2-letter name; hash files missing or modified at any time of a range of several days around each of 5 publication times; published content of up to 4 bytes of any value; '
              'failing requests (errors 403, 404, 500, connection errors, timeouts), each failing operation of the file system',
    'outside': 'servers which give no or an invalid date; clocks which differ',
    'assumptions': [],
}
BASE = 'https://raw.communitydragon.org/data/hashes/lol/'
DATES = (('Mon, 01 Jan 2024 00:00:00 GMT', 1704067200), ('Thu, 29 Feb 2024 12:30:05 GMT', 1709209805), ('Sun, 31 Mar 2024 01:59:59 GMT', 1711850399), ('Wed, 09 Sep 2026 23:59:59 GMT', 1788998399), ('Tue, 31 Dec 2019 23:00:00 GMT', 1577833200))


def directory(env):
    """Hash directory"""
    values = {}
    for name in ('CDTB_HASHES_DIR', 'CDRAGON_DATA', 'XDG_DATA_HOME', 'LOCALAPPDATA'):
        kind = env.choose(name, ('unset', 'empty', 'absolute', 'relative')) if name in ('XDG_DATA_HOME', 'CDRAGON_DATA') else env.choose(name, ('unset', 'absolute', 'empty'))
        if kind == 'unset':
            continue
        v = '' if kind == 'empty' else ('/' if kind == 'absolute' else '') + env.str(name + ' value', 2, 'abcxyz.') + '/d'
        env.os.environ[name] = v
        values[name] = v
    home = env.choose('home', ('/home/user', '/root'))
    env.os.environ['HOME'] = home
    exists = env.flag('default directory exists')
    if exists:
        env.fs.makedirs(home + '/.local/share/cdragon', True)
    if values.get('CDTB_HASHES_DIR'):
        expected, which = values['CDTB_HASHES_DIR'], 'CDTB_HASHES_DIR'
    elif values.get('CDRAGON_DATA'):
        expected, which = values['CDRAGON_DATA'] + '/hashes/lol', 'CDRAGON_DATA'
    else:
        if values.get('XDG_DATA_HOME') and values['XDG_DATA_HOME'].startswith('/'):
            base, which = values['XDG_DATA_HOME'], 'XDG_DATA_HOME'
        elif values.get('LOCALAPPDATA'):
            base, which = values['LOCALAPPDATA'], 'LOCALAPPDATA'
        else:
            base, which = home + '/.local/share', 'home'
        expected = base + '/cdragon/data/hashes/lol'
    m = env.load('cdtb.hashes')

    def norm(p):
        return env.os.path.normpath(env.os.fspath(p))
    env.check(norm(m.default_hash_dir) == norm(expected), 'hash directory')
    env.check(norm(m.hashfile_lcu.filename) == norm(expected + '/hashes.lcu.txt'), 'hash file of the client')
    env.check(norm(m.hashfile_game.filename) == norm(expected + '/hashes.game.txt'), 'hash file of the game')
    env.reach(which)


def hash_files(env):
    """Hash file used for an archive"""
    name = env.str('name', 2, 'ab.w')
    suffix, which = env.choose('suffix', (('.wad.client', 'game'), ('.wad', 'lcu'), ('.wad.clients', None), ('.client', None), ('', None), ('.wad.client.wad', 'lcu'), ('.WAD', None), ('wad', None), ('.wad.', None)))
    base = env.choose('directory', ('', 'x.wad.client/', 'x.wad/'))
    m = env.load('cdtb.hashes')
    path = base + name + suffix
    if which is None and path.endswith('.wad'):
        which = 'lcu'
    r = env.call(m.default_hashfile, path)
    if which is None:
        env.check(not r.ok and r.exc_name == 'ValueError', 'other files are refused')
        env.reach('none')
    else:
        env.check(r.ok and r.value is (m.hashfile_game if which == 'game' else m.hashfile_lcu), 'hash file of the archive')
        env.reach(which)


def setup(env):
    env.os.environ['CDTB_HASHES_DIR'] = '/work/hashes'
    m = env.load('cdtb.hashes')
    date, stamp = env.choose('published', DATES)
    content = env.bytes('content', env.choose('content length', (4, 0)), 0, 255)
    return m, date, stamp, content


def update(env):
    """Update of a hash file"""
    m, date, stamp, content = setup(env)
    path = '/work/hashes/hashes.x.txt'
    state = env.choose('local file', ('present', 'missing', 'no directory'))
    local = None
    old = b'old content'
    if state == 'present':
        local = env.int('modified', stamp - 400000, stamp + 400000)
        env.fs.put(path, old)
        env.fs.lookup(path).mtime = local
    elif state == 'missing':
        env.fs.makedirs('/work/hashes', True)
        env.fs.put('/work/hashes/hashes.other.txt', b'other')
    problem = env.choose('problem', ('none', 'head', 'get'))
    error = env.choose('error', (404, 500, 403, 'timeout', 'connection')) if problem != 'none' else None
    asked = []

    def handler(method, url, kw):
        asked.append((method, url))
        env.check(url == BASE + 'hashes.x.txt', 'requested URL')
        if problem == method.lower():
            if error == 'timeout':
                raise env.timeout_error()
            if error == 'connection':
                raise env.connection_error()
            return env.response(b'error page', status=error, headers={'last-modified': env.choose('date of the error', (date, 'Tue, 31 Dec 2030 23:00:00 GMT'))})
        if method == 'HEAD':
            return env.response(b'', headers={'last-modified': date})
        return env.response(content, headers={'last-modified': date})
    env.http_handler = handler
    r = env.call(m.update_default_hashfile, 'hashes.x.txt')
    outdated = local is None or local < stamp
    if outdated:
        failed = problem == 'get' or (problem == 'head' and local is not None)
    else:
        failed = problem == 'head'
    env.check(r.ok != failed, 'failed updates are reported')
    got = env.fs.content(path)
    if failed:
        env.check(got is None if local is None else env.eq(got, old), 'a failed update changes nothing')
        env.reach('failed')
    elif outdated:
        env.check(got is not None and env.eq(got, content), 'published content')
        env.reach('updated')
    else:
        env.check(env.eq(got, old), 'files which are up to date are left alone')
        env.check(not any(method == 'GET' for method, _ in asked), 'files which are up to date are not downloaded')
        env.reach('up to date')
    env.check(all(p.endswith(('hashes.x.txt', 'hashes.other.txt')) for p in env.fs.files('/work')), 'no other file is left')


def update_faults(env):
    """Update which fails when writing"""
    m, date, stamp, content = setup(env)
    path = '/work/hashes/hashes.x.txt'
    present = env.flag('present')
    if present:
        env.fs.put(path, b'old')
        env.fs.lookup(path).mtime = stamp - 1
    env.http_handler = lambda method, url, kw: env.response(content, headers={'last-modified': date})
    kind = env.choose('kind', ('error', 'crash'))
    failed, r = faults.run(env, kind, m.update_default_hashfile, 'hashes.x.txt', limit=8)
    got = env.fs.content(path)
    if failed:
        env.check(r is None or not r.ok or got is not None and env.eq(got, content), 'failed updates are reported')
        env.check(got is None or env.eq(got, content) or present and env.eq(got, b'old'), 'no partial file')
        if kind == 'error' and not r.ok:
            env.check(all(p == 'hashes/hashes.x.txt' for p in env.fs.files('/work')), 'no other file is left')
        env.reach(kind)
    else:
        env.check(r.ok and env.eq(got, content), 'published content')
        env.reach('updated')


def history(env):
    """Successive updates"""
    m, date, stamp, content = setup(env)
    path = '/work/hashes/hashes.x.txt'
    state = {'content': content, 'date': date}
    gets = []

    def handler(method, url, kw):
        if method == 'GET':
            gets.append(url)
        return env.response(b'' if method == 'HEAD' else state['content'], headers={'last-modified': state['date']})
    env.http_handler = handler
    env.fs.clock = stamp + 100
    env.check(env.call(m.update_default_hashfile, 'hashes.x.txt').ok, 'the file is downloaded')
    env.check(env.call(m.update_default_hashfile, 'hashes.x.txt').ok and len(gets) == 1, 'a file is downloaded once')
    newer = [d for d, s in DATES if s > stamp + 100]
    env.assume(len(newer) > 0)
    state['date'] = newer[0]
    state['content'] = content + b'x'
    env.check(env.call(m.update_default_hashfile, 'hashes.x.txt').ok and len(gets) == 2, 'a newer file is downloaded')
    env.check(env.eq(env.fs.content(path), content + b'x'), 'published content')
    env.reach('updated')


CASES = [
    Case('hash directory', 'directory', reach=['CDTB_HASHES_DIR', 'CDRAGON_DATA', 'XDG_DATA_HOME', 'LOCALAPPDATA', 'home']),
    Case('hash files of archives', 'hash_files', reach=['game', 'lcu', 'none']),
    Case('update', 'update', reach=['failed', 'updated', 'up to date']),
    Case('failing writes', 'update_faults', reach=['error', 'crash', 'updated']),
    Case('successive updates', 'history', reach=['updated']),
]
