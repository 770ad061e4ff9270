"""Configuration of storages"""
from symx.runner import Case
from harness.util import LOWER

META = {
    'bounds': 'designations which are a directory (with or without configuration file or channels), a file, a missing path with or without `:`, of any lowercase names of up to 3 letters; '
              'configuration files with every type, relative or absolute paths of up to 3 components (`.`, `..`, any name of 2 letters) and options; every option value among those listed',
    'outside': 'unreadable files, other platforms than POSIX; the `region` option, which is documented but not used',
    'assumptions': [],
}
TYPES = ('patcher', 'rads')


def name(env, n, k=2):
    return env.str(n, k, LOWER)


def norm(env, base, path):
    """Absolute or relative path, normalised, from its components; base is a list of components (absolute)"""
    out = [] if path[:1] == ['/'] else list(base)
    for c in path:
        if c in ('/', '.', ''):
            continue
        if isinstance(c, str) and c == '..':
            if out:
                out.pop()
            continue
        out.append(c)
    return '/' + '/'.join(out)


PATHS = {'none': None, 'dot': ['.'], 'name': ['N'], 'up': ['..', 'N'], 'deep': ['.', 'N', 'st'], 'absolute': ['/', 'N', 'st'], 'slash': ['N', ''], 'back': ['N', '..', '..', 'st'], 'top': ['/']}


def conf_path(env, key):
    c = PATHS[key]
    if c is None:
        return None, ['.']
    c = [name(env, 'conf path') if x == 'N' else x for x in c]
    text = c[0] if c == ['/'] else '/' + '/'.join(c[1:]) if c[0] == '/' else '/'.join(c)
    return text, c


OPTIONS = {
    'patcher': ({}, {'patchline': 'pbe'}, {'patchline': 'live', 'use_extract_symlinks': False}, {'use_extract_symlinks': True, 'clientconfig_data': 'clientconfig.json'}, {'clientconfig_data': 'https://x/y'}),
    'rads': ({}, {'cdn': 'default'}, {'cdn': 'kr'}, {'cdn': 'pbe'}, {'url': 'http://x/y/'}),
}
RADS_URL = {None: 'http://l3cdn.riotgames.com/releases/live/', 'default': 'http://l3cdn.riotgames.com/releases/live/', 'kr': 'http://l3cdn.riotgames.com/KR_CBT/',
            'pbe': 'http://l3cdn.riotgames.com/releases/pbe/'}


def check_storage(env, s, kind, path, options):
    p, r = env.load('cdtb.patcher'), env.load('cdtb.rads')
    env.check(isinstance(s, p.PatcherStorage if kind == 'patcher' else r.RadsStorage), 'type of the storage')
    env.check(env.eq(s.path, path), 'path of the storage')
    env.check(env.eq(s.fspath('a/b'), path + ('a/b' if path.endswith('/') else '/a/b')), 'paths in the storage')
    if kind == 'patcher':
        env.check(s.patchline == options.get('patchline', 'live'), 'patchline')
        env.check(s.use_extract_symlinks is options.get('use_extract_symlinks', True), 'use of links')
        env.check(s.clientconfig_data == options.get('clientconfig_data'), 'client configuration')
        env.check(s.url == 'https://lol.dyn.riotcdn.net/', 'URL of the storage')
    else:
        env.check(s.url == options.get('url', RADS_URL[options.get('cdn')]), 'URL of the storage')


def configured(env, paths):
    """Configuration in a file"""
    m = env.load('cdtb.storage')
    kind = env.choose('type', TYPES)
    options = env.choose('options', OPTIONS[kind])
    text, comps = conf_path(env, env.choose('path', paths))
    conf = {'type': kind, **options}
    if text is not None:
        conf['path'] = text
    via = env.choose('designated by', ('directory', 'file', 'file of the same name'))
    here = via != 'file of the same name' and env.flag('in the current directory')
    base = ['work'] if here else ['data', name(env, 'directory')]
    d = '/' + '/'.join(base)
    fname = 'cdtb.storage.conf' if via != 'file' else name(env, 'file') + '.conf'
    env.fs.put(d + '/' + fname, env.json_bytes(conf))
    if env.flag('channels'):
        env.fs.makedirs(d + '/channels')
    arg = d if via == 'directory' else d + '/' + fname
    if via == 'directory' and env.flag('final slash'):
        arg += '/'
    if here:
        arg = env.choose('current directory', ('.', './', '')) if via == 'directory' else env.choose('current directory', ('', './')) + fname
        if arg == '':
            arg = '/work'
    elif env.flag('relative'):
        # the current directory is /work
        arg = '..' + arg
        exp = '/' + '/'.join(['..'] + base)
    path = norm(env, base, comps)
    r = env.call(m.storage_conf_from_path, arg)
    env.check(r.ok, 'configuration is found')
    env.check(r.value['type'] == kind, 'type of the configuration')
    got = r.value['path']
    env.check(env.eq(env.os.path.normpath(env.os.path.join('/work', got)), path), 'path of the configuration')
    env.check(env.eq(got, env.os.path.normpath(got)), 'path is normalised')
    for k, v in options.items():
        env.check(r.value[k] == v, 'options of the configuration')
    r = env.call(m.Storage.from_path, arg)
    env.check(r.ok, 'storage of the configuration')
    check_storage(env, r.value, kind, got, options)
    env.reach(kind)


def bad_conf(env):
    """Configuration files which are refused"""
    m = env.load('cdtb.storage')
    what = env.choose('conf', ('no type', 'unknown type', 'null type', 'exclusive', 'not JSON', 'empty'))
    text = {'no type': '{"path": "x", "patchline": "pbe"}', 'unknown type': '{"type": "s3", "path": "."}', 'null type': '{"type": null}', 'exclusive': '{"type": "rads", "url": "http://x/", "cdn": "kr"}',
            'not JSON': 'type: patcher', 'empty': ''}[what]
    env.fs.put('/data/st/cdtb.storage.conf', text)
    env.fs.makedirs('/data/st/channels')
    arg = env.choose('designated by', ('/data/st', '/data/st/cdtb.storage.conf'))
    r = env.call(m.Storage.from_path, arg)
    env.check(not r.ok, 'configuration is refused')
    if what in ('no type', 'unknown type', 'exclusive'):
        env.check(r.exc_name == 'ValueError', 'refused with a message')
    env.reach(what)


def directory(env):
    """Directory without configuration file"""
    m = env.load('cdtb.storage')
    d = '/data/' + name(env, 'directory')
    if env.flag('colon'):
        d += ':' + name(env, 'rest')
    env.fs.makedirs(d)
    what = env.choose('content', ('nothing', 'channels', 'file named channels', 'other', 'conf directory', 'conf directory and channels', 'dangling conf'))
    if 'channels' in what:
        if 'file' in what:
            env.fs.put(d + '/channels', b'x')
        else:
            env.fs.makedirs(d + '/channels')
    if what.startswith('conf directory'):
        env.fs.makedirs(d + '/cdtb.storage.conf')
    elif what == 'other':
        env.fs.makedirs(d + '/channel')
        env.fs.put(d + '/other.conf', '{"type": "rads"}')
    elif what == 'dangling conf':
        env.fs.symlink('nowhere', d + '/cdtb.storage.conf')
    r = env.call(m.storage_conf_from_path, d)
    if what in ('channels', 'conf directory and channels'):
        env.check(r.ok and r.value['type'] == 'patcher' and env.eq(r.value['path'], d), 'configuration is guessed')
        s = env.call(m.Storage.from_path, d)
        env.check(s.ok, 'storage of the directory')
        check_storage(env, s.value, 'patcher', d, {})
        env.reach('guessed')
    else:
        env.check(not r.ok and r.exc_name == 'ValueError', 'no configuration is made up')
        env.check(not env.call(m.Storage.from_path, d).ok, 'no storage is made up')
        env.reach('refused')


def designation(env):
    """Path which does not exist"""
    m = env.load('cdtb.storage')
    env.fs.put('/work/existing/x', b'x')
    form = env.choose('form', ('path', 'typed', 'colons', 'empty path', 'unknown'))
    a = 'q' + name(env, 'a', 2)
    if form == 'path':
        arg, kind, path = env.choose('path', ('', '/', './', '../x/')) + a, 'patcher', None
        path = arg
    else:
        kind = env.choose('type', TYPES) if form != 'unknown' else env.choose('unknown', ('', 'PATCHER', 's3', 'storage', 'C'))
        path = {'typed': a, 'colons': a + ':' + a + '/x', 'empty path': '', 'unknown': a}[form]
        if form == 'typed' and env.flag('existing'):
            path = '/work/existing'
        arg = kind + ':' + path
    r = env.call(m.storage_conf_from_path, arg)
    env.check(r.ok and env.eq(r.value['type'], kind) and env.eq(r.value['path'], path), 'type and path of the designation')
    s = env.call(m.Storage.from_path, arg)
    if form == 'unknown':
        env.check(not s.ok and s.exc_name == 'ValueError', 'unknown type is rejected')
    else:
        env.check(s.ok, 'storage of the designation')
        env.check(env.eq(s.value.path, path), 'path of the storage')
        if path != '':
            check_storage(env, s.value, kind, path, {})
    env.check(sorted(env.fs.files('/')) == ['work/existing/x'], 'nothing is created')
    env.reach(form)


def priority(env):
    """What exists is preferred to `type:path`"""
    m = env.load('cdtb.storage')
    n = 'rads:' + name(env, 'name')
    what = env.choose('exists', ('directory', 'file', 'link to directory', 'link to file', 'dangling link', 'path'))
    if what == 'directory':
        env.fs.makedirs('/work/' + n + '/channels')
    elif what == 'file':
        env.fs.put('/work/' + n, '{"type": "patcher", "path": "st"}')
    elif what == 'link to directory':
        env.fs.makedirs('/work/target/channels')
        env.fs.symlink('target', '/work/' + n)
    elif what == 'link to file':
        env.fs.put('/elsewhere/conf', '{"type": "patcher", "path": "st"}')
        env.fs.symlink('/elsewhere/conf', '/work/' + n)
    elif what == 'dangling link':
        env.fs.symlink('nowhere', '/work/' + n)
    else:
        env.fs.makedirs('/work/' + n[5:] + '/channels')
    r = env.call(m.storage_conf_from_path, n)
    env.check(r.ok, 'configuration is found')
    exp = {'directory': ('patcher', n), 'link to directory': ('patcher', n), 'file': ('patcher', 'st'), 'link to file': ('patcher', 'st')}.get(what, ('rads', n[5:]))
    env.check(r.value['type'] == exp[0] and env.eq(r.value['path'], exp[1]), 'what exists comes first')
    env.reach(what)


def direct(env):
    """Configuration given as such"""
    m = env.load('cdtb.storage')
    kind = env.choose('type', TYPES + ('unknown',))
    path = '/' + name(env, 'path')
    if kind == 'unknown':
        r = env.call(m.Storage.from_conf, {'type': env.choose('unknown', ('', 'x', 'Rads', None)), 'path': path})
        env.check(not r.ok and r.exc_name == 'ValueError', 'unknown type is rejected')
    else:
        options = env.choose('options', OPTIONS[kind])
        r = env.call(m.Storage.from_conf, {'type': kind, 'path': path, **options})
        env.check(r.ok, 'storage of the configuration')
        check_storage(env, r.value, kind, path, options)
        if kind == 'rads':
            r = env.call(m.Storage.from_conf, {'type': kind, 'path': path, 'url': 'http://x/', 'cdn': env.choose('cdn', ('kr', 'default'))})
            env.check(not r.ok and r.exc_name == 'ValueError', 'exclusive options are rejected')
    env.reach(kind)


CASES = [
    Case('configuration file', 'configured', paths=('none', 'dot', 'name', 'up', 'absolute'), reach=['patcher', 'rads']),
    Case('configuration file, other paths', 'configured', paths=('deep', 'slash', 'back', 'top'), quick=False, reach=['patcher', 'rads']),
    Case('refused configuration', 'bad_conf', reach=['no type', 'unknown type', 'null type', 'exclusive', 'not JSON', 'empty']),
    Case('directory', 'directory', reach=['guessed', 'refused']),
    Case('missing path', 'designation', reach=['path', 'typed', 'colons', 'empty path', 'unknown']),
    Case('existing path', 'priority', reach=['directory', 'file', 'link to directory', 'link to file', 'dangling link', 'path']),
    Case('direct configuration', 'direct', reach=['patcher', 'rads', 'unknown']),
]
