"""RADS solutions and projects"""
from symx.runner import Case
from harness.faults import run
from harness.util import DIGITS, LOWER

META = {
    'bounds': 'solution manifests of up to 3 projects and 3 languages (any dependencies, required or not, any versions of 1 digit, any project names of 2 letters), every language selection; altered headers; '
              'listings of up to 3 versions in any order, stored or not; up to 3 versions of each solution, with any patch versions of 2 digits or none; system.yaml versions of any digits; '
              'HTTP errors, one failing operation or kill at any file system operation while reading a patch version, followed by another reading',
    'outside': 'longer manifests; malformed manifests other than wrong headers; foreign directories among stored versions; versions in executables (read by hachoir)',
    'assumptions': ['hachoir returns the version of the executable'],
}
BASE = '/st'
URL = 'http://l3cdn.riotgames.com/releases/live/'
SLN = 'league_client_sln'


def digit(env, name, alphabet=DIGITS):
    return env.str(name, 1, alphabet)


def storage(env, url=None):
    m = env.load('cdtb.rads')
    return m.RadsStorage(BASE) if url is None else m.RadsStorage(BASE, url)


def server(env, contents, fail=None, url=URL):
    def handle(method, u, kw):
        if fail is not None:
            r = fail(u)
            if r is not None:
                return r
        for path, c in contents.items():
            if u == url + path:
                return env.response(c)
        return None
    env.http_handler = handle


def solution_manifest(name, version, projects, langs, end='\r\n'):
    """projects: [(name, version, optional)]; langs: [(lang, [name])]"""
    lines = ['RADS Solution Manifest', '1.0.0.0', name, version, str(len(projects))]
    for n, v, opt in projects:
        lines += [n, v, '10' if opt else '0', '0']
    lines.append(str(len(langs)))
    for l, deps in langs:
        lines += [l, '0', str(len(deps))] + list(deps)
    return end.join(lines + [''])


def package_manifest(entries, end='\r\n'):
    return end.join(['PKG1'] + [f'/{p},BIN_0x00000000,0,1,0' for p in entries] + [''])


def selections(env, m, L):
    """(argument, languages or None for all)"""
    k = env.choose('langs', ('all', 'none', 'enum', 'name', 'enums', 'names', 'one', 'empty'))
    return {'all': (True, None), 'none': (False, []), 'enum': (L('en_us'), ['en_us']), 'name': ('fr_fr', ['fr_fr']), 'enums': ([L('fr_fr'), L('en_us')], ['fr_fr', 'en_us']),
            'names': (['en_us', 'fr_fr'], ['en_us', 'fr_fr']), 'one': (['fr_fr'], ['fr_fr']), 'empty': ([], [])}[k]


def manifest(env, nprojects, nlangs, select):
    m = env.load('cdtb.rads')
    L = env.load('cdtb.data').Language
    version = '0.0.' + digit(env, 'v2') + '.' + digit(env, 'v3')
    projects = [(f'p{i}' + env.str(f'name{i}', 1, LOWER + '_'), '0.0.1.' + digit(env, f'pv{i}'), env.flag(f'optional{i}')) for i in range(nprojects)]
    langs = []
    for l in ('en_us', 'fr_fr', 'zh_tw')[:nlangs]:
        langs.append((l, [p[0] for i, p in enumerate(projects) if env.flag(f'{l}{i}')]))
    contents = {f'solutions/{SLN}/releases/' + version + '/solutionmanifest': solution_manifest(SLN, version, projects, langs, env.choose('line end', ('\r\n', '\n')))}
    # each project has one file of its own, and one with the same path
    for n, v, _ in projects:
        d = f'projects/{n}/releases/' + v
        contents[d + '/packages/files/packagemanifest'] = package_manifest([d + '/files/Assets/' + n + '.TXT', d + '/files/same.txt.compressed', d + '/files/Deep/er/x.wad.client'])
    if [p[0] for p in projects] != sorted({p[0] for p in projects}):
        return
    server(env, contents)
    sv = m.RadsSolutionVersion(m.RadsSolution(storage(env), SLN), m.RadsVersion(version))
    r = env.call(sv.dependencies)
    env.check(r.ok, 'manifest is read')
    deps = r.value

    def key(pv):
        return (pv.project.name, str(pv.version))

    def pairs(names):
        return sorted((n, v) for n, v, _ in projects if n in names)
    env.check(len(deps) == nlangs + 1, 'languages of the manifest')
    for l, names in langs:
        env.check(env.eq(sorted(map(key, deps[L(l)])), pairs(names)), 'projects of a language')
    required = [n for n, _, opt in projects if not opt]
    env.check(env.eq(sorted(map(key, deps[None])), pairs(required)), 'required projects')
    if select:
        arg, names = selections(env, m, L)
        if names is None:
            exp = {n for n, _, _ in projects if n in required or any(n in ns for _, ns in langs)}
        elif arg is False:
            exp = set(required)
        else:
            exp = {n for l, ns in langs if l in names for n in ns}
        r = env.call(sv.projects, arg)
        env.check(r.ok, 'projects of the languages')
        env.check(env.eq(sorted(map(key, r.value)), pairs(exp)), 'projects of the languages')
        order = [key(pv) for pv in r.value]
        env.fs.put(f'{BASE}/solutions/{SLN}/releases/' + version + '/_patch_version', '8.1\n')
        e = m.RadsPatchElement(sv)
        paths = []
        for n, v in pairs(exp):
            d = f'projects/{n}/releases/' + v + '/files/'
            paths += [(f'{BASE}/' + d + f, f.lower()) for f in ('Assets/' + n + '.TXT', 'same.txt', 'Deep/er/x.wad.client')]
        kw = {} if arg is True and env.flag('default') else {'langs': arg}
        env.check(env.eq(sorted(e.paths(**kw)), sorted(paths)), 'pairs of paths of an element')
        env.check(env.eq(sorted(e.fspaths(**kw)), sorted(p for p, _ in paths)), 'paths of an element')
        env.check(env.eq(sorted(e.relpaths(**kw)), sorted(p for _, p in paths)), 'export paths of an element')
        env.check(env.eq([(a, b) for a, b in e.paths(**kw)], list(zip(e.fspaths(**kw), e.relpaths(**kw)))), 'same order')
        downloads = []
        m.RadsProjectVersion.download = lambda self: downloads.append(key(self))
        env.call(e.download, **kw)
        env.check(env.eq(sorted(downloads), pairs(exp)), 'downloaded projects')
        env.reach('some' if exp else 'nothing')
    env.reach('done')


def header(env):
    """Manifest of something else"""
    m = env.load('cdtb.rads')
    lines = solution_manifest(SLN, '0.0.1.7', [('p', '0.0.0.1', False)], []).split('\r\n')
    i = env.choose('line', (0, 1, 2, 3))
    lines[i] = env.choose('text', {0: ('RADS Solution', 'RADS Project Manifest', ''), 1: ('1.0.0.1', '1.0.0', ''), 2: ('lol_game_client_sln', 'league_client', ''), 3: ('0.0.1.8', '0.0.1', '')}[i])
    server(env, {f'solutions/{SLN}/releases/0.0.1.7/solutionmanifest': '\r\n'.join(lines)})
    sv = m.RadsSolutionVersion(m.RadsSolution(storage(env), SLN), m.RadsVersion('0.0.1.7'))
    env.check(not env.call(sv.dependencies).ok, 'manifest of something else is rejected')
    env.check(not env.call(sv.projects).ok, 'manifest of something else is rejected')
    env.reach('rejected')


def decreasing(env, versions):
    for a, b in zip(versions, versions[1:]):
        env.check(a >= b, 'latest first')


def listing(env, n, kind):
    """Versions of a solution or project"""
    m = env.load('cdtb.rads')
    texts = ['0.0.' + digit(env, f'a{i}', '01') + '.' + (digit(env, f'b{i}', '123456789') + digit(env, f'c{i}') if i == 1 else digit(env, f'b{i}')) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(texts[i] != texts[j])
    s = storage(env)
    if kind == 'project':
        p = m.RadsProject(s, 'proj')
        server(env, {'projects/proj/releases/releaselisting': '\r\n'.join(texts + [''])})
        r = env.call(p.versions)
        env.check(r.ok and env.eq([str(v.version) for v in r.value], texts), 'versions of the project')
        env.check(all(v.project == p for v in r.value), 'project of the versions')
    else:
        sln = m.RadsSolution(s, SLN)
        if kind == 'stored':
            for t in texts:
                env.fs.makedirs(f'{BASE}/solutions/{SLN}/releases/' + t)
            if env.flag('file'):
                env.fs.put(f'{BASE}/solutions/{SLN}/releases/releaselisting', 'x')
            r = env.call(sln.versions, stored=True)
            env.check(not env.http_log, 'nothing is requested')
        else:
            env.fs.makedirs(f'{BASE}/solutions/{SLN}/releases/0.0.5.5')
            server(env, {f'solutions/{SLN}/releases/releaselisting': env.choose('line end', ('\r\n', '\n')).join(texts + [''])})
            r = env.call(sln.versions)
        env.check(r.ok, 'versions of the solution')
        env.check(env.eq(sorted(str(v.version) for v in r.value), sorted(texts)), 'versions of the solution')
        env.check(all(v.solution == sln for v in r.value), 'solution of the versions')
        decreasing(env, [v.version for v in r.value])
    env.reach('done')


NAMES = {'client': 'league_client_sln', 'game': 'lol_game_client_sln'}


def merge(env, nclient, ngame, stored, missing=False, kinds=1):
    """Patch elements of both solutions"""
    m = env.load('cdtb.rads')
    exp = {'client': [], 'game': []}
    contents = {}
    for name, n in (('client', nclient), ('game', ngame)):
        sln = NAMES[name]
        listing = []
        prev = None
        for i in range(n):
            v = f'0.0.1.{n - i}'
            listing.append(v)
            if missing and env.flag(f'no patch {name}{i}'):
                project = {'client': 'league_client', 'game': 'lol_game_client'}[name]
                contents[f'solutions/{sln}/releases/{v}/solutionmanifest'] = solution_manifest(sln, v, [(project, '0.0.0.9', False)], [])
                if stored:
                    env.fs.makedirs(f'{BASE}/solutions/{sln}/releases/{v}')
                continue
            patch = env.str(f'{name}{i}', 1, '789') + '.' + digit(env, f'{name}{i}b')
            pv = m.PatchVersion(patch)
            if prev is not None:
                env.assume(pv <= prev)
            prev = pv
            exp[name].append((v, patch))
            env.fs.put(f'{BASE}/solutions/{sln}/releases/{v}/_patch_version', patch + '\n')
        listing = listing[::-1] if env.flag('reversed') else listing
        contents[f'solutions/{sln}/releases/releaselisting'] = '\r\n'.join(listing + [''])
    server(env, contents)
    s = storage(env)
    r = env.call(lambda: list(s.patch_elements(stored=stored)) if stored or env.flag('explicit') else list(s.patch_elements()))
    env.check(r.ok, 'patch elements')
    for name in exp:
        got = [(str(e.solution_version.version), str(e.version)) for e in r.value if e.name == name]
        env.check(env.eq(got, exp[name]), 'elements of a solution, none lost or repeated')
        env.check(all(e.solution_version.solution.name == NAMES[name] for e in r.value if e.name == name), 'solution of the element')
    env.check(len(r.value) == len(exp['client']) + len(exp['game']), 'no other element')
    decreasing(env, [e.version for e in r.value])
    if stored and not missing:
        env.check(not env.http_log, 'nothing is requested')
    # first patch, without the others
    r = env.call(lambda: next(iter(s.patches(stored=stored)), None))
    env.check(r.ok and (r.value is None) == (not exp['client'] and not exp['game']), 'latest patch')
    if r.value is not None:
        best = max(m.PatchVersion(p) for l in exp.values() for _, p in l)
        env.check(r.value.version == best, 'latest patch')
        names = sorted(n for n in exp if any(m.PatchVersion(p) == best for _, p in exp[n]))
        env.check(sorted(e.name for e in r.value.elements) == names, 'elements of the latest patch')
    env.reach(f"{min(1, len(exp['client']))} {min(1, len(exp['game']))}")


class Metadata:
    def __init__(self, version):
        self.version = version

    def get(self, key, *a):
        return self.version if key == 'version' else 'other'


def setup_patch(env, name, fail=None, data=None, files=None, pversion='0.0.0.99', packages=True):
    """A solution version whose patch version is in a file"""
    m = env.load('cdtb.rads')
    sln = NAMES[name]
    project, fname = {'client': ('league_client', 'system.yaml'), 'game': ('lol_game_client', 'League of Legends.exe')}[name]
    v = '0.0.1.7'
    contents = {f'solutions/{sln}/releases/{v}/solutionmanifest': solution_manifest(sln, v, [('other', '0.0.0.1', False), (project, pversion, False), (project + '_en_us', '0.0.0.2', True)],
                                                                                     [('en_us', [project, project + '_en_us'])])}
    d = f'projects/{project}/releases/{pversion}'
    if files is None:
        files = ['files/a.txt', f'files/deploy/x{fname}', f'files/deploy/{fname}', 'files/z.txt']
    n = len(data) if data is not None else 0
    lines = [f'/{d}/{f},BIN_0x00000000,{3 if f.endswith("/" + fname) else 0},{n if f.endswith("/" + fname) else 1},0' for f in files]
    if packages:
        contents[f'{d}/packages/files/packagemanifest'] = '\r\n'.join(['PKG1'] + lines + [''])
        contents[f'{d}/packages/files/BIN_0x00000000'] = b'abc' + (data or b'') + b'xyz'
    server(env, contents, fail)
    env.libs['hachoir_parser'] = lambda p: p
    env.libs['hachoir_metadata'] = lambda p: Metadata(exe_version(env, p))
    s = storage(env)
    return m.RadsSolutionVersion(m.RadsSolution(s, sln), m.RadsVersion(v)), f'{BASE}/solutions/{sln}/releases/{v}/_patch_version'


def exe_version(env, path):
    c = env.fs.content(path)
    i = 2
    while c[i] != 0:
        i += 1
    return c[2:i].decode('ascii')


def metadata_file(env, name):
    """Content and short version"""
    x, y, z = digit(env, 'x', '123456789'), digit(env, 'y'), digit(env, 'z')
    if name == 'client':
        return ('system:\n  branch: "Releases/' + x + '.' + y + '"\n').encode(), x + '.' + y
    return b'MZ' + (x + '.' + y + '.' + z + '.0').encode() + b'\0', x + '.' + y


def patch_version(env):
    m = env.load('cdtb.rads')
    name = env.choose('element', ('client', 'game'))
    data, short = metadata_file(env, name)
    sv, cache = setup_patch(env, name, data=data)
    old = env.choose('cache', ('none', 'version', 'empty'))
    if old != 'none':
        env.fs.put(cache, '7.7\n' if old == 'version' else '')
    exp = {'none': short, 'version': '7.7', 'empty': None}[old]
    for again in range(2):
        n = len(env.http_log)
        r = env.call(sv.patch_version)
        env.check(r.ok, 'patch version is found')
        if exp is None:
            env.check(r.value is None, 'no version in the cache')
            env.reach('empty')
            return
        env.check(env.eq(str(r.value), exp) and r.value == m.PatchVersion(exp), 'version of the game files')
        env.check(not again or len(env.http_log) == n, 'nothing is requested with a cached version')
        env.check(env.fs.content(cache) is not None, 'version is cached')
    for p in list(env.fs.files(BASE)):
        if not p.endswith('_patch_version'):
            env.fs.remove(f'{BASE}/{p}')
    sv2 = m.RadsSolutionVersion(m.RadsSolution(storage(env), NAMES[name]), m.RadsVersion('0.0.1.7'))
    n = len(env.http_log)
    r = env.call(sv2.patch_version)
    env.check(r.ok and env.eq(str(r.value), exp) and len(env.http_log) == n, 'same version from the cache')
    e = env.call(m.RadsPatchElement, sv2)
    env.check(e.ok and e.value.name == name and env.eq(str(e.value.version), exp), 'version of the element')
    env.reach('cached' if old == 'version' else 'read')


def no_version(env):
    """Nothing tells the version"""
    name = env.choose('element', ('client', 'game'))
    why = env.choose('why', ('404', '403', 'timeout', 'no file', 'no project', 'old client', 'limit', 'after limit', 'bad content'))
    fname = {'client': 'system.yaml', 'game': 'League of Legends.exe'}[name]
    data = None
    kw = {}
    none = False

    def fail(u):
        if u.endswith('packagemanifest'):
            if why == '404':
                return env.response(b'', status=404)
            if why == '403':
                return env.response(b'', status=403)
            if why == 'timeout':
                return env.timeout_error()
        return None
    if why == '404':
        none = True
    elif why in ('no file', 'old client', 'limit', 'after limit'):
        kw = {'files': ['files/a.txt', f'files/x{fname}', f'files/{fname}.txt'], 'pversion': {'no file': '0.0.0.99', 'old client': '0.0.0.9', 'limit': '0.0.0.43', 'after limit': '0.0.0.44'}[why]}
        none = name == 'client' and why in ('old client', 'limit')
    elif why == 'bad content':
        data = b'branch: x\n' if name == 'client' else b'MZx\0'
    sv, cache = setup_patch(env, name, fail, data, **kw)
    if why == 'no project':
        env.fs.put(cache.replace('_patch_version', 'solutionmanifest'), solution_manifest(NAMES[name], '0.0.1.7', [('other', '0.0.0.1', False), ({'client': 'league_client', 'game': 'lol_game_client'}[name], '0.0.0.1', True)], []))
    for _ in range(2):
        r = env.call(sv.patch_version)
        if none:
            env.check(r.ok and r.value is None, 'no version')
        else:
            env.check(not r.ok, 'failure is raised')
        env.check(not env.fs.content(cache), 'nothing is cached')
    m = env.load('cdtb.rads')
    env.check(not env.call(m.RadsPatchElement, sv).ok, 'no element without version')
    env.reach('none' if none else 'error')


def pbe(env):
    m = env.load('cdtb.rads')
    s = env.call(m.RadsStorage.from_conf_data, {'type': 'rads', 'path': BASE, 'cdn': 'pbe'}).value
    name = env.choose('element', ('client', 'game'))
    if env.flag('cache'):
        env.fs.put(f'{BASE}/solutions/{NAMES[name]}/releases/0.0.1.7/_patch_version', '9.9\n')
    sv = m.RadsSolutionVersion(m.RadsSolution(s, NAMES[name]), m.RadsVersion('0.0.1.7'))
    r = env.call(sv.patch_version)
    env.check(r.ok and str(r.value) == 'main', 'main')
    env.check(not env.http_log, 'nothing is requested')
    env.reach('done')


def fault(env, kind, limit):
    """Failure while reading a patch version"""
    name = env.choose('element', ('client', 'game'))
    data, short = metadata_file(env, name)
    sv, cache = setup_patch(env, name, data=data)
    happened, r = run(env, kind, sv.patch_version, limit=limit)
    if r is not None:
        env.check(not r.ok or env.eq(str(r.value), short), 'version or failure')
        env.check(r.ok or happened, 'version is found')
    m = env.load('cdtb.rads')
    sv2 = m.RadsSolutionVersion(m.RadsSolution(storage(env), NAMES[name]), m.RadsVersion('0.0.1.7'))
    r = env.call(sv2.patch_version)
    env.check(r.ok and env.eq(str(r.value), short), 'version after a failure')
    env.reach('failed' if happened else 'found')


def stored_names(env):
    """Projects and solutions in storage"""
    s = storage(env)
    exp = {'projects': [], 'solutions': []}
    for k in exp:
        env.fs.makedirs(f'{BASE}/{k}')
        for n in ('a', 'b_sln', 'c'):
            what = env.choose(k + n, ('none', 'releases', 'other', 'file'))
            if what == 'releases':
                env.fs.makedirs(f'{BASE}/{k}/{n}/releases')
                exp[k].append(n)
            elif what == 'other':
                env.fs.makedirs(f'{BASE}/{k}/{n}/x')
            elif what == 'file':
                env.fs.put(f'{BASE}/{k}/{n}', 'x')
    env.check(sorted(p.name for p in s.list_projects()) == exp['projects'], 'projects in storage')
    env.check(sorted(p.name for p in s.list_solutions()) == exp['solutions'], 'solutions in storage')
    env.reach('done')


CASES = [
    Case('manifest', 'manifest', nprojects=2, nlangs=2, select=False, reach=['done']),
    Case('manifest of 3 projects', 'manifest', nprojects=3, nlangs=1, select=False, reach=['done']),
    Case('empty manifest', 'manifest', nprojects=0, nlangs=1, select=False, reach=['done']),
    Case('languages', 'manifest', nprojects=2, nlangs=2, select=True, reach=['some', 'nothing']),
    Case('3 languages', 'manifest', nprojects=2, nlangs=3, select=True, quick=False, reach=['some', 'nothing']),
    Case('3 projects, 3 languages', 'manifest', nprojects=3, nlangs=3, select=False, quick=False, reach=['done']),
    Case('header', 'header', reach=['rejected']),
    Case('listing', 'listing', n=3, kind='http', reach=['done']),
    Case('stored versions', 'listing', n=3, kind='stored', reach=['done']),
    Case('versions of a project', 'listing', n=2, kind='project', reach=['done']),
    Case('stored elements', 'merge', nclient=2, ngame=2, stored=True, reach=['1 1']),
    Case('no stored element', 'merge', nclient=0, ngame=0, stored=True, reach=['0 0']),
    Case('client elements', 'merge', nclient=2, ngame=0, stored=True, reach=['1 0']),
    Case('elements', 'merge', nclient=1, ngame=2, stored=False, reach=['1 1']),
    Case('elements without patch', 'merge', nclient=2, ngame=2, stored=False, missing=True, reach=['1 1', '0 1', '1 0', '0 0']),
    Case('3 stored elements', 'merge', nclient=3, ngame=3, stored=True, quick=False, reach=['1 1']),
    Case('patch version', 'patch_version', reach=['read', 'cached', 'empty']),
    Case('no patch version', 'no_version', reach=['none', 'error']),
    Case('PBE', 'pbe', reach=['done']),
    Case('failing operation', 'fault', kind='error', limit=30, reach=['failed', 'found']),
    Case('kill', 'fault', kind='crash', limit=30, reach=['failed', 'found']),
    Case('names in storage', 'stored_names', quick=False, reach=['done']),
]
