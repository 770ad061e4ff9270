"""Commands"""
import io
from symx.runner import Case
from harness import patches
from harness.bintree import put_hashes
from harness.named import Maker, fnv
from harness.util import DIGITS, LOWER, le

META = {
    'bounds': 'components of each form among up to 4 elements whose versions have any last digit; all combinations of storage options, language options and patchlines; archives of 3 entries with any hashes, hash lists of any 2 of them with any names, '
              '6 patterns; exports among up to 4 stored patches and up to 5 directories; any BIN value; meshes with up to 2 submeshes; hash lists which are missing, older or newer than these of the server',
    'outside': 'abbreviated options; options in other orders; versions which are not numbers; the text of messages, other than usage errors having the command rejected; guessing methods (C34, C38)',
    'assumptions': [],
}


def run(env, *argv):
    """(outcome, exit status, lines of output)"""
    m = env.load('cdtb.__main__')
    start = len(env.stdout.getvalue())
    r, status = env.exits(m.main, list(argv))
    rows = env.stdout.getvalue()[start:].split('\n')
    return r, status, rows if rows[-1] != '' else rows[:-1]


def rejected(env, argv, what, root='/work'):
    before = env.fs.tree(root)
    r, status, rows = run(env, *argv)
    env.check(not r.ok and status == 2 and len(env.usage) > 0, what + ' are usage errors')
    env.check(rows == [], 'nothing is displayed for usage errors')
    env.check(patches.same_trees(env, before, env.fs.tree(root)), 'nothing is written for usage errors')


class Stored:
    """A storage of elements, of type `fake`"""

    def __init__(self, env, elements):
        self.env = env
        m = env.load('cdtb.storage')
        self.confs = []
        self.asked = []
        self.calls = []
        stored = self

        class Element(m.PatchElement):
            def download(self, langs=True):
                stored.calls.append(('download', self.index, langs))

            def fspaths(self, langs=True):
                stored.calls.append(('fspaths', self.index, langs))
                for s, p in self.files:
                    yield s

            def relpaths(self, langs=True):
                stored.calls.append(('relpaths', self.index, langs))
                for s, p in self.files:
                    yield p

        class Fake(m.Storage):
            storage_type = 'fake'

            @classmethod
            def from_conf_data(cls, conf):
                stored.confs.append(conf)
                return cls(conf['path'], 'http://x/')

            def patch_elements(self, stored=False):
                for e in elements:
                    if not stored or e.stored:
                        yield e
        rows = elements
        elements = []
        for i, (name, version, on_disk) in enumerate(rows):
            e = Element(name, m.PatchVersion(version))
            e.index = i
            e.stored = on_disk
            e.files = [(f'/st/{i}/a', f'{i}.a'), (f'/st/{i}/b', f'{i}.b')]
            elements.append(e)
        self.elements = elements
        self.versions = [v for _, v, _ in rows]


LANGS = ((('--no-lang',), False), ((), True), (('--lang', 'fr_fr'), ['fr_fr']), (('--lang', 'fr_fr', 'en_us'), ['fr_fr', 'en_us']))


def designated(env, st, text):
    """Indices of the elements designated by a component, None if there is none"""
    name, _, version = text.partition('=')
    rows = [(i, e.name, st.versions[i], e.stored) for i, e in enumerate(st.elements)]
    version = version.rstrip('.')
    if name == 'patch':
        if version == '':
            first = rows[0][2] if rows else None
        else:
            first = version
        out = []
        seen = False
        for i, n, v, s in rows:
            if first is not None and env.eq(v, first):
                seen = True
                if not any(rows[j][1] == n for j in out):
                    out.append(i)
            elif seen:
                break
        return out or None
    for i, n, v, s in rows:
        if n == name and (version == '' or (s and env.eq(v, version))):
            return [i]
    return None


def world(env):
    d = [env.str(f'v{i}', 1, '123') for i in range(2)]
    names = ('game', 'client', 'game', 'client')
    versions = ['9.' + d[0], '9.' + d[0], '9.' + d[1], '9.1']
    env.assume(d[0] >= d[1])
    stored = [env.choose('first is stored', (True, False)), True, True, True]
    return Stored(env, list(zip(names, versions, stored)))


BAD = ('game', 'game=x', 'other=9.1', '', 'patch=9.1=', 'Game=9.1', 'game=9.1-', ' game=9.1')
GOOD = ('game=', 'client=', 'patch=', 'game=9.1', 'client=9.2', 'patch=9.2', 'patch=9.1', 'game=9.2.', 'patch=9.1.', 'client=9', 'patch=main')


def files(env):
    """Files of a component"""
    st = world(env)
    text = env.choose('component', GOOD + BAD[:3])
    opts, langs = env.choose('langs', LANGS)
    rel = env.choose('relative', ((), ('-r',), ('--relative',)))
    argv = ['files', '-s', 'fake:/st', text, *rel, *opts]
    if text in BAD:
        rejected(env, argv, 'malformed components')
        env.check(st.calls == [], 'no element is used')
        env.reach('malformed')
        return
    exp = designated(env, st, text)
    if exp is None:
        rejected(env, argv, 'missing components')
        env.check(st.calls == [], 'no element is used')
        env.reach('missing')
        return
    r, status, rows = run(env, *argv)
    env.check(r.ok, 'files are listed')
    lines = []
    for i in exp:
        lines += [f'{i}.a', f'{i}.b'] if rel else [f'/st/{i}/a', f'/st/{i}/b']
    env.check(rows == lines or sorted(rows) == sorted(lines), 'files of the component')
    env.check(all(c[2] == langs for c in st.calls), 'files of the requested languages')
    env.reach('listed')


def download(env):
    """Download of components"""
    st = world(env)
    texts = [env.choose('first', ('game=', 'patch=9.2', 'game=9.3'))]
    k = env.choose('second', (None, 'client=9.1', 'patch=9.1', 'game=8.1', 'bad'))
    if k:
        texts.append(k)
    opts, langs = env.choose('langs', LANGS)
    argv = ['download', *texts, '--storage', 'fake:/st', *opts]
    exp = []
    for t in texts:
        x = designated(env, st, t) if t != 'bad' else None
        if x is None:
            rejected(env, argv, 'malformed and missing components')
            env.check(st.calls == [], 'nothing is downloaded')
            env.reach('rejected')
            return
        exp += x
    r, status, rows = run(env, *argv)
    env.check(r.ok, 'components are downloaded')
    got = [c[1] for c in st.calls if c[0] == 'download']
    env.check(sorted(set(got)) == sorted(set(exp)), 'elements of the components are downloaded')
    env.check(all(c[2] == langs for c in st.calls), 'files of the requested languages')
    env.reach('downloaded')


def versions(env):
    st = world(env)
    kind = env.choose('type', ('patch', 'game', 'client'))
    opt = env.choose('all', ((), ('-a',), ('--all',)))
    r, status, rows = run(env, 'versions', '-s', 'fake:/st', *opt, kind)
    env.check(r.ok, 'versions are listed')
    exp = []
    for i, e in enumerate(st.elements):
        if e.stored or opt:
            v = st.versions[i]
            if not exp or not env.eq(exp[-1][0], v):
                exp.append((v, set()))
            exp[-1][1].add(e.name)
    exp = [v for v, names in exp if kind == 'patch' or kind in names]
    env.check(len(rows) == len(exp) and env.all([env.eq(a, b) for a, b in zip(rows, exp)]), 'versions of the patches with the element')
    env.reach('listed')


def storages(env):
    """Storage which is used"""
    st = Stored(env, [('game', '9.1', True)])
    m = env.load('cdtb.patcher')
    made = []
    real = m.PatcherStorage.__init__

    def init(self, path, patchline=m.PatcherStorage.DEFAULT_PATCHLINE):
        made.append((path, patchline))
        real(self, path, patchline)
    m.PatcherStorage.__init__ = init
    name = env.choose('name', ('a', 'x.y', 'in:b'))
    kinds = {
        'fake': ('fake:/' + name, 'fake', '/' + name), 'patcher': ('patcher:' + name, 'patcher', name), 'path': ('/work/' + name, 'patcher', '/work/' + name),
        'directory': ('/work/dir', 'patcher', '/work/dir'), 'configured': ('/work/conf', 'patcher', '/work/conf/sub'), 'file': ('/work/conf.json', 'fake', '/work/x'),
        'unknown type': ('other:/' + name, None, None), 'unknown directory': ('/work/empty', None, None),
    }
    env.fs.makedirs('/work/dir/channels', True)
    env.fs.makedirs('/work/empty', True)
    env.fs.put('/work/conf/cdtb.storage.conf', b'{"type": "patcher", "path": "sub", "patchline": "pbe"}')
    env.fs.put('/work/conf.json', b'{"type": "fake", "path": "x"}')
    opt = env.choose('option', (None,) + tuple(kinds))
    var = env.choose('variable', (None, 'fake', 'patcher', 'configured', 'unknown type')) if opt in (None, 'fake', 'patcher') else env.choose('other', (None, 'fake'))
    env.assume(':' not in name or opt != 'path')
    line = env.choose('patchline', (None, 'pbe', 'live'))
    argv = ['versions', 'game']
    if opt:
        arg = kinds[opt][0]
        argv += env.choose('form', (['-s', arg], ['--storage', arg], ['--storage=' + arg])) if opt == 'fake' else ['-s', arg]
    if var:
        env.os.environ['CDTB_STORAGE'] = kinds[var][0]
    if line:
        argv += ['--patchline', line]
    use = opt or var
    _, kind, path = kinds[use] if use else (None, 'patcher', 'cdn')
    if kind is None or (kind == 'fake' and line):
        rejected(env, argv, 'storages which are unknown or have no patchline')
        env.check(made == [] and st.confs == [], 'no storage is used') if kind is None else None
        env.reach('rejected')
        return
    r, status, rows = run(env, *argv)
    env.check(r.ok, 'versions are listed')
    if kind == 'fake':
        env.check(made == [] and len(st.confs) == 1 and env.eq(env.os.path.normpath(st.confs[0]['path']), path), 'path of the storage')
        env.check(rows == ['9.1'], 'versions of the storage')
        env.reach('other')
    else:
        env.check(st.confs == [] and len(made) == 1 and env.eq(made[0][0], path), 'path of the storage')
        env.check(made[0][1] == (line or ('pbe' if use == 'configured' else 'live')), 'patchline')
        env.reach('patcher')


PATTERNS = {(): lambda p: True, ('a*',): lambda p: p[0] == 'a', ('*.txt',): lambda p: p.endswith('.txt'), ('?b/*', 'x*'): lambda p: p[1] == 'b' or p[0] == 'x', ('[ab]?/*',): lambda p: p[0] == 'a' or p[0] == 'b', ('A*',): lambda p: False}


class Archive:
    """Archive of 3 entries, two of which may be known"""

    def __init__(self, env, path, fixed=False):
        self.hashes = [100, 101, 102]
        if not fixed:
            k = env.choose('which', (0, 1, 2))
            self.hashes[k] = env.uint('hash', 64)
            for i in range(3):
                env.assume(i == k or self.hashes[i] != self.hashes[k])
        self.contents = [b'PROPxx', b'plain', b'{}']
        env.fs.put(path, patches.archive([(h, c, 0) for h, c in zip(self.hashes, self.contents)]))
        self.names = {}

    def known(self, env, lines):
        """Paths of entries given lines (hash, path)"""
        out = {}
        for i, h in enumerate(self.hashes):
            for k, p in lines:
                if h == k:
                    out[i] = p
        return out


def hash_list(env, lines):
    return b''.join(f'{k:016x} {p}\n'.encode('utf-8') for k, p in lines)


def wad_setup(env, names, fixed):
    path = env.choose('archive', ('/work/a.wad.client', '/work/b.wad', '/work/c.d/e'))
    a = Archive(env, path, fixed)
    lines = [(100, names[0]), (102, names[1])]
    opt = []
    files = {'game': [(101, 'game/other.x')], 'lcu': [(101, 'lcu/other.x')]}
    if path.endswith('e') or env.flag('other list'):
        env.fs.put('/work/hashes.txt', hash_list(env, lines))
        opt = env.choose('form', (['-H', '/work/hashes.txt'], ['--hashes', '/work/hashes.txt'])) if fixed else ['-H', '/work/hashes.txt']
    else:
        which = 'game' if path.endswith('.client') else 'lcu'
        files[which] = lines
    d = env.load('cdtb.hashes').default_hash_dir
    for k, v in files.items():
        env.fs.put(f'{d}/hashes.{k}.txt', hash_list(env, v))
    return path, a, opt, a.known(env, lines)


def extract(env, fixed):
    """Entries which are extracted"""
    names = ['ab/' + env.str('name 1', 1, LOWER) + '.txt', env.str('name 2', 2, 'abx') + '/f.bin'] if fixed else ['ab/c.txt', 'xx/f.bin']
    path, a, opt, known = wad_setup(env, names, fixed)
    unknown = env.choose('unknown', (None, 'yes', 'only', 'no'))
    pats = env.choose('patterns', tuple(PATTERNS)) if fixed else ()
    out = env.choose('output', (None, '/work/out', 'rel')) if not fixed else '/work/out'
    lazy = env.flag('lazy')
    argv = ['wad-extract', *opt]
    if unknown:
        argv += ['-u', unknown]
    for p in pats:
        argv += ['-p', p]
    if out:
        argv += ['-o', out]
    if lazy:
        argv.append('--lazy')
    argv.append(path)
    where = {None: {'/work/a.wad.client': '/work/a.wad', '/work/b.wad': '/work/b', '/work/c.d/e': '/work/c.d/e'}[path], '/work/out': '/work/out', 'rel': '/work/rel'}[out]
    if where == path:
        rejected(env, argv, 'outputs which are files')
        env.reach('file')
        return
    exp = []
    for i in range(3):
        if i in known:
            if unknown != 'only' and PATTERNS[pats](known[i]):
                exp.append((known[i], i))
        elif unknown != 'no' and not pats:
            exp.append((None, i))
    older = bool(exp) and exp[0][0] is not None and env.flag('older file')
    if older:
        env.fs.put(where + '/' + exp[0][0], b'older')
    r, status, rows = run(env, *argv)
    env.check(r.ok, 'archive is extracted')
    got = env.fs.files(where)
    env.check(len(got) == len(exp), 'number of extracted files')
    for p, i in exp:
        if p is None:
            p = [f for f in got if f'{a.hashes[i]:016x}' in f]
            env.check(len(p) == 1, 'unknown files')
            p = p[0]
        c = env.fs.content(where + '/' + p)
        env.check(c is not None, 'known files')
        if older and lazy and p == exp[0][0]:
            env.check(c == b'older', 'files are not overwritten with --lazy')
            env.reach('lazy')
        else:
            env.check(env.eq(c, a.contents[i]), 'content of files')
    env.reach('extracted')


def listing(env):
    path, a, opt, known = wad_setup(env, ['ab/c.txt', 'aa/f'], False)
    before = env.fs.tree('/work')
    r, status, rows = run(env, 'wad-list', *opt, path)
    env.check(r.ok, 'archive is listed')
    env.check(patches.same_trees(env, before, env.fs.tree('/work')), 'nothing is written')
    env.check(len(rows) == 3, 'one line for each entry')
    exp = [(known.get(i, '?'), f'{h:016x}') for i, h in enumerate(a.hashes)]
    env.check(env.eq(sorted(rows), sorted(f'{h} {p}' for p, h in exp)), 'hash and path of each entry')
    paths = [x[17:] for x in rows]
    env.check(paths == sorted(paths), 'sorted by path')
    env.reach('listed')


def missing_files(env):
    """Files which do not exist"""
    put_hashes(env)
    env.fs.makedirs('/work/dir.wad', True)
    env.fs.put('/work/file', b'x')
    env.fs.put('/work/a.wad.client', patches.archive([]))
    d = env.load('cdtb.hashes').default_hash_dir
    env.fs.put(f'{d}/hashes.game.txt', b'')
    argv = env.choose('command', (['wad-extract', '/work/none.wad'], ['wad-extract', '/work/dir.wad'], ['wad-list', '/work/none.wad.client'], ['wad-list', '/work/dir.wad'], ['bin-dump', '/work/none.bin'], ['bin-dump', '-j', '/work/dir.wad'],
                                  ['skn-extract', '/work/none.skn'], ['skn-extract', '/work/dir.wad'], ['wad-extract', '-o', '/work/file', '/work/a.wad.client'], ['hashes-guess'], ['hashes-guess', '-m', 'numbers,bad', '/work/a.wad.client'],
                                  ['hashes-guess', '-m', '', '-n'], ['unknown-command'], ['files'], ['versions', 'other'], ['versions'], ['download'], ['wad-extract', '-u', 'maybe', '/work/a.wad.client'], ['versions', '--patchline', 'other', 'game']))
    rejected(env, argv, 'missing files and arguments')
    env.reach('rejected')


class Export(Stored):
    """Storage of patches with one file each, and a common one"""

    def __init__(self, env, versions):
        super().__init__(env, [('game', v, True) for v in versions])
        patches.setup(env, {})
        for i, e in enumerate(self.elements):
            files = [('/st/common', 'common.txt'), (f'/st/{i}', 'own.txt')]
            e.files = files
            for s, p in files:
                env.fs.put(s, s.encode('ascii'))

    def check(self, i, out, linked, what):
        env = self.env
        got = [(p, c) for p, c in patches.view(env, out) if not p.startswith('cdragon/')]
        env.check(sorted(p for p, c in got) == ['common.txt', 'own.txt'], what + ': exported files')
        env.check(all(c == (b'/st/common' if p[0] == 'c' else f'/st/{i}'.encode('ascii')) for p, c in got), what + ': content of the patch')
        env.check([x for x in patches.links(env, out)] == (['common.txt'] if linked else []), what + ': links to the previous patch')


def without_links(env, st, i, out, previous, what):
    """Export without links: only files which differ from these of the previous patch"""
    got = [(p, c) for p, c in patches.view(env, out) if not p.startswith('cdragon/')]
    exp = ['own.txt'] if previous else ['common.txt', 'own.txt']
    env.check(sorted(p for p, c in got) == exp, what + ': exported files')
    env.check(all(c == (b'/st/common' if p[0] == 'c' else f'/st/{i}'.encode('ascii')) for p, c in got), what + ': content of the patch')


def export(env):
    """Export of a patch"""
    d = env.str('digit', 1, '3456789')
    versions = ['10.2', '10.1', '9.' + d, '9.2']
    st = Export(env, versions)
    st.elements[0].stored = env.flag('latest is stored')
    for e in st.elements[2:]:
        e.stored = e.index == 3 or env.flag('is stored')
    arg = env.choose('patch', ('latest', '10.2', '10.1', '9.2', '9.1', '9.9'))
    prev = env.choose('previous', (None, 'full', '9.2', '10.1', '8.1'))
    links = env.flag('links')
    out, opt = env.choose('output', (('/work/export', []), ('/work/x', ['-o', '/work/x']), ('/work/v', None)))
    argv = ['export', '-s', 'fake:/st', *(opt or []), *(['-L'] if links else []), *(['--full'] if prev == 'full' else ['--previous', prev] if prev else []), arg]
    if opt is None:
        env.os.environ['CDTB_EXPORT'] = '/work/v'
    target = 0 if arg == 'latest' else next((i for i, v in enumerate(versions) if env.eq(v, arg)), None)
    if target is None:
        rejected(env, argv, 'missing patches')
        env.reach('no patch')
        return
    stored = [i for i, e in enumerate(st.elements) if e.stored]
    if prev == 'full':
        before = None
    elif prev:
        before = next((i for i in stored if env.eq(versions[i], prev)), -1)
    else:
        k = stored.index(target) + 1 if target in stored else len(stored)
        before = stored[k] if k < len(stored) else -1
    if before == -1:
        rejected(env, argv, 'missing previous patches')
        env.reach('no previous')
        return
    if before == target:
        env.assume(False)
    if links and before is None:
        r, status, rows = run(env, *argv)
        env.check(not r.ok, 'links to no patch are refused')
        env.reach('no previous')
        return
    if links and before is not None:
        # export of the previous patch, to link to
        env.fs.put(f'{out}/{versions[before]}/common.txt', b'/st/common')
        env.fs.put(f'{out}/{versions[before]}/own.txt', f'/st/{before}'.encode('ascii'))
    kept = env.fs.tree(out) if env.fs.lookup(out) is not None else {}
    r, status, rows = run(env, *argv)
    env.check(r.ok, 'patch is exported')
    here = f'{out}/{versions[target]}'
    if links or before is None:
        st.check(target, here, before is not None, 'patch')
    else:
        without_links(env, st, target, here, True, 'patch')
    tops = set(p.split('/')[0] for p in env.fs.tree(out))
    env.check(tops == set(p.split('/')[0] for p in kept) | {versions[target]}, 'no other patch is exported')
    env.reach('exported')


def exports(env):
    """Export of all patches of a directory"""
    versions = ['10.1', '9.3', '9.2', '9.1']
    have = [v for v in versions if env.flag('exported ' + v)]
    st = Export(env, versions)
    first = env.choose('first', ('9.2', '9.1', '9.3', '10.1'))
    missing = env.flag('oldest is not in the storage')
    if missing:
        st.elements[3].stored = False
    extra = env.choose('other', (None, 'file', 'directory', 'missing'))
    out = '/work/export'
    env.fs.makedirs(out, True)
    for v in have:
        env.fs.makedirs(f'{out}/{v}', True)
    if extra == 'file':
        env.fs.put(out + '/9.4', b'')
    elif extra == 'directory':
        env.fs.put(out + '/latest/x', b'')
    elif extra == 'missing':
        env.fs.makedirs(out + '/9.4', True)
    links = env.flag('links')
    argv = ['export', '-s', 'fake:/st', '--from', first, *(['--symlinks'] if links else [])]
    todo = [i for i, v in enumerate(versions) if v in have and i <= versions.index(first)]
    absent = (extra == 'missing' and first != '10.1') or (missing and 3 in todo)
    before = env.fs.tree(out)
    r, status, rows = run(env, *argv)
    if absent:
        env.check(not r.ok, 'patches which are not in the storage are reported')
        env.check(patches.same_trees(env, before, env.fs.tree(out)), 'nothing is written')
        env.reach('absent')
        return
    env.check(r.ok, 'patches are exported')
    for k, i in enumerate(todo):
        here = f'{out}/{versions[i]}'
        previous = k + 1 < len(todo)
        if links:
            st.check(i, here, previous, 'patches')
        else:
            without_links(env, st, i, here, previous, 'patches')
    for i, v in enumerate(versions):
        if i not in todo:
            n = env.fs.lookup(f'{out}/{v}')
            env.check((n is not None) == (v in have) and (n is None or len(n.entries) == 0), 'other patches are not exported')
    env.reach('exported' if todo else 'nothing')


def export_errors(env):
    st = Export(env, ['10.1', '9.3'])
    env.fs.makedirs('/work/export/9.3', True)
    argv = env.choose('arguments', (['export'], ['export', '--full'], ['export', '--previous', '9.3'], ['export', '--from', '9.3', '10.1'], ['export', '--from', '9.3', '--full'], ['export', '--from', '9.3', '--previous', '9.3', '10.1'], ['export', '--previous', '9.1', '10.1'], ['export', '9.3']))
    rejected(env, argv + ['-s', 'fake:/st'], 'inconsistent options')
    env.reach('rejected')


def lazy(env):
    """Files which exist are kept with --lazy"""
    st = Export(env, ['10.1', '9.3'])
    one = env.flag('one patch')
    opt = env.flag('lazy')
    env.fs.put('/work/export/10.1/own.txt', b'older')
    argv = ['export', '-s', 'fake:/st', *(['--lazy'] if opt else []), *(['--full', '10.1'] if one else ['--from', '9.3'])]
    r, status, rows = run(env, *argv)
    env.check(r.ok, 'exported')
    env.check(env.fs.content('/work/export/10.1/own.txt') == (b'older' if opt else b'/st/0'), 'existing files are kept with --lazy only')
    env.reach('done')


def bin_dump(env):
    put_hashes(env)
    opt, version = env.choose('version', (((), 9999), (('-V', '9.22'), 922), (('-V', '9.23'), 923), (('--patch-version', '10.7'), 1007), (('-V', '10.8'), 1008), (('-V', 'main'), 9999)))
    mk = Maker(env, version)
    v = env.uint('value', 32)
    data = mk.file([(1, 2, [(3, mk.object(4, [(5, mk.u32(v))]))])])
    env.fs.put('/work/a.bin', data)
    js = env.choose('form', ((), ('-j',), ('--json',)))
    r, status, rows = run(env, 'bin-dump', *opt, *js, '/work/a.bin')
    env.check(r.ok, 'file is dumped')
    text = '\n'.join(rows)
    m = env.load('cdtb.binfile')
    b = m.BinFile(io.BytesIO(data), btype_version=version)
    if js:
        doc = env.json.loads(text)
        env.check(env.eq(doc, {'{00000001}': {'{00000003}': {'{00000005}': v, '__type': '{00000004}'}, '__type': '{00000002}'}}), 'JSON form of the file')
        env.reach('json')
    else:
        f = io.StringIO()
        b.dump(f)
        env.check(env.eq(text + '\n', f.getvalue()), 'text form of the file')
        env.reach('text')




def mesh(env):
    from harness.c26 import SKN2, skn_doc
    data = env.choose('mesh', (skn_doc(env), SKN2))
    path = env.choose('path', ('/work/a.skn', '/work/b'))
    out = env.choose('output', (None, '/work/x/y'))
    env.fs.put(path, data)
    where = out or ('/work/a' if path.endswith('.skn') else '/work/b')
    if where != path and env.flag('directory exists'):
        env.fs.put(where + '/kept', b'k')
    r, status, rows = run(env, 'skn-extract', *(['-o', out] if out else []), path)
    if where == path:
        env.check(not r.ok, 'outputs which are files are refused')
        env.check(env.fs.content(path) == data, 'the input is kept')
        env.reach('refused')
        return
    env.check(r.ok, 'mesh is extracted')
    m = env.load('cdtb.sknfile')
    s = m.SknFile(path)
    got = sorted(x for x in env.fs.files(where) if x != 'kept')
    env.check(got == sorted(e['name'] + '.obj' for e in s.entries), 'one file for each submesh')
    for e in s.entries:
        env.check(env.eq(env.fs.content(where + '/' + e['name'] + '.obj'), s.to_obj(e).encode('utf-8')), 'content of submeshes')
    env.reach('extracted')


def fetch_source(env):
    """Hash lists which come with the source are never changed"""
    source = env.load('cdtb.__main__').__file__.rpartition('/')[0]
    env.os.environ['CDTB_HASHES_DIR'] = source + env.choose('suffix', ('', '/', '/../cdtbx', '/hashes'))
    env.world.modules.clear()
    env.load('cdtb.__main__')
    d = str(env.load('cdtb.hashes').default_hash_dir)
    env.http_handler = lambda method, url, kw: env.response(b'x', headers={'last-modified': 'Mon, 01 Jan 2024 00:00:00 GMT'})
    before = env.fs.tree('/')
    r, status, rows = run(env, 'fetch-hashes')
    if d == source:
        env.check(not r.ok and status not in (None, 0), 'lists of the source are not updated')
        env.check(env.fs.tree('/') == before, 'nothing is written')
        env.reach('source')
    else:
        env.check(r.ok and len(env.fs.files(d)) == len(NAMES), 'hash lists are updated')
        env.reach('other directory')


NAMES = ('binentries', 'binfields', 'binhashes', 'bintypes', 'game', 'lcu', 'rst', 'rst.xxh64', 'rst.xxh3')


def fetch(env):
    """Hash lists are downloaded"""
    where = env.choose('directory', ('/work/hashes', '/work/new/hashes', None))
    m = env.load('cdtb.__main__')
    if where is None:
        d = env.load('cdtb.hashes').default_hash_dir
    else:
        env.os.environ['CDTB_HASHES_DIR'] = where
        env.world.modules.clear()
        m = env.load('cdtb.__main__')
        d = env.load('cdtb.hashes').default_hash_dir
        env.check(str(d) == where, 'directory')
    state = env.choose('state', ('missing', 'older', 'newer'))
    which = env.choose('which', NAMES)
    if state != 'missing':
        env.fs.put(f'{d}/hashes.{which}.txt', b'local')
        env.fs.lookup(f'{d}/hashes.{which}.txt').mtime = 1704067200 + (1000 if state == 'newer' else -1000)
    env.fs.clock = 1704067200 + 5000
    asked = []

    def handle(method, url, kw):
        base = 'https://raw.communitydragon.org/data/hashes/lol/hashes.'
        env.check(url.startswith(base) and url.endswith('.txt'), 'URL of a hash list')
        name = url[len(base):-4]
        if method.lower() == 'head':
            return env.response(b'', headers={'last-modified': 'Mon, 01 Jan 2024 00:00:00 GMT'})
        asked.append(name)
        return env.response(name.encode('ascii'))
    env.http_handler = handle
    r, status, rows = run(env, 'fetch-hashes')
    env.check(r.ok, 'hash lists are updated')
    for n in NAMES:
        exp = b'local' if n == which and state == 'newer' else n.encode('ascii')
        env.check(env.fs.content(f'{d}/hashes.{n}.txt') == exp, 'hash lists are these of the server, unless they are newer')
    env.check(sorted(env.fs.files(str(d))) == sorted(f'hashes.{n}.txt' for n in NAMES), 'no other file')
    env.reach(state)


def guess(env):
    """Hashes which are found are saved"""
    d = env.load('cdtb.hashes').default_hash_dir
    kind = env.choose('kind', ('game', 'lcu'))
    path = '/work/a.wad.client' if kind == 'game' else '/work/a.wad'
    h = env.choose('hash', (0, 2, 0x0abcdef123456789, 2**64 - 1))
    known = {'game': ['assets/a1.dds'], 'lcu': ['plugins/rcp-be-lol/global/default/a1.png']}
    for k, v in known.items():
        env.fs.put(f'{d}/hashes.{k}.txt', b''.join(f'{i + 1:016x} {p}\n'.encode('ascii') for i, p in enumerate(v)))
    env.fs.put(path, patches.archive([(h, b'data', 0), (1, b'x', 0)]))
    Stored(env, [])
    methods = env.choose('methods', ('numbers', 'regionlang', ' ext , numbers', 'ext'))
    dry = env.choose('dry', ((), ('-n',), ('--dry-run',)))
    wanted = {'game': 'assets/a7.dds', 'lcu': 'plugins/rcp-be-lol/global/default/a7.png'}[kind]
    found = env.flag('found')
    # no other candidate is there
    seen = []

    def hook(data):
        text = data if isinstance(data, str) else data.decode('utf-8')
        if len(text) == len(wanted) and text == wanted:
            seen.append(1)
            return h if found else 1
        return 1
    env.hash_hook = hook
    before = {k: env.fs.content(f'{d}/hashes.{k}.txt') for k in known}
    r, status, rows = run(env, 'hashes-guess', '-s', 'fake:/st', '-m', methods, *dry, path)
    env.check(r.ok, 'guessing completes')
    numbers = 'numbers' in methods
    env.check(bool(seen) == numbers, 'requested methods are used')
    for k in known:
        exp = before[k]
        text = env.fs.content(f'{d}/hashes.{k}.txt')
        if k == kind and numbers and found and not dry:
            env.check(len(text) > len(exp) and (f'{h:016x} ' + wanted + '\n').encode('ascii') in text, 'hashes which are found are saved')
            env.reach('saved')
        else:
            env.check(env.eq(text, exp), 'hash lists are not modified')
            env.reach('not saved')


CASES = [
    Case('files', 'files', reach=['malformed', 'missing', 'listed']),
    Case('download', 'download', reach=['rejected', 'downloaded']),
    Case('versions', 'versions', reach=['listed']),
    Case('storages', 'storages', reach=['rejected', 'other', 'patcher']),
    Case('extract', 'extract', fixed=True, reach=['extracted', 'lazy']),
    Case('extract any', 'extract', fixed=False, reach=['extracted', 'lazy', 'file']),
    Case('list', 'listing', reach=['listed']),
    Case('missing files', 'missing_files', reach=['rejected']),
    Case('export', 'export', reach=['no patch', 'no previous', 'exported']),
    Case('exports', 'exports', reach=['absent', 'exported', 'nothing']),
    Case('export errors', 'export_errors', reach=['rejected']),
    Case('lazy export', 'lazy', reach=['done']),
    Case('bin-dump', 'bin_dump', reach=['json', 'text']),
    Case('skn-extract', 'mesh', reach=['refused', 'extracted']),
    Case('fetch-hashes next to the source', 'fetch_source', reach=['source', 'other directory']),
    Case('fetch-hashes', 'fetch', reach=['missing', 'older', 'newer']),
    Case('hashes-guess', 'guess', reach=['saved', 'not saved']),
]
