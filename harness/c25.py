"""Cleaning of output directories"""
from symx.runner import Case

META = {
    'bounds': 'output trees with up to 4 entries (files, links to files, to directories, to their parent, outside, broken links, empty directories) at up to 3 levels, with names of any letter among 3; up to 2 kept files or directories and 2 kept links '
              'of any name at each level; output directory given as relative or absolute path, with final or double slashes, behind a link, or missing',
    'outside': 'failing removals; entries which are no file, link or directory; parents of the output directory which become empty with it',
    'assumptions': [],
}
OUT = '/work/exp/14.1'
SHAPES = {'one or two letters': ('{0}', 'd{0}', '{0}d/b'), 1: ('{0}',), 2: ('d/{0}', '{0}/b'), 3: ('d/e/{0}', 'd/{0}/c')}


def any_path(env, tag, depths):
    d = env.choose(f'{tag} depth', depths)
    shape = env.choose(f'{tag} shape', SHAPES[d])
    n = env.str(f'{tag} name', 1, 'abcdev')
    a, b = shape.split('{0}')
    return a + n + b


def outside(env):
    env.fs.put('/work/exp/sibling', b's')
    env.fs.put('/keep/x', b'target')
    env.fs.put('/keep/sub/y', b'target')
    env.fs.put('/work/a', b'work')
    env.fs.put('/work/d/b', b'work')


def put(env, kind, path):
    full = OUT + '/' + path
    depth = len(path.split('/'))
    if kind == 'file':
        env.fs.put(full, b'data')
        return
    env.fs.makedirs(full.rsplit('/', 1)[0], True)
    if kind == 'dir':
        env.fs.makedirs(full, True)
    else:
        env.fs.symlink({'link': '/keep/x', 'dir link': '/keep', 'broken': 'nowhere', 'self': '.', 'kept target': '../' * depth + 'keep/sub', 'inner': '../' * (depth - 1) + 'd'}[kind], full)


def check_clean(env, kept_files, kept_links, before, after):
    """before and after: {path: entry}; oracle"""
    def in_kept(p, kept):
        return any(len(p) == len(k) and env.eq(p, k) for k in kept)

    names = sorted(before)
    children = {'': []}
    for p in names:
        if before[p][0] == 'd':
            children[p] = []
    for p in names:
        children[p.rpartition('/')[0]].append(p)
    expected = {}

    def visit(p, protected):
        """Whether something below was removed, and something is left"""
        removed, left = False, False
        for c in children[p]:
            e = before[c]
            if e[0] == 'd':
                if protected or in_kept(c, kept_files):
                    r, l = visit(c, True)
                    expected[c] = e
                    left = True
                else:
                    r, l = visit(c, False)
                    if r and not l:
                        removed = True
                    else:
                        expected[c] = e
                        left = True
                        removed |= r
            elif protected or in_kept(c, kept_links if e[0] == 'l' else kept_files):
                expected[c] = e
                left = True
            else:
                removed = True
        return removed, left
    r, left = visit('', False)
    for p in names:
        if p in expected:
            env.check(p in after and env.eq(after[p], before[p]), 'what is kept is not touched')
        elif before[p][0] == 'd':
            env.check(p not in after, 'emptied directories are removed')
            env.reach('emptied')
        else:
            env.check(p not in after, 'what is not kept is removed')
            env.reach('removed')
    env.check(len(after) == len(expected), 'nothing is created')
    return r, left


def clean(env, slots, nfiles, nlinks, depths, argument=('plain',)):
    outside(env)
    env.fs.makedirs(OUT)
    for path, kinds in slots.items():
        k = env.choose(path, kinds)
        if k != 'none':
            put(env, k, path)
    files = [any_path(env, f'kept{i}', depths) for i in range(nfiles)]
    links = [any_path(env, f'link{i}', depths) for i in range(nlinks)]
    before_all = env.fs.tree('/')
    before = env.fs.tree(OUT)
    how = env.choose('output', argument)
    arg = OUT
    if how == 'relative':
        arg = 'exp/14.1'
    elif how == 'slash':
        arg = OUT + '/'
    elif how == 'doubled':
        arg = './exp//14.1/.'
    elif how == 'link':
        env.fs.symlink('exp/14.1', '/work/latest')
        arg = '/work/latest'
        before_all = env.fs.tree('/')
    e = env.load('cdtb.export').Exporter(arg)
    coll = env.choose('collections', ('sets', 'lists')) if len(argument) > 1 else 'sets'
    r = env.call(e.clean_output_dir, set(files) if coll == 'sets' else files, set(links) if coll == 'sets' else links)
    env.check(r.ok, 'the directory is cleaned')
    after = env.fs.tree(OUT)
    r, left = check_clean(env, files, links, before, after)
    rest = env.fs.tree('/')
    pre = OUT[1:]
    for p in before_all:
        if not p.startswith(pre):
            env.check(p in rest and env.eq(rest[p], before_all[p]), 'what lies outside is not touched')
    if left or not r:
        env.check(pre in rest, 'the directory is kept')
    env.check(len([p for p in rest if not p.startswith(pre)]) == len([p for p in before_all if not p.startswith(pre)]), 'nothing is created outside')
    env.reach('done')


def missing(env):
    """Missing output directory"""
    outside(env)
    before = env.fs.tree('/')
    what = env.choose('output', ('missing', 'missing parent', 'broken link'))
    arg = {'missing': OUT, 'missing parent': '/none/x', 'broken link': '/work/exp/l'}[what]
    if what == 'broken link':
        env.fs.symlink('nowhere', arg)
        before = env.fs.tree('/')
    e = env.load('cdtb.export').Exporter(arg)
    r = env.call(e.clean_output_dir, {any_path(env, 'kept', (1,))}, set())
    env.check(r.ok, 'nothing to clean')
    env.check(env.fs.tree('/') == before, 'nothing is touched')
    env.check(list(e.walk_output_dir()) == [], 'nothing is listed')
    env.reach('done')


def walk(env, slots, nskip, depths):
    """Listing"""
    outside(env)
    env.fs.makedirs(OUT)
    for path, kinds in slots.items():
        k = env.choose(path, kinds)
        if k != 'none':
            put(env, k, path)
    skip = [any_path(env, f'skip{i}', depths) for i in range(nskip)]
    e = env.load('cdtb.export').Exporter(OUT)
    r = env.call(lambda: list(e.walk_output_dir(skip)) if nskip or env.flag('given') else list(e.walk_output_dir()))
    env.check(r.ok, 'files are listed')
    exp = []
    for p, entry in env.fs.tree(OUT).items():
        if entry[0] == 'd':
            continue
        parents = p.split('/')[:-1]
        if not any(env.eq('/'.join(parents[:i + 1]), s) for i in range(len(parents)) for s in skip if len('/'.join(parents[:i + 1])) == len(s)):
            exp.append(p)
    env.check(sorted(r.value) == sorted(exp), 'files and links, except in skipped directories')
    env.reach('listed')


FILE = ('none', 'file', 'dir')
LINKS = ('link', 'dir link', 'broken')
CASES = [
    Case('files', 'clean', slots={'a': FILE, 'd/b': ('none', 'file'), 'd/e/c': FILE}, nfiles=2, nlinks=0, depths=(1, 2, 3), reach=['done', 'removed', 'emptied']),
    Case('links', 'clean', slots={'a': LINKS, 'd/b': ('none', 'file', 'link', 'dir link'), 'd/e/c': ('none', 'self', 'kept target')}, nfiles=1, nlinks=1, depths=(1, 2, 3), reach=['done', 'removed', 'emptied']),
    Case('designations of the directory', 'clean', slots={'a': ('file', 'dir link'), 'd/b': ('file', 'inner')}, nfiles=1, nlinks=0, depths=(1, 2), argument=('plain', 'relative', 'slash', 'doubled', 'link'), reach=['done', 'removed']),
    Case('empty directories', 'clean', slots={'v': ('none', 'dir'), 'd/v': ('none', 'dir'), 'd/e/v': ('none', 'dir'), 'd/e/c': ('file', 'broken')}, nfiles=1, nlinks=1, depths=(1, 3), reach=['done', 'removed', 'emptied']),
    Case('names which begin alike', 'clean', slots={'d/b': ('file', 'none'), 'dd/b': ('file', 'dir link'), 'da': ('file', 'link'), 'd/dd/b': ('file', 'none')}, nfiles=1, nlinks=1, depths=('one or two letters',), reach=['done', 'removed', 'emptied']),
    Case('several links', 'clean', slots={'a': LINKS, 'd/b': LINKS, 'd/c': ('none', 'file')}, nfiles=1, nlinks=2, depths=(1, 2), quick=False, reach=['done', 'removed', 'emptied']),
    Case('more entries', 'clean', slots={'a': ('none', 'file', 'link'), 'd/a': ('none', 'file', 'link'), 'd/b': ('none', 'file', 'dir'), 'd/e/c': ('none', 'file', 'link', 'dir')}, nfiles=2, nlinks=1, depths=(1, 2, 3), quick=False, reach=['done', 'removed', 'emptied']),
    Case('missing directory', 'missing', reach=['done']),
    Case('listing', 'walk', slots={'a': ('none', 'file', 'dir link'), 'd/b': ('none', 'file', 'self', 'broken'), 'd/e/c': ('none', 'file', 'dir')}, nskip=1, depths=(1, 2), reach=['listed']),
    Case('listing, names which begin alike', 'walk', slots={'d/b': ('file', 'none'), 'dd/b': ('file', 'dir link'), 'da': ('file', 'dir')}, nskip=1, depths=('one or two letters',), reach=['listed']),
    Case('whole listing', 'walk', slots={'a': ('none', 'file', 'dir link', 'broken', 'dir'), 'd/b': ('none', 'file', 'self', 'broken', 'dir')}, nskip=0, depths=(1, 2), reach=['listed']),
]
