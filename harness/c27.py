"""Incremental exports with links"""
from symx.runner import Case
from harness.util import LOWER
from harness import patches

META = {
    'bounds': 'pairs of patches with up to 3 plain files of any 1-letter names at 1 to 3 levels, or up to 3 archive entries in one or two archives, each added, removed, changed, kept or moved to another file of the storage; converted files; unknown entries; chains of 3 patches; '
              'an output directory which is new, reached through a link, already exported, or which holds other files',
    'outside': 'paths which are a file and a directory of the same patch; the same path in two archives with different contents; conversions which fail; links of the output directory which point elsewhere than expected',
    'assumptions': ['files of the same storage path or checksum have the same content'],
}
BASE = '/work/out'


def content_of(source):
    return b'content of ' + source.encode('ascii')


def expected_lists(env, out, paths, unknown=()):
    env.check(env.eq(patches.lines(env, out + '/cdragon/files.exported.txt'), sorted(paths)), 'list of exported files')
    env.check(env.eq(patches.lines(env, out + '/cdragon/files.unknown.txt'), sorted(f'{h:016x}' for h in unknown)), 'list of unknown hashes')
    made = [p for p in patches.links(env, out)]
    listed = patches.lines(env, out + '/cdragon/files.links.txt')
    env.check(env.eq(listed or [], sorted(made)), 'list of links')
    return made


def check_view(env, out, expected):
    """All files have the expected contents, and there is no other one"""
    got = [(p, c) for p, c in patches.view(env, out) if not p.startswith('cdragon/')]
    env.check(len(got) == len(expected), 'number of files')
    for p, c in got:
        found = False
        for q, d in expected:
            if len(p) == len(q) and p == q:
                env.check(env.eq(c, d), 'content of the files')
                found = True
        env.check(found, 'no other file')


def cycle(env, old, new, expected_old, expected_new, unknown=(), out=BASE + '/9.2', prev_out=BASE + '/9.1', again=True):
    """Export old, then new with links, then new again"""
    r = patches.export(env, prev_out, old)
    env.check(r.ok, 'the previous patch is exported')
    check_view(env, prev_out, expected_old)
    before = env.fs.tree(prev_out)
    r = patches.export(env, out, new, old)
    env.check(r.ok, 'the patch is exported with links')
    env.check(patches.same_trees(env, before, env.fs.tree(prev_out)), 'the previous export is not modified')
    check_view(env, out, expected_new)
    made = expected_lists(env, out, [p for p, _ in expected_new], unknown)
    if again:
        after = env.fs.tree(out)
        r = patches.export(env, out, new, old, overwrite=env.flag('overwrite'))
        env.check(r.ok, 'the patch is exported again')
        env.check(patches.same_trees(env, after, env.fs.tree(out)), 'exporting again changes nothing')
        env.check(patches.same_trees(env, before, env.fs.tree(prev_out)), 'the previous export is not modified')
    return made


def no_conflict(env, paths):
    for i, p in enumerate(paths):
        for q in paths[i + 1:]:
            env.assume(p != q)
            env.assume(not p.startswith(q + '/'))
            env.assume(not q.startswith(p + '/'))


def plain(env, shapes, letters):
    """Plain files with any names"""
    patches.setup(env, {})
    old, new = {}, {}
    for i, sh in enumerate(shapes):
        parts = []
        for j, part in enumerate(sh.split('/')):
            parts.append(env.str(f'name {i} {j}', 1, letters) if part == '?' else part)
        p = '/'.join(parts)
        state = env.choose(f'state {i}', ('kept', 'changed', 'added', 'removed') if i else ('kept', 'changed'))
        if state != 'added':
            old[p] = f'/st/{i}'
        if state != 'removed':
            new[p] = f'/st/{i}' if state == 'kept' else f'/st/new{i}'
    no_conflict(env, list(old))
    no_conflict(env, list(new))
    env.assume(len(old) + len(new) > 1)
    made = cycle(env, make(env, '9.1', old), make(env, '9.2', new), expect(old), expect(new), again=len(shapes) < 3)
    kept = [p for p in new if p in old and old[p] == new[p]]
    for p in kept:
        env.check(any(p == l or p.startswith(l + '/') for l in made), 'unchanged files are links')
    for p in new:
        if p not in kept:
            env.check(not any(p == l or p.startswith(l + '/') for l in made), 'changed files are no links')
    env.reach('links' if made else 'no link')
    if any('/' not in l for l in made):
        env.reach('root link')


def make(env, version, files):
    return patches.Patch(env, version, {p: (s, content_of(s)) for p, s in files.items()})


def expect(files):
    return [(p, content_of(s)) for p, s in files.items()]


def archives(env, n):
    """Entries of archives"""
    names = {i + 1: 'data/' + ('a/', 'b/', 'a/')[i] + f'{i}.txt' for i in range(n)}
    patches.setup(env, names)
    conts = {'old': {}, 'new': {}}
    known = {}
    contents = {'old': {}, 'new': {}}
    archive_names = ('DATA/one.wad.client', 'DATA/two.wad.client')
    files = {'old': {a: [] for a in archive_names}, 'new': {a: [] for a in archive_names}}
    for i in range(n):
        h = i + 1
        state = env.choose(f'state {i}', ('kept', 'changed', 'added', 'removed', 'moved'))
        a = archive_names[env.choose(f'archive {i}', (0, 1))] if i else archive_names[0]
        b = archive_names[1 - archive_names.index(a)] if state == 'moved' else a
        one, two = f'one {i}'.encode('ascii'), f'two {i}'.encode('ascii')
        if state != 'added':
            files['old'][a].append((h, one, 2 * i))
            contents['old']['game/' + names[h]] = one
        if state != 'removed':
            same = state in ('kept', 'moved')
            files['new'][b].append((h, one if same else two, 2 * i if same else 2 * i + 1))
            contents['new']['game/' + names[h]] = one if same else two
    same_path = env.flag('archives at the same place')
    ps = []
    for k, v in (('old', '9.1'), ('new', '9.2')):
        fs = {}
        for a in archive_names:
            source = '/st/' + k + a[4:]
            if same_path and files['old'][a] == files['new'][a]:
                source = '/st/both' + a[4:]
            if files[k][a]:
                fs[a] = (source, files[k][a])
        ps.append(patches.Patch(env, v, fs))
    cycle(env, ps[0], ps[1], list(contents['old'].items()), list(contents['new'].items()), again=n < 3)
    env.reach('done')


def converted(env):
    """Converted files and unknown entries"""
    skn = b'\x33\x22\x11\x00' + bytes(12)
    skn2 = b'\x33\x22\x11\x00' + b'\x00\x00\x01\x00' + bytes(8)
    cbin = b'PROP\x01' + bytes(7)
    cbin2 = b'PROP\x02' + bytes(11)
    names = {1: 'a/x.dds', 2: 'a/y.skn', 3: 'b/z.bin'}
    patches.setup(env, names)
    pics = (b'one', b'two')
    variants = {1: pics, 2: (skn, skn2), 3: (cbin, cbin2), 9: (b'[1]', b'[2]')}

    def shown(h, c):
        if h == 1:
            return [('game/a/x.png', b'PNG' + c)]
        if h == 2:
            return [('game/a/y.skn', c), ('game/a/y/Unknown.obj', b'')]
        if h == 3:
            return [('game/b/z.bin', c), ('game/b/z.bin.json', env.json_bytes({} if c == cbin else {'__linked': []}))]
        return [('game/unknown/0000000000000009.json', c)]

    listed = {1: ['game/a/x.png'], 2: ['game/a/y.skn', 'game/a/y'], 3: ['game/b/z.bin', 'game/b/z.bin.json'], 9: ['game/unknown/0000000000000009.json']}
    e = {'old': [], 'new': []}
    exp = {'old': [], 'new': []}
    for h in env.choose('entries', ((1, 2), (2, 3), (1, 9), (2,), (3, 9))):
        state = env.choose(f'state {h}', ('kept', 'changed', 'added', 'removed'))
        one, two = variants[h]
        if state != 'added':
            e['old'].append((h, one, h * 2))
            exp['old'] += shown(h, one)
        if state != 'removed':
            c = one if state == 'kept' else two
            e['new'].append((h, c, h * 2 + (c == two)))
            exp['new'] += shown(h, c)
    e['old'].append((8, b'always', 1))
    e['new'].append((8, b'always', 1))
    env.load('cdtb.hashes').hashfile_game.hashes[8] = 'c.txt'
    exp['old'].append(('game/c.txt', b'always'))
    exp['new'].append(('game/c.txt', b'always'))
    old = patches.Patch(env, '9.1', {'DATA/a.wad.client': ('/st/old.wad.client', e['old'])})
    new = patches.Patch(env, '9.2', {'DATA/a.wad.client': ('/st/new.wad.client', e['new'])})
    prev_out, out = BASE + '/9.1', BASE + '/9.2'
    env.check(patches.export(env, prev_out, old).ok, 'the previous patch is exported')
    before = env.fs.tree(prev_out)
    env.check(patches.export(env, out, new, old).ok, 'the patch is exported with links')
    env.check(patches.same_trees(env, before, env.fs.tree(prev_out)), 'the previous export is not modified')
    check_view(env, out, exp['new'])
    paths = [p for h, _, _ in e['new'] for p in listed.get(h, ['game/c.txt'])]
    expected_lists(env, out, paths, [h for h, _, _ in e['new'] if h == 9])
    after = env.fs.tree(out)
    env.check(patches.export(env, out, new, old).ok, 'the patch is exported again')
    env.check(patches.same_trees(env, after, env.fs.tree(out)), 'exporting again changes nothing')
    env.reach('done')


def chain(env):
    """Links to links"""
    patches.setup(env, {})
    states = [{}, {}, {}]
    for i, p in enumerate(('a/1', 'a/2', 'b/3')):
        v = 0
        present = True
        for k in range(3):
            if k:
                step = env.choose(f'step {i} {k}', ('kept', 'changed', 'removed') if i else ('kept', 'changed'))
                if step == 'changed':
                    v += 1
                    present = True
                elif step == 'removed':
                    present = False
            if present:
                states[k][p] = f'/st/{i}{v}'
    env.assume(all(states))
    ps = [make(env, f'9.{k + 1}', s) for k, s in enumerate(states)]
    env.check(patches.export(env, BASE + '/9.1', ps[0]).ok, 'the first patch is exported')
    env.check(patches.export(env, BASE + '/9.2', ps[1], ps[0]).ok, 'the second patch is exported')
    before = [env.fs.tree(BASE + '/9.1'), env.fs.tree(BASE + '/9.2')]
    env.check(patches.export(env, BASE + '/9.3', ps[2], ps[1]).ok, 'the third patch is exported')
    for k in range(3):
        check_view(env, f'{BASE}/9.{k + 1}', expect(states[k]))
    env.check(patches.same_trees(env, before[0], env.fs.tree(BASE + '/9.1')), 'the previous exports are not modified')
    env.check(patches.same_trees(env, before[1], env.fs.tree(BASE + '/9.2')), 'the previous exports are not modified')
    made = expected_lists(env, BASE + '/9.3', states[2])
    env.reach('links' if made else 'no link')


def places(env):
    """Output directories which are reached in several ways"""
    patches.setup(env, {})
    kind = env.choose('output', ('link', 'patch link', 'relative', 'slash', 'dots', 'prev link'))
    old = {'a/1': '/st/1', 'a/b/2': '/st/2', 'c': '/st/3'}
    new = {'a/1': '/st/1', 'a/b/2': '/st/2', 'c': '/st/4'}
    if env.flag('deep change'):
        new['a/b/2'] = '/st/5'
    out, prev = BASE + '/9.2', BASE + '/9.1'
    if kind == 'link':
        env.fs.makedirs('/real/place', True)
        env.fs.makedirs('/work', True)
        env.fs.symlink('/real/place', BASE)
    elif kind == 'patch link':
        env.fs.makedirs('/other/disk/x', True)
        env.fs.makedirs(BASE, True)
        env.fs.symlink('/other/disk/x', out)
    elif kind == 'prev link':
        env.fs.makedirs('/other/disk/x', True)
        env.fs.makedirs(BASE, True)
        env.fs.symlink('/other/disk/x', prev)
    elif kind == 'relative':
        out, prev = 'out/9.2', 'out/9.1'
    elif kind == 'slash':
        out = out + '/'
    elif kind == 'dots':
        env.fs.makedirs(BASE + '/z', True)
        out = BASE + '/z/../9.2'
    made = cycle(env, make(env, '9.1', old), make(env, '9.2', new), expect(old), expect(new), out=out, prev_out=prev)
    env.check(len(made) > 0, 'there are links')
    env.reach(kind)


def other_files(env):
    """An output directory which is not empty"""
    patches.setup(env, {})
    old = {'a/1': '/st/1', 'a/2': '/st/2', 'c/1': '/st/3'}
    new = {'a/1': '/st/1', 'a/2': '/st/2', 'c/1': '/st/3', 'd': '/st/4'}
    which = env.choose('changed', ('none', 'a/1', 'c/1'))
    if which != 'none':
        new[which] = '/st/5'
    out = BASE + '/9.2'
    full = env.flag('exported without links before')
    if full:
        env.check(patches.export(env, out, make(env, '9.2', new)).ok, 'the patch is exported without links')
    name = env.choose('directory', ('', 'a/', 'c/', 'e/', 'a/e/')) + env.str('name', 1, '123cd')
    env.assume(not any(p == name or p.startswith(name + '/') or name.startswith(p + '/') for p in new))
    env.fs.put(out + '/' + name, b'stale')
    cycle(env, make(env, '9.1', old), make(env, '9.2', new), expect(old), expect(new), out=out)
    env.reach('full' if full else 'new')


def options(env):
    """Other combinations of the options"""
    patches.setup(env, {})
    old = {'a/1': '/st/1', 'b/2': '/st/2'}
    new = {'a/1': '/st/1', 'b/2': '/st/3'}
    m = env.load('cdtb.export')
    o, n = make(env, '9.1', old), make(env, '9.2', new)
    kind = env.choose('options', ('no previous', 'links without previous', 'no links'))
    if kind == 'links without previous':
        env.check(not env.call(m.CdragonRawPatchExporter, BASE + '/9.2', n, None, symlinks=True).ok, 'links need a previous patch')
    elif kind == 'no previous':
        env.check(patches.export(env, BASE + '/9.2', n, None, symlinks=env.choose('symlinks', (None, False))).ok, 'the patch is exported')
        check_view(env, BASE + '/9.2', expect(new))
        env.check(not expected_lists(env, BASE + '/9.2', new), 'no link')
    else:
        env.check(patches.export(env, BASE + '/9.2', n, o, symlinks=False).ok, 'the patch is exported')
        check_view(env, BASE + '/9.2', [('b/2', content_of('/st/3'))])
        env.check(env.eq(patches.lines(env, BASE + '/9.2/cdragon/files.exported.txt'), sorted(new)), 'list of exported files')
        env.check(not patches.links(env, BASE + '/9.2'), 'no link')
    env.reach(kind)


def layouts(env):
    """Patches with different layouts"""
    patches.setup(env, {1: 'data/x.txt', 2: 'data/y.txt'})
    v = env.choose('versions', (('14.3', '14.4'), ('14.4', '14.5'), ('9.1', 'main'), ('13.24', '14.3')))
    changed = env.flag('changed')
    def files(new):
        c = 5 if changed and new else 1
        return {'DATA/a.ko_kr.wad.client': ('/st/%s.ko_kr.wad.client' % v[int(new)], [(1, b'ko %d' % c, c), (2, b'same', 2)])}
    def exp(version, new):
        sub = 'game/ko_kr/' if version == 'main' or tuple(map(int, version.split('.'))) >= (14, 4) else 'game/'
        return [(sub + 'data/x.txt', b'ko %d' % (5 if changed and new else 1)), (sub + 'data/y.txt', b'same')]
    cycle(env, patches.Patch(env, v[0], files(False)), patches.Patch(env, v[1], files(True)), exp(v[0], False), exp(v[1], True), out=f'{BASE}/{v[1]}', prev_out=f'{BASE}/{v[0]}')
    env.reach('same layout' if ('ko_kr' in exp(v[0], 0)[0][0]) == ('ko_kr' in exp(v[1], 0)[0][0]) else 'other layout')


CASES = [
    Case('two files', 'plain', shapes=('?/?', '?/?'), letters=LOWER, reach=['links', 'no link', 'root link']),
    Case('files at several levels', 'plain', shapes=('?/?', '?'), letters=LOWER, reach=['links', 'no link', 'root link']),
    Case('three files', 'plain', shapes=('a/?', '?/b', 'a/?'), letters='abc', reach=['links', 'no link', 'root link']),
    Case('deep files', 'plain', shapes=('a/?/x', 'a/b/?'), letters=LOWER, reach=['links', 'no link', 'root link']),
    Case('archives', 'archives', n=2, reach=['done']),
    Case('converted files', 'converted', reach=['done']),
    Case('chain of patches', 'chain', reach=['links', 'no link']),
    Case('places', 'places', reach=['link', 'patch link', 'relative', 'slash', 'dots', 'prev link']),
    Case('other files', 'other_files', reach=['new', 'full']),
    Case('options', 'options', reach=['no previous', 'links without previous', 'no links']),
    Case('layouts', 'layouts', reach=['same layout', 'other layout']),
    Case('archives, three entries', 'archives', n=3, quick=False, reach=['done']),
    Case('three files with any names', 'plain', shapes=('?/?', '?/?', '?/?'), letters=LOWER, quick=False, reach=['links', 'no link', 'root link']),
    Case('four files', 'plain', shapes=('a/?', '?/b', 'a/?', '?/?'), letters='abc', quick=False, reach=['links', 'no link', 'root link']),
]
