"""Language filters"""
from symx.runner import Case
from harness.util import LOWER, UPPER
from harness.pstore import World, F, setup, languages, BASE

META = {
    'bounds': 'files with up to 2 flags of 4 to 6 characters each, language names of 5 characters in any case, lists of up to 2 names; manifests of 4 files with any subset of 3 flags, with and without link',
    'outside': 'more flags per file, longer names',
    'assumptions': ['flags of the form xx_xx (5 characters with an underscore) are locales'],
}

ALPHA = LOWER + UPPER + '_'


def predicate(env, nflags, lengths, nlangs):
    m = env.load('cdtb.patcher')
    flags = [env.str(f'flag{i}', env.choose(f'length{i}', lengths), ALPHA) for i in range(nflags)]
    if nflags == 0 and env.flag('no flags'):
        flags = None
    f = m.PatcherFile('name', 1, None, flags, [])
    flags = flags or []
    kind = env.choose('kind', ('all', 'none', 'name', 'list'))
    if kind == 'all':
        langs, exp = True, True
    elif kind == 'none':
        langs = False
        exp = not env.any([env.all([len(x) == 5, env.any([c == '_' for c in x])]) for x in flags])
    else:
        names = [env.str(f'lang{i}', 5, ALPHA) for i in range(1 if kind == 'name' else nlangs)]
        langs = names[0] if kind == 'name' else names
        exp = env.any([x.lower() == n.lower() for x in flags for n in names if len(x) == len(n)])
    r = env.call(lambda: m.PatcherFile.langs_predicate(langs)(f))
    env.check(r.ok, 'filter applies')
    env.check(bool(r.value) == bool(exp), 'file selected exactly when expected')
    man = m.PatcherManifest()
    man.files = {'name': f}
    r = env.call(lambda: list(man.filter_files(langs)))
    env.check(r.ok and len(r.value) == (1 if exp else 0), 'selection of a manifest')
    env.reach('selected' if exp else 'not selected')


FLAGS = ('en_US', 'macos', 'fr_FR')


def selection(env, masks, links):
    """Everything which uses the selection"""
    files = []
    for i in range(4):
        mask = env.choose(f'mask{i}', masks[i])
        files.append(F(f'Dir/f{i}.BIN', [1 + i % 3], flags=mask, link='Dir/f0.BIN' if i in links else None))
    w = World(env, {1: [1, 2], 2: [1]}, files, FLAGS)
    s, e = setup(env, w)
    langs, pred = languages(env)
    exp = [f for f in files if pred([t for i, t in enumerate(FLAGS) if f.flags & (1 << i)])]
    names = [f.name for f in exp]
    r = env.call(lambda: [f.name for f in e.manif.filter_files(langs)])
    env.check(r.ok and env.eq(r.value, names), 'files in order')
    pe = env.load('cdtb.patcher').PatcherPatchElement
    s2 = pe.__new__(pe)
    s2.elem = e
    env.check(env.eq(list(s2.fspaths(langs=langs)), [f'{BASE}/cdtb/releases/live/100/files/{n}' for n in names]), 'paths in the storage')
    env.check(env.eq(list(s2.relpaths(langs=langs)), [n.lower() for n in names]), 'export paths')
    env.check(env.eq(list(s2.paths(langs=langs)), [(f'{BASE}/cdtb/releases/live/100/files/{n}', n.lower()) for n in names]), 'pairs of paths')
    real = [f for f in exp if not f.link]
    env.check(sorted(e.bundle_ids(langs=langs, skip_extracted=False)) == w.needed(real), 'bundles')
    if langs is True:
        env.check(env.eq(list(s2.fspaths()), list(s2.fspaths(langs=True))) and env.eq(list(s2.relpaths()), list(s2.relpaths(langs=True))), 'all files by default')
        env.check(env.eq(list(s2.paths()), list(s2.paths(langs=True))) and sorted(e.bundle_ids()) == w.needed(real), 'all files by default')
        env.check(len(list(e.manif.filter_files())) == 4, 'all files by default')
    via = env.choose('through', ('element', 'release', 'patch element'))
    kw = {} if langs is True else {'langs': langs}
    if via == 'patch element':
        s2.download(**kw)
    else:
        o = e if via == 'element' else e.release
        o.download_bundles(**kw)
        o.extract(**kw)
    got = [p for p in env.fs.files(f'{BASE}/cdtb/releases/live/100/files')] if real else []
    env.check(sorted(got) == sorted(f.name for f in real), 'extracted files')
    for f in real:
        env.check(env.fs.content(f'{BASE}/cdtb/releases/live/100/files/{f.name}') == w.content(f), 'content')
    env.reach('some' if exp else 'nothing')


CASES = [
    Case('1 flag', 'predicate', nflags=1, lengths=(4, 5, 6), nlangs=2, reach=['selected', 'not selected']),
    Case('2 flags', 'predicate', nflags=2, lengths=(5,), nlangs=1, reach=['selected', 'not selected']),
    Case('no flag', 'predicate', nflags=0, lengths=(5,), nlangs=1, reach=['selected', 'not selected']),
    Case('2 flags, lengths', 'predicate', nflags=2, lengths=(4, 5, 6), nlangs=2, quick=False, reach=['selected', 'not selected']),
    Case('selection', 'selection', masks=((0, 1), (2, 4), (5,), (0, 3)), links=(), reach=['some', 'nothing']),
    Case('selection with links', 'selection', masks=((0,), (1, 7), (4,), (0, 1)), links=(1, 3), reach=['some', 'nothing']),
    Case('selection more', 'selection', masks=(range(8), range(8), (5,), (0,)), links=(2,), quick=False, reach=['some', 'nothing']),
]
