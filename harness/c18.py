"""Selection of patches and elements"""
from symx.runner import Case
from harness.pstore import BASE
from harness.util import DIGITS

META = {
    'bounds': 'sequences of up to 4 elements (thorough: 5) of any names, whose versions are any of 9.0 to 9.9 (so any grouping of versions), main or 10.X; '
              'every text of up to 6 characters over digits, dots and letters as version of a component; every name of a component; releases of a patcher storage with every version of 1 digit',
    'outside': 'longer sequences; versions which decrease and come back, within releases of a real storage; line breaks in component texts; '
               'components like `8.1..2`, which are not rejected but select nothing',
    'assumptions': [],
}


def storage(env, elements, missing=()):
    m = env.load('cdtb.storage')

    class Fake(m.Storage):
        def __init__(self):
            super().__init__('/st', 'http://x/')
            self.calls = []
            self.missing = missing

        def patch_elements(self, stored=False):
            self.calls.append(stored)
            for i, e in enumerate(elements):
                if not stored or i not in self.missing:
                    yield e
    return Fake()


def element(env, i, name, version):
    m = env.load('cdtb.storage')
    e = m.PatchElement(name, m.PatchVersion(version))
    e.index = i
    e.calls = []
    e.download = lambda langs=True: e.calls.append(langs)
    return e


def digit(env, name):
    return env.str(name, 1, DIGITS)


def elements(env, n, names=('game', 'client'), kinds=('9.',)):
    out, texts = [], []
    for i in range(n):
        k = env.choose(f'kind{i}', kinds) if len(kinds) > 1 else kinds[0]
        text = k if k == 'main' else k + digit(env, f'v{i}')
        out.append(element(env, i, env.choose(f'name{i}', names), text))
        texts.append(text)
    return out, texts


def groups(env, es, texts):
    """Runs of equal versions: [(text, [first element of each name])]"""
    out = []
    for e, t in zip(es, texts):
        if not out or not env.eq(out[-1][0], t):
            out.append((t, []))
        if not any(x.name == e.name for x in out[-1][1]):
            out[-1][1].append(e)
    return out


def indices(es):
    return sorted(e.index for e in es)


def check_patch(env, p, g, msg):
    env.check(env.eq(str(p.version), g[0]), msg + ': version')
    env.check(indices(p.elements) == indices(g[1]), msg + ': elements')


def grouping(env, n, kinds):
    es, texts = elements(env, n, kinds=kinds)
    s = storage(env, es)
    exp = groups(env, es, texts)
    got = list(s.patches())
    env.check(len(got) == len(exp), 'number of patches')
    for p, g in zip(got, exp):
        check_patch(env, p, g, 'patch')
        env.check(all(e.version == p.version for e in p.elements), 'elements of the same version')
        check_patch(env, p.latest(), g, 'latest elements')
        env.check(env.eq(str(p), 'patch=' + g[0]), 'text of the patch')
        p.download(langs=['x'])
        for e in es:
            env.check(e.calls == ([['x']] if any(e is x for x in g[1]) else []), 'elements which are downloaded')
            e.calls.clear()
        p.download()
        env.check(all(e.calls == [True] for e in g[1]), 'all languages are downloaded by default')
        for e in es:
            e.calls.clear()
    env.check(s.calls == [False], 'not limited to stored elements by default')
    env.check([str(p) for p in s.patches(stored=True)] == [str(p) for p in got] and s.calls == [False, True], 'stored patches')
    env.reach(f'{len(exp)} patches')


def selecting(env, n, kinds):
    m = env.load('cdtb.storage')
    es, texts = elements(env, n, kinds=kinds)
    s = storage(env, es)
    exp = groups(env, es, texts)
    form = env.choose('form', ('none', 'text', 'version', 'tuple'))
    want = None if form == 'none' else '9.' + digit(env, 'w')
    if form == 'text' and len(kinds) > 1 and env.flag('main'):
        want = 'main'
    arg = m.PatchVersion(want) if form == 'version' else (9, ord(want[2]) - 48) if form == 'tuple' else want
    stored = env.flag('stored')
    if env.flag('element'):
        name = env.choose('name', ('game', 'client'))
        e = None
        for x, t in zip(es, texts):
            if x.name == name and (want is None or env.eq(t, want)):
                e = x
                break
        r = env.call(lambda: s.patch_element(name, arg, stored=stored) if form != 'none' or env.flag('explicit') else s.patch_element(name, stored=stored))
        env.check(r.ok, 'element is selected')
        env.check(r.value is e, 'first matching element')
        env.reach('no element' if e is None else 'element')
    else:
        g = None
        for x in exp:
            if want is None or env.eq(x[0], want):
                g = x
                break
        r = env.call(lambda: s.patch(arg, stored=stored) if form != 'none' or env.flag('explicit') else s.patch(stored=stored))
        env.check(r.ok, 'patch is selected')
        env.check((r.value is None) == (g is None), 'patch is found')
        if g is not None:
            check_patch(env, r.value, g, 'first matching patch')
        env.reach('no patch' if g is None else 'patch')
    env.check(s.calls == [stored], 'stored elements only when requested')


def version_kind(text):
    """latest, exact version, or malformed"""
    if len(text) == 0:
        return 'latest', None
    if len(text) == 4 and text == 'main':
        return 'exact', text
    numbers, cur = 0, 0
    i = 0
    n = len(text)
    while i < n:
        if text[i] == '.':
            if cur == 0:
                return 'bad', None
            numbers += 1
            cur = 0
            if i == n - 1:
                return ('latest', text[:-1]) if numbers >= 2 else ('bad', None)
        elif text[i] in DIGITS:
            cur += 1
        else:
            return 'bad', None
        i += 1
    return 'exact', text


def component(env, n, alphabet, nelems):
    m = env.load('cdtb.storage')
    text = env.str('version', n, alphabet)
    for i in range(n - 1):
        env.assume(env.any([text[i] != '.', text[i + 1] != '.']))
    name = env.choose('name', ('patch', 'game', 'client'))
    es, texts = elements(env, nelems, kinds=('9.',) if nelems else ('9.',))
    s = storage(env, es)
    kind, v = version_kind(text)
    check_component(env, m, s, name, text, kind, v, es, texts)


def check_component(env, m, s, name, text, kind, v, es, texts):
    r = env.call(m.parse_storage_component, s, name + '=' + text)
    if kind == 'bad':
        env.check(not r.ok and r.exc_name == 'ValueError', 'malformed component is rejected')
        env.reach('malformed')
        return
    env.check(r.ok, 'component is accepted')
    if name == 'patch':
        g = None
        for x in groups(env, es, texts):
            if v is None or env.eq(x[0], v):
                g = x
                break
        env.check((r.value is None) == (g is None), 'patch is found')
        if g is not None:
            env.check(isinstance(r.value, m.Patch), 'a patch')
            check_patch(env, r.value, g, 'patch of a component')
    else:
        g = None
        for x, t in zip(es, texts):
            if x.name == name and (v is None or env.eq(t, v)):
                g = x
                break
        env.check(r.value is g, 'element of a component')
    env.reach('nothing' if g is None else 'found')


def elements_of_component(env, text, nelems):
    m = env.load('cdtb.storage')
    es, texts = elements(env, nelems, kinds=('9.', 'main'))
    name = env.choose('name', ('patch', 'game', 'client'))
    if text == 'main':
        v = text
    elif text:
        v = '9.' + digit(env, 'w')
        text = v + ('.' if text == 'dot' else '')
    kind, v = version_kind(text)
    # the latest element may not be stored: it is the one to select without version
    missing = (0,) if v is None and env.flag('latest is not stored') else ()
    check_component(env, m, storage(env, es, missing), name, text, kind, v, es, texts)


def bad_component(env):
    m = env.load('cdtb.storage')
    s = storage(env, [element(env, 0, 'game', '9.1')])
    a = env.str('a', 2, 'abcdefghijklmnopqrstuvwxyz=|. ')
    text = env.choose('text', ('', 'patch', '9.1', '=9.1', 'Patch=9.1', ' game=9.1', 'game =9.1', 'game= 9.1', 'game=9.1 ', 'patch=9.1=', 'x', 'game|client=9.1',
                               'solution=9.1', 'patch=latest', 'patch=Main', 'patch=mainx', 'xpatch=9.1', 'patch=-9.1', 'game=9,1', 'client=9.x', 'patch=.', 'patch=9.', 'patch=9.1a', 'patchgame=9.1'))
    place = env.choose('place', ('alone', 'before', 'after'))
    text = a + text if place == 'before' else text + a if place == 'after' else text
    calls = len(s.calls)
    r = env.call(m.parse_storage_component, s, text)
    env.check(not r.ok and r.exc_name == 'ValueError', 'malformed component is rejected')
    env.check(len(s.calls) == calls, 'no element is listed for a malformed component')
    env.reach('rejected')


def mixing(env):
    """Patches are made of elements of one version"""
    m = env.load('cdtb.storage')
    es, texts = elements(env, env.choose('n', (0, 1, 2, 3)), kinds=('9.', '10.'))
    r = env.call(m.Patch._create, es)
    same = bool(es) and all(env.eq(t, texts[0]) for t in texts)
    env.check(r.ok == bool(same), 'versions are not mixed')
    if r.ok:
        env.check(env.eq(str(r.value.version), texts[0]) and list(r.value.elements) == es, 'elements of the patch')
    else:
        env.check(r.exc_name == 'ValueError', 'error of mixed versions')
    env.check(not env.call(m.Patch).ok, 'no patch without elements')
    r = env.call(m.PatchElement, env.choose('bad name', ('', 'Game', 'lcu', 'patch', None)), m.PatchVersion('9.1'))
    env.check(not r.ok, 'unknown element is rejected')
    env.reach('patch' if same else 'mixed')


def order(env):
    """Equality and order of patches and elements"""
    m = env.load('cdtb.storage')
    (a, b), (ta, tb) = elements(env, 2, kinds=('9.', '10.'))
    pa, pb = m.Patch._create([a]), m.Patch._create([b])
    eq = env.eq(ta, tb)
    eq = True if eq else False
    env.check((pa == pb) == eq and (pa != pb) == (not eq), 'equality of patches')
    same = eq and a.name == b.name
    env.check((a == b) == same and (a != b) == (not same), 'equality of elements')
    env.check(len({a, b}) == (1 if same else 2) and len({pa, pb}) == (1 if eq else 2), 'sets of patches and elements')
    env.check(not (pa == a) and not (a == pa) and not (pa == ta) and not (a == ta), 'different kinds')
    later = a.version > b.version
    env.check((pa < pb) == (True if later else False), 'latest patch first')
    env.check([str(p) for p in sorted([pb, pa])] == ([str(pa), str(pb)] if later else [str(pb), str(pa)]) or eq, 'sorted patches')
    env.check(not env.call(lambda: pa < 3).ok, 'no order with other objects')
    env.reach('equal' if eq else 'different')


def releases(env, n):
    """Patches of a patcher storage"""
    m = env.load('cdtb.storage')
    pm = env.load('cdtb.patcher')
    es, texts = [], []
    for i in reversed(range(n)):
        d = {}
        for name in ('game', 'client'):
            if env.flag(f'{name}{i}'):
                d[name + '_patch_url'] = f'{name}-{i}'
        env.fs.put(f'{BASE}/cdtb/releases/live/{100 + i}/release.json', env.json_bytes(d))
        row = []
        for name in ('client', 'game'):
            if name + '_patch_url' in d:
                v = '9.' + digit(env, f'v{i}{name}')
                env.fs.put(f'{BASE}/cdtb/releases/live/{100 + i}/patch_version.{name}', v + '\n')
                row.append((name, f'{name}-{i}', v))
        es.append(row)
    s = pm.PatcherStorage(BASE, 'live')
    # elements of a release may come in any order: the storage tells
    listed = list(s.patch_elements(stored=True))
    k = 0
    flat = []
    for row in es:
        part = listed[k:k + len(row)]
        env.check(sorted(e.elem.manif_url for e in part) == sorted(u for _, u, _ in row), 'elements of a release')
        for e in part:
            for name, u, v in row:
                if e.elem.manif_url == u:
                    env.check(e.name == name and env.eq(str(e.version), v), 'version of the element')
                    e.index = len(flat)
                    flat.append((e, v))
        k += len(row)
    env.check(k == len(listed), 'elements of the storage')
    exp = groups(env, [e for e, _ in flat], [v for _, v in flat])
    got = list(s.patches(stored=True))
    env.check(len(got) == len(exp), 'number of patches')
    for p, g in zip(got, exp):
        env.check(env.eq(str(p.version), g[0]), 'version of the patch')
        env.check(sorted(e.elem.manif_url for e in p.elements) == sorted(e.elem.manif_url for e in g[1]), 'elements of the patch')
    p = s.patch(stored=True)
    env.check((p is None) == (not exp), 'latest patch')
    if exp:
        env.check(sorted(e.elem.manif_url for e in p.elements) == sorted(e.elem.manif_url for e in exp[0][1]), 'elements of the latest patch')
        want = exp[-1][0]
        name = exp[-1][1][-1].name
        first = next((e for e, v in flat if e.name == name and env.eq(v, want)), None)
        r = env.call(m.parse_storage_component, s, name + '=' + want)
        env.check(r.ok and r.value is not None and env.eq(r.value.elem.manif_url, first.elem.manif_url), 'element of a component')
    env.check(not env.http_log, 'nothing is requested')
    env.reach(f'{len(exp)} patches')


A = '019.main'
CASES = [
    Case('grouping', 'grouping', n=4, kinds=('9.',), reach=[f'{i} patches' for i in (1, 2, 3, 4)]),
    Case('grouping short', 'grouping', n=2, kinds=('9.', '10.', 'main'), reach=['1 patches', '2 patches']),
    Case('grouping nothing', 'grouping', n=0, kinds=('9.',), reach=['0 patches']),
    Case('grouping 5', 'grouping', n=5, kinds=('9.',), quick=False, reach=['5 patches']),
    Case('selecting', 'selecting', n=3, kinds=('9.',), reach=['patch', 'no patch', 'element', 'no element']),
    Case('selecting main', 'selecting', n=2, kinds=('9.', 'main'), reach=['patch', 'no patch', 'element', 'no element']),
    Case('selecting nothing', 'selecting', n=0, kinds=('9.',), reach=['no patch', 'no element']),
    Case('selecting 4', 'selecting', n=4, kinds=('9.',), quick=False, reach=['patch', 'no patch', 'element', 'no element']),
    *[Case(f'component {n}', 'component', n=n, alphabet=a, nelems=1, reach=r)
      for n, a, r in ((0, A, ['found', 'nothing']), (1, A, ['malformed', 'nothing']), (2, A, ['malformed', 'nothing']), (3, A, ['malformed', 'nothing', 'found']), (4, A, ['malformed', 'nothing', 'found']),
                      (5, '09.', ['malformed', 'nothing']), (6, '9.', ['malformed', 'nothing']))],
    Case('component 5', 'component', n=5, alphabet=A, nelems=0, quick=False, reach=['malformed', 'nothing']),
    *[Case(f'elements of {k or "latest"}', 'elements_of_component', text=k, nelems=3, reach=['found', 'nothing']) for k in ('', 'main', 'text', 'dot')],
    Case('malformed', 'bad_component', reach=['rejected']),
    Case('mixing', 'mixing', reach=['patch', 'mixed']),
    Case('order', 'order', reach=['equal', 'different']),
    Case('releases', 'releases', n=2, reach=[f'{i} patches' for i in (0, 1, 2, 3, 4)]),
    Case('3 releases', 'releases', n=3, quick=False, reach=[f'{i} patches' for i in (0, 1, 2, 3, 4, 5, 6)]),
]
