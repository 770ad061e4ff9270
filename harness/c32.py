"""Guessed hashes"""
from symx.runner import Case
from harness.util import LOWER, wad_header, wad_entry

META = {
    'bounds': 'up to 2 known and 2 unknown hashes of any 64-bit value; up to 3 candidates of any 1 to 3 letters, digits, slashes, dots or spaces, tried in any of the ways; archives with up to 2 entries of any hash; files of unknown hashes',
    'outside': 'longer candidates; the strategies which make the candidates (see C34)',
    'assumptions': ['xxh64 is a function'],
}
WAYS = ('check', 'is_known', 'check_iter', 'check_text_list', 'generator', 'xdbg')
CHARS = LOWER + 'ABC019/.-_'


def guesser(env, known, unknown, kind='lcu', make=list):
    m = env.load('cdtb.hashes')
    hf = m.hashfile_lcu if kind == 'lcu' else m.hashfile_game
    env.fs.makedirs(env.os.path.dirname(hf.filename))
    d = {}
    for h, t in known:
        d[h] = t
    hf.hashes = d
    cls = m.LcuHashGuesser if kind == 'lcu' else m.GameHashGuesser
    r = env.call(cls, make([h for h, _ in known[:1]] + unknown))
    env.check(r.ok, 'a guesser is created')
    return r.value, hf


def try_all(env, g, way, cands):
    """Tries candidates; gives the outcomes"""
    if way in ('check', 'is_known'):
        return [env.call(getattr(g, way), c) for c in cands]
    if way == 'check_iter':
        return [env.call(g.check_iter, list(cands))]
    if way == 'generator':
        return [env.call(g.check_iter, (c for c in cands))]
    if way == 'check_text_list':
        sep = env.choose('separator', (' ', '\n', ' \t\n '))
        text = ''
        for c in cands:
            text = text + sep + c
        return [env.call(g.check_text_list, text + env.choose('end', ('', '\n')))]
    content = b'first line\n'
    for c in cands:
        content = content + b'hash: 0 "' + c.encode('ascii') + b'" "x"\nother "zz"\n'
    env.fs.put('/work/xdbg.txt', content)
    return [env.call(g.check_xdbg_hashes, '/work/xdbg.txt')]


def state(env, g, known, unknown):
    """The guesser is in the expected state: lists of known (hash, text) and of unknown hashes"""
    env.check(len(g.known) == len(known), 'known hashes are neither lost nor made up')
    for h, t in known:
        env.check(h in g.known and env.eq(g.known[h], t), 'known hashes')
    env.check(len(g.unknown) == len(unknown), 'number of unknown hashes')
    for h in unknown:
        env.check(h in g.unknown, 'unknown hashes')


def candidates(env, ncand, nknown=1, nunknown=2, same=False):
    known = [(env.uint(f'known {i}', 64), f'text {i}') for i in range(nknown)]
    unknown = [env.uint(f'unknown {i}', 64) for i in range(nunknown)]
    hs = [x for x, _ in known] + unknown
    for i, x in enumerate(hs):
        for y in hs[:i]:
            env.assume(x != y)
    kind = env.choose('guesser', ('lcu', 'game'))
    g, hf = guesser(env, known, unknown, kind, env.choose('hashes', (list, set, tuple)))
    cands = [env.str(f'candidate {i}', env.choose(f'length {i}', (1, 3)) if i == 0 else 2, CHARS) for i in range(ncand)]
    if same and env.flag('the first one again'):
        cands.append(cands[0])
    way = env.choose('way', WAYS)
    outcomes = try_all(env, g, way, cands)
    for r in outcomes:
        env.check(r.ok, 'candidates are tried')
    found = 0
    results = []
    for c in cands:
        h = env.hashed('xxh64', c, 64)
        hit = False
        for u in unknown:
            if u == h:
                hit = True
                unknown.remove(u)
                known.append((h, c))
                found += 1
                break
        results.append(hit or any(h == k for k, _ in known))
    if way == 'is_known':
        for r, k in zip(outcomes, results):
            env.check(r.value is True or r.value is False, 'is_known tells whether the candidate is known')
            env.check(r.value == k, 'is_known tells whether the candidate is known')
    state(env, g, known, unknown)
    env.check(len(hf.hashes) == len(known), 'found hashes are added to the hash file')
    env.reach('found' if found else 'not found')


def histories(env):
    """Several ways in turn"""
    known = [(5, 'text')]
    unknown = [env.uint('unknown 0', 64), env.uint('unknown 1', 64)]
    env.assume(unknown[0] != unknown[1])
    for u in unknown:
        env.assume(u != 5)
    g, hf = guesser(env, known, unknown)
    found = 0
    for k in range(2):
        c = env.str(f'candidate {k}', 2, CHARS)
        way = env.choose(f'way {k}', WAYS)
        for r in try_all(env, g, way, [c]):
            env.check(r.ok, 'candidates are tried')
        h = env.hashed('xxh64', c, 64)
        for u in unknown:
            if u == h:
                unknown.remove(u)
                known.append((h, c))
                found += 1
                break
        state(env, g, known, unknown)
    env.reach(str(found))


def saved(env):
    """Found hashes are saved"""
    u = env.choose('unknown', (0, 0x1234, 0xffffffffffffffff))
    g, hf = guesser(env, [(5, 'some/text')], [u, 77])
    c = env.str('candidate', 3, CHARS)
    h = env.hashed('xxh64', c, 64)
    env.assume(h != 77)
    hit = u == h
    env.check(env.call(g.check, c).ok, 'candidates are tried')
    env.check(env.call(g.save).ok, 'hashes are saved')
    again = env.load('cdtb.hashes').HashFile(hf.filename).load()
    expected = {5: 'some/text'}
    if hit:
        expected[u] = c
    env.check(len(again) == len(expected), 'saved hashes')
    for h, t in expected.items():
        env.check(h in again and env.eq(again[h], t), 'saved hashes')
    env.reach('found' if hit else 'not found')


def wrong_use(env):
    """A string is not a list of candidates"""
    c = env.str('candidate', 2, CHARS)
    u = env.hashed('xxh64', c[0], 64)
    env.assume(u != 5)
    g, _ = guesser(env, [(5, 'text')], [u])
    r = env.call(g.check_iter, c)
    env.check(not r.ok and r.exc_name == 'TypeError', 'a string is refused')
    state(env, g, [(5, 'text')], [u])
    env.reach('refused')


def from_wads(env):
    """Guesser of archives"""
    kind = env.choose('guesser', ('lcu', 'game'))
    m = env.load('cdtb.hashes')
    w = env.load('cdtb.wad')
    a, b = env.uint('hash a', 64), env.uint('hash b', 64)
    env.assume(a != b)
    k = env.choose('known', ('none', 'a', 'other'))
    known = [] if k == 'none' else [(a if k == 'a' else 77, 'text')]
    if k == 'other':
        env.assume(a != 77)
        env.assume(b != 77)
    names = env.choose('archives', (('one.wad', 'two.wad'), ('one.wad.client', 'two.wad.client'), ('one.wad', 'two.wad.client'), ('one.wad.client', 'two.wad')))
    ext = '.wad' if kind == 'lcu' else '.wad.client'
    wads, unknown = [], []
    for n, h in zip(names, (a, b)):
        env.fs.put('/work/' + n, wad_header(4, 1) + wad_entry(h, 304, 0, 0, 0, 0, 1))
        wads.append(w.Wad('/work/' + n, hashes={}))
        if n.endswith(ext) and not any(h == x for x, _ in known):
            unknown.append(h)
    hf = m.hashfile_lcu if kind == 'lcu' else m.hashfile_game
    hf.hashes = {h: t for h, t in known}
    r = env.call((m.LcuHashGuesser if kind == 'lcu' else m.GameHashGuesser).from_wads, wads)
    env.check(r.ok, 'a guesser is created')
    g = r.value
    state(env, g, known, unknown)
    env.check(list(g.wads) == [x for x, n in zip(wads, names) if n.endswith(ext)], 'archives of the guesser')
    env.reach(kind)


def exported(env):
    """Unknown hashes of exports"""
    m = env.load('cdtb.hashes')
    digits = '0123456789abcdef'
    rows = [env.str(f'hash {i}', 3, digits) for i in range(2)]
    value = []
    for r in rows:
        v = 0
        for c in r:
            o = ord(c)
            v = v * 16 + (o - 48 if o < 58 else o - 87)
        value.append(v)
    split = env.flag('two files')
    one, two = [b'0000000000000' + r.encode('ascii') + b'\n' for r in rows]
    env.fs.put('/work/exp/files.unknown.txt', one if split else one + two)
    env.fs.put('/work/exp/other.txt', b'00000000000000ff0\n')
    if split:
        env.fs.put('/work/exp/more.unknown.txt', two)
    r = env.call(m.HashGuesser.unknown_from_export, '/work/exp')
    env.check(r.ok, 'unknown hashes are loaded')
    n = 1 if value[0] == value[1] else 2
    env.check(len(r.value) == n, 'number of unknown hashes')
    for v in value:
        env.check(v in r.value, 'unknown hashes')
    env.reach(str(n))


CASES = [
    Case('candidates', 'candidates', ncand=2, reach=['found', 'not found']),
    Case('repeated candidates', 'candidates', ncand=1, same=True, nknown=2, reach=['found', 'not found']),
    Case('saved hashes', 'saved', reach=['found', 'not found']),
    Case('successive ways', 'histories', reach=['0', '1', '2']),
    Case('wrong use', 'wrong_use', reach=['refused']),
    Case('archives', 'from_wads', reach=['lcu', 'game']),
    Case('exported unknown hashes', 'exported', reach=['1', '2']),
    Case('three candidates', 'candidates', ncand=3, quick=False, reach=['found', 'not found']),
]
