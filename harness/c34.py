"""Path guessing"""
import itertools

from symx.runner import Case
from harness.util import LOWER, wild, same_texts

META = {
    'bounds': 'one or two known paths of several shapes, whose marked characters (separators, digits, letters, percent signs) are all those of an alphabet; words to try included; one of the candidates found along the way or none',
    'outside': 'longer paths, more known paths at a time; names which are parts of fixed directory names; dots in directories for suffixes and extensions',
    'assumptions': ['xxh64 is a function', 'known paths are distinct and have no line breaks'],
}
SEPS = '/_.-'
CHARS = 'ab1/_.-%'
NAMES = 'ab1_-%'
LANGS = ('ar_ae ar_eg cs_cz de_de el_gr en_au en_gb en_ph en_pl en_sg en_us es_ar es_es es_mx fr_fr hu_hu id_id it_it ja_jp ko_kr ms_my '
         'pl_pl pt_br ro_ro ru_ru th_th tr_tr vi_vn vn_vn zh_cn zh_my zh_tw').split()
HIT = 1 << 40
GD = 'plugins/rcp-be-lol-game-data/global/default/'


class Run:
    """A guesser with known paths, whose candidates are recorded"""

    def __init__(self, env, kind, paths, hit=None, terminal=True):
        self.env = env
        self.m = m = env.load('cdtb.hashes')
        for i, p in enumerate(paths):
            for q in paths[:i]:
                env.assume(env.any([len(p) != len(q), p != q]))
        self.paths = paths
        hf = m.hashfile_lcu if kind == 'lcu' else m.hashfile_game
        d = {}
        for i, p in enumerate(paths):
            d[i + 1] = p
        hf.hashes = d
        self.g = (m.LcuHashGuesser if kind == 'lcu' else m.GameHashGuesser)([HIT])
        self.tried = []
        self.hit = hit
        self.tty = terminal and hit is None and env.flag('terminal')
        env.os.tty = self.tty

    def _hash(self, text):
        self.tried.append(text)
        if self.tty and len(self.tried) == 1 and callable(self.env.handlers.get(2)):
            # progress is displayed on the first interruption
            self.env.interrupt()
        return HIT if len(self.tried) - 1 == self.hit else 1000 + len(self.tried)

    def run(self, method, required, *args, allowed=(), what='candidates', **kw):
        env = self.env
        self.tried.clear()
        env.hash_hook = self._hash
        r = env.call(getattr(self.g, method), *args, **kw)
        env.hash_hook = None
        env.check(r.ok, 'paths are guessed')
        env.check(not callable(env.handlers.get(2)), 'interruptions are handled as before')
        found = self.hit is not None and self.hit < len(self.tried)
        same_texts(env, self.tried, required, list(allowed) + self.paths, what, exact=not found)
        if found:
            t = self.tried[self.hit]
            env.check(HIT in self.g.known and env.eq(self.g.known[HIT], t) and HIT not in self.g.unknown, 'what is found is known')
        env.reach('found' if found else 'candidates' if required else 'nothing')


def paths_of(env, shapes, chars=CHARS):
    return [wild(env, f'path {i}', s, chars) for i, s in enumerate(shapes)]


def is_in(c, chars):
    return any(c == x for x in chars)


def slash(p):
    """Start of the basename"""
    i = len(p)
    while i > 0 and not p[i - 1] == '/':
        i -= 1
    return i


def stop(p):
    """Last dot of the basename which some text follows"""
    b = slash(p)
    for j in range(len(p) - 2, b - 1, -1):
        if p[j] == '.':
            return j
    return b


def words_of(p):
    """Spans of the words of the basename, before the extension"""
    out = []
    i, e = slash(p), stop(p)
    while i < e:
        j = i
        while j < e and not is_in(p[j], '_.-'):
            j += 1
        if j > i:
            out.append((i, j))
        i = j + 1
    return out


def numbers_of(p):
    out = []
    i, e = slash(p), stop(p)
    while i < e:
        j = i
        while j < e and '0' <= p[j] and p[j] <= '9':
            j += 1
        if j > i:
            out.append((i, j))
        i = j + 1
    return out


def dirs_of(paths):
    out = {}
    for p in paths:
        for i in range(len(p)):
            if p[i] == '/':
                out[i, tuple(p[:i])] = p[:i]
    return list(out.values())


def join(d, name):
    return d + '/' + name


def word_list(paths):
    """All the words of paths"""
    out = []
    for p in paths:
        i = 0
        while True:
            j = i
            while j < len(p) and not is_in(p[j], SEPS):
                j += 1
            if j == len(p):
                break
            w = p[i:j]
            if j - i < 3 or not all('0' <= c and c <= '9' for c in w):
                if not any(len(w) == len(x) and w == x for x in out):
                    out.append(w)
            i = j + 1
    return out


# ---------------------------------------------------------------- specifications

def sub_words(paths, words, nold=1, nnew=1):
    out = []
    for p in paths:
        ws = words_of(p)
        for k in range(len(ws) - nold + 1):
            if all(ws[i + 1][0] == ws[i][1] + 1 and is_in(p[ws[i][1]], '-_') for i in range(k, k + nold - 1)):
                a, b = ws[k][0], ws[k + nold - 1][1]
                for c in itertools.product(words, repeat=nnew):
                    for sep in '-_' if nnew > 1 else '-':
                        t = c[0]
                        for w in c[1:]:
                            t = t + sep + w
                        out.append(p[:a] + t + p[b:])
    return out


def add_words(paths, words):
    out = []
    for p in paths:
        for a, b in words_of(p):
            for w in words:
                for sep in '-_':
                    out.append(p[:a] + w + sep + p[a:])
                    out.append(p[:b] + sep + w + p[b:])
    return out


def sub_numbers(paths, nmax, digits):
    out = []
    for p in paths:
        for a, b in numbers_of(p):
            spans = [(a, b)] if digits is None else [(i, i + digits) for i in range(a, b - digits + 1, digits)]
            for i, j in spans:
                for n in range(nmax):
                    out.append(p[:i] + (str(n) if digits is None else str(n).zfill(digits)) + p[j:])
    return out


# ---------------------------------------------------------------- cases

def basenames(env, kind, shapes, chars=CHARS):
    paths = paths_of(env, shapes, chars)
    r = Run(env, kind, paths, env.choose('found', (None, 0)))
    names = [p[slash(p):] for p in paths]
    r.run('substitute_basenames', [join(d, n) for d in dirs_of(paths) for n in names], allowed=['/' + n for n in names] + names, what='basenames in each directory')


def given_basenames(env, kind, shapes):
    paths = paths_of(env, shapes)
    r = Run(env, kind, paths, env.choose('found', (None, 1)))
    names = [env.str('name', 2, 'ab.%'), 'x/y.z']
    r.run('check_basenames', [join(d, n) for d in dirs_of(paths) for n in names], env.choose('kind', (list, tuple, iter))(names),
          allowed=['/' + n for n in names] + names, what='given names in each directory')


def directories(env, shapes):
    """Directories are listed, again after new paths are known"""
    paths = paths_of(env, shapes)
    r = Run(env, 'lcu', paths)
    for again in (False, True):
        o = env.call(r.g.directory_list, **({'cached': False} if again else {}))
        env.check(o.ok, 'directories are listed')
        same_texts(env, list(o.value), dirs_of(paths), [''], 'directories')
        env.check(env.eq(env.call(r.g.directory_list).value, o.value), 'cached directories')
        if not again:
            paths = paths + ['new/dir/file.x']
            r.g.known[99] = paths[-1]
    env.reach('listed')


def basename_words(env, shapes, nold=1, nnew=1, chars=CHARS):
    paths = paths_of(env, shapes, chars)
    words = [env.str('word', 1, 'xyz%'), 'w'] if nnew == 1 else ['v', 'w']
    plugin, ext = env.choose('filter', ((None, None), ('p', None), (None, '.b'), ('p', '.b')))
    r = Run(env, 'lcu', paths, env.choose('found', (None, 0)))
    sel = [p for p in paths if (not plugin or p.startswith('plugins/p/')) and (not ext or p.endswith(ext))]
    kw = {'words': env.choose('kind', (list, iter))(words)}
    if plugin:
        kw['plugin'] = plugin
    if ext:
        kw['fileext'] = ext
    if nold != 1:
        kw['nold'] = nold
    if nnew != 1:
        kw['nnew'] = nnew
    r.run('substitute_basename_words', sub_words(sel, words, nold, nnew), what='words in the place of words', **kw)


def no_words(env):
    """Words cannot be replaced by nothing"""
    r = Run(env, 'lcu', ['a/b-c.d'])
    kw = env.choose('arguments', ({'nold': 0}, {'nnew': 0}))
    o = env.call(r.g.substitute_basename_words, words=['w'], **kw)
    env.check(not o.ok and o.exc_name == 'ValueError', 'numbers of words are checked')
    env.reach('refused')


LCU_EXCLUDED = ('plugins/rcp-be-lol-game-data/global/default/data/characters/',)


def known_words(env, kind, shapes, method, chars=NAMES):
    """Words of the known paths"""
    paths = paths_of(env, shapes, chars)
    r = Run(env, kind, paths, env.choose('found', (None, 0)))
    if kind == 'lcu':
        from_ = [p for p in paths if not p.startswith(LCU_EXCLUDED[0]) and not hashed_name(p)]
    else:
        from_ = paths
    words = word_list(from_)
    full = [w for w in words if len(w)]
    sel = paths
    if method == 'add_basename_word':
        if kind == 'game':
            sel = [p for p in paths if not any(x in p for x in ('assets/characters/', 'vo/', 'sfx/', 'skins_skin'))]
        r.run(method, add_words(sel, full), allowed=add_words(sel, words), what='added known words')
    else:
        r.run(method, sub_words(sel, full), allowed=sub_words(sel, words), what='known words in the place of words')


def hashed_name(p):
    """Name made of 32 hexadecimal digits"""
    for i in range(len(p) - 33):
        if p[i] == '/' and all(is_in(c, '0123456789abcdef') for c in p[i + 1:i + 33]) and p[i + 33] == '.':
            return True
    return False


def word_lists(env, kind, shapes, chars=CHARS):
    """Lists of words"""
    paths = paths_of(env, shapes, chars)
    r = Run(env, kind, paths)
    o = env.call(r.g.build_wordlist)
    env.check(o.ok, 'words are listed')
    if kind == 'lcu':
        paths = [p for p in paths if not p.startswith(LCU_EXCLUDED[0]) and not hashed_name(p)]
    words = word_list(paths)
    same_texts(env, list(o.value), [w for w in words if len(w)], words, 'words')
    env.reach('listed')


def numbers(env, kind, shapes, nmax=3, chars='a1/_.-%', excluded=None):
    paths = paths_of(env, shapes, chars)
    digits = env.choose('digits', (None, True, 1, 2))
    r = Run(env, kind, paths, env.choose('found', (None, 0)))
    n = len(str(nmax - 1)) if digits is True else digits
    sel = [p for p in paths if not (excluded and any(p.startswith(x) for x in excluded)) and not (kind == 'lcu' and hashed_name(p))]
    kw = {} if digits is None else {'digits': digits}
    r.run('substitute_numbers', sub_numbers(sel, nmax, n), nmax, what='numbers', **kw)


def default_numbers(env):
    """Numbers tried by default"""
    kind = env.choose('kind', ('game', 'lcu'))
    c = env.str('letter', 1, LOWER)
    p = 'a/' + c + '12.e'
    r = Run(env, kind, [p])
    r.run('substitute_numbers', ['a/' + c + str(n) + '.e' for n in range(100 if kind == 'game' else 10000)], what='numbers')


LCU_NUMBERS = [
    'plugins/rcp-be-lol-game-data/global/default/v1/champion-x1/1.x',
    'plugins/rcp-be-lol-game-data/global/default/data/characters/a/1.x',
    'plugins/rcp-be-lol-game-data/global/default/assets/characters/a/1.x',
    'plugins/rcp-be-lol-game-data/global/default/data/items/icons2d/12_a1.x',
    'plugins/rcp-be-lol-game-data/global/default/v1/champions/-1.json',
    'plugins/rcp-be-lol-game-data/br/en_us/v1/champion-tiles/1.jpg',
    'plugins/rcp-be-lol-game-data/br/en_us/v1/champions/-1.json',
    'plugins/x/0123456789abcdef0123456789abcdef.png',
]
LCU_NUMBERS_KEPT = [
    'plugins/rcp-be-lol-game-data/global/default/v1/champions/1.json',
    'plugins/rcp-be-lol-game-data/global/default/data/items/icons2d/a1.x',
    'plugins/rcp-be-lol-game-data/global/default/data/spells/1.x',
    'plugins/x/0123456789abcdef0123456789abcde.png',
    'plugins/x/0123456789abcdef0123456789abcdeg.png',
    'x/plugins/rcp-be-lol-game-data/global/default/v1/champions/-1.json',
]


def lcu_excluded_numbers(env):
    """Paths whose numbers are not replaced"""
    keep = env.flag('replaced')
    p = env.choose('path', LCU_NUMBERS_KEPT if keep else LCU_NUMBERS)
    r = Run(env, 'lcu', [p])
    r.run('substitute_numbers', sub_numbers([p], 3, None) if keep else [], 3, what='numbers')


def split_ext(p):
    b = slash(p)
    i = b
    while i < len(p) and p[i] == '.':
        i += 1
    for j in range(len(p) - 1, i, -1):
        if p[j] == '.':
            return p[:j], p[j:]
    return p, ''


def extensions(env, kind, shapes):
    paths = paths_of(env, shapes, 'ab0.-%')
    r = Run(env, kind, paths, env.choose('found', (None, 0)))
    pe = [split_ext(p) for p in paths]
    exts = [e for _, e in pe if not e.endswith('00')]
    r.run('substitute_extensions', [p + e for p, _ in pe for e in exts], what='extensions')


def regions(env, shapes):
    paths = paths_of(env, shapes, 'a/')
    r = Run(env, 'lcu', paths, env.choose('found', (None, 0)))
    required = []
    regs = list(r.m.REGIONS) + ['global']
    langs = LANGS + ['default']
    for p in paths:
        cut = []
        for i in range(len(p)):
            if p[i] == '/':
                cut.append(i)
        if p.startswith('plugins/') and len(cut) > 3 and all(b - a > 1 for a, b in zip(cut[:3], cut[1:4])):
            required += [p[:cut[1] + 1] + x + '/' + y + p[cut[3]:] for x in regs for y in langs]
    r.run('substitute_region_lang', required, what='regions and languages')


def plugins(env, shapes):
    paths = paths_of(env, shapes, 'ab/%-')
    r = Run(env, 'lcu', paths, env.choose('found', (None, 0)))
    found = []
    for p in paths:
        if p.startswith('plugins/'):
            j = 8
            while j < len(p) and not p[j] == '/':
                j += 1
            found.append((p[8:j], p[j:]))
    names = [n for n, t in found if len(n) and len(t)]
    others = [n for n, t in found if not len(t)]
    tails = [t for n, t in found if len(t) and len(n)]
    r.run('substitute_plugin', ['plugins/' + n + t for n in names for t in tails], what='plugins',
          allowed=['plugins/' + n for n in names + others] + ['plugins/' + n + t for n in others for t in tails])


def prefixes(env, shapes, chars='ab/.%'):
    paths = paths_of(env, shapes, chars)
    r = Run(env, 'game', paths, env.choose('found', (None, 0)))
    given = env.choose('prefixes', (None, ['x_', ''], ['%s_']))
    used = ['2x_', '2x_sd_', '4x_', '4x_sd_', 'sd_'] if given is None else given
    r.run('check_basename_prefixes', [p[:slash(p)] + x + p[slash(p):] for p in paths for x in used], *([] if given is None else [given]), what='prefixes')


def suffixes(env, shapes):
    paths = paths_of(env, shapes, 'ab.%')
    r = Run(env, 'game', paths, env.choose('found', (None, 0)))
    sufs, forms = [''], []
    for p in paths:
        # a.suffix.ext
        dots = []
        for i in range(len(p)):
            if p[i] == '.':
                dots.append(i)
        ok = [i for i, d in enumerate(dots) if (dots[i + 1] if i + 1 < len(dots) else len(p)) - d > 1]
        if not dots or len(dots) - 1 not in ok:
            continue
        e = dots[-1]
        s = dots[-2] if len(dots) > 1 and len(dots) - 2 in ok else e
        if s < e:
            sufs.append(p[s:e])
        forms.append((p[:s], p[e:]))
    r.run('substitute_suffixes', [a + s + b for a, b in forms for s in sufs], what='suffixes')


def characters(env, shapes):
    """Names of characters"""
    paths = paths_of(env, shapes, 'ab_-%')
    r = Run(env, 'game', paths, env.choose('found', (None, 0)))
    names, forms = [], []
    for p in paths:
        if p.startswith('data/characters/') or p.startswith('assets/characters/'):
            a = 16 if p.startswith('data') else 18
            b = a
            while b < len(p) and not p[b] == '/':
                b += 1
            if b == len(p) or b == a:
                continue
            name = p[a:b]
            names.append(name)
            pieces, i, j = [], a, a
            while j + len(name) <= len(p):
                if p[j:j + len(name)] == name:
                    pieces.append(p[i:j])
                    i = j = j + len(name)
                else:
                    j += 1
            pieces.append(p[i:])
            forms.append((p[:a], pieces))
    for n in names:
        # not a part of the directory names
        env.assume(env.all([len(n) > 1] + ['data/characters/'[i:i + len(n)] != n for i in range(16)] + ['assets/characters/'[i:i + len(n)] != n for i in range(18)]))
    out = []
    for head, pieces in forms:
        for n in names:
            t = head + pieces[0]
            for x in pieces[1:]:
                t = t + n + x
            out.append(t)
    r.run('substitute_character', out, what='characters')


def skins(env, shapes):
    """Numbers of skins"""
    paths = paths_of(env, shapes, '12')
    r = Run(env, 'game', paths, env.choose('found', (None, 0)))
    chars = {}
    for p in paths:
        i = 0
        while i < len(p) and not p[i:].startswith('/characters/'):
            i += 1
        if i == len(p):
            continue
        j = i + 12
        while not p[j] == '/':
            j += 1
        name = p[i + 12:j]
        if not p[j:].startswith('/skins/') or name == 'sightward':
            continue
        n = skin_at(p, j + 7)
        if not n or not p[n] == '/':
            continue
        pieces, skin, a, k = [], p[j + 7:n], 0, 0
        while k < len(p):
            e = skin_at(p, k)
            if e:
                pieces.append(p[a:k])
                a = k = e
            else:
                k += 1
        pieces.append(p[a:])
        c = chars.setdefault(name, ([], []))
        if not any(len(x) == len(skin) and x == skin for x in c[0]):
            c[0].append(skin)
        c[1].append(pieces)
    out = []
    for sk, forms in chars.values():
        for pieces in forms:
            for combo in itertools.product(sk, repeat=len(pieces) - 1):
                t = pieces[0]
                for s, x in zip(combo, pieces[1:]):
                    t = t + s + x
                out.append(t)
    r.run('substitute_skin_numbers', out, what='combinations of skins')


def skin_at(p, i):
    """End of the skin name at a place"""
    if p[i:i + 4] == 'base':
        return i + 4
    if p[i:i + 4] == 'skin':
        j = i + 4
        while j < len(p) and '0' <= p[j] and p[j] <= '9':
            j += 1
        if j > i + 4:
            return j
    return None


def langs(env, shapes):
    paths = paths_of(env, shapes, 'aend_%{')
    r = Run(env, 'game', paths, env.choose('found', (None, 0)))
    out = []
    for p in paths:
        pieces, a, i = [], 0, 0
        while i + 5 <= len(p):
            if any(p[i:i + 5] == x for x in LANGS):
                pieces.append(p[a:i])
                a = i = i + 5
            else:
                i += 1
        if pieces:
            pieces.append(p[a:])
            for lang in LANGS:
                t = pieces[0]
                for x in pieces[1:]:
                    t = t + lang + x
                out.append(t)
    r.run('substitute_lang', out, what='languages')


def skin_groups(env, shapes):
    """Skins of groups"""
    paths = paths_of(env, shapes, '12')
    r = Run(env, 'game', paths, env.choose('found', (None, 2)))
    chars = {}
    for p in paths:
        if not p.startswith('assets/characters/'):
            continue
        j = 18
        while not p[j] == '/':
            j += 1
        name = p[18:j]
        if name == 'sightward' or not p[j:].startswith('/skins/skin'):
            continue
        k = j + 11
        n = 0
        while '0' <= p[k] and p[k] <= '9':
            n = n * 10 + ord(p[k]) - 48
            k += 1
        if k == j + 11 or not p[k] == '/':
            continue
        if not isinstance(n, int):
            n = next(i for i in range(100) if n == i)
        c = chars.setdefault(name, {0})
        c.add(n)
    out = []
    for name, sk in chars.items():
        for n in range(1, len(sk) + 1):
            for c in itertools.combinations(sorted(f'_skins_skin{i}' for i in sk), n):
                out.append(f'data/{name}' + ''.join(c) + '.bin')
    r.run('guess_skin_groups_bin', out, what='groups of skins')


def chromas(env):
    """Groups of skins and chromas"""
    r = Run(env, 'game', ['a/b'], env.choose('found', (None, 1)))
    ids = [env.choose('first', (103000, 103001, 103010)), 103002]
    chroma = env.choose('chromas', ((), (103007,), (103003, 103011)))
    name = env.choose('name', ('Ahri', 'ahri'))
    doc = {}
    doc[str(ids[0])] = {'loadScreenPath': f'/lol-game-data/assets/ASSETS/Characters/{name}/Skins/Base/x.jpg'}
    if chroma:
        doc[str(ids[0])]['chromas'] = [{'id': i} for i in chroma]
    elif env.flag('empty list'):
        doc[str(ids[0])]['chromas'] = None
    doc[str(ids[1])] = {'loadScreenPath': f'/lol-game-data/assets/ASSETS/Characters/{env.choose("other", ("Ahri", "Annie"))}/Skins/Skin02/x.jpg'}
    content = env.json_bytes(doc)
    env.http_handler = lambda method, url, kw: env.response(content)
    groups = {}
    for i, d in doc.items():
        c = d['loadScreenPath'].lower().split('/')[5]
        groups.setdefault(c, []).append([int(i) % 1000] + [x['id'] % 1000 for x in d.get('chromas') or ()])
    out = []
    for c, gs in groups.items():
        gs = [[f'_skins_skin{i}' for i in g] for g in gs] + [['_skins_root']]
        for n in range(1, len(gs) + 1):
            for p in itertools.combinations(gs, n):
                out.append(f'data/{c}' + ''.join(sorted(s for g in p for s in g)) + '.bin')
    r.run('guess_skin_groups_bin_using_chromas', out, what='groups of skins')


def get_characters(env, shapes):
    """Characters of known paths"""
    paths = paths_of(env, shapes, 'ab./-')
    r = Run(env, 'game', paths)
    out = []
    for p in paths:
        a = next((len(x) for x in ('assets/characters/', 'data/characters/', 'characters/') if p.startswith(x)), None)
        if a is None:
            continue
        b = a
        while b < len(p) and not is_in(p[b], '/.'):
            b += 1
        if b > a and (b == len(p) or p[b] == '/'):
            out.append(p[a:b])
    o = env.call(r.g.get_characters)
    env.check(o.ok, 'characters are listed')
    same_texts(env, list(o.value), out, [], 'characters')
    env.reach('some' if out else 'none')


def character_files(env, char):
    """Files of characters"""
    c = wild(env, 'name', char, 'ab_{%')
    given = env.flag('given')
    r = Run(env, 'game', ['x/y'] if given else ['data/characters/' + c + '/x.y'], env.choose('found', (None, 3)))
    d = 'data/characters/' + c
    out = [d + x for x in ('/skins/root.bin', '/tiers/root.bin')]
    out += [d + '/skins/base/' + c + x for x in ('.skl', '.skn', '_tx_cm.dds')]
    out += [d + '/' + c + x for x in ('.bin', '.ddf')] + [x + '/characters/' + c + '/hud/' + c + y for x in ('data', 'assets') for y in ('_circle.dds', '_square.dds')]
    out.append('characters/' + c)
    out += [d + f'/{k}/skin{i}.bin' for k in ('skins', 'animations') for i in range(500 if c == 'sightward' else 200)]
    if c.startswith('pet'):
        out += [d + f'/tiers/tier{i}.bin' for i in range(10)]
    r.run('guess_characters_files', out, *([[c]] if given else []), what='files of characters')


def shaders(env, shapes):
    """Variants of shaders"""
    paths = paths_of(env, shapes, 'a.-p_')
    r = Run(env, 'game', paths, env.choose('found', (None, 3)))
    out = []
    for p in paths:
        for i in range(len(p) - 3, -1, -1):
            if p[i] == '.' and is_in(p[i + 1], 'pv') and p[i + 2] == 's':
                x = p[i + 3:]
                if x.startswith('_2_0') or x.startswith('_3_0'):
                    e = i + 7
                elif len(x) == 0 or is_in(x[0], '.-'):
                    e = i + 3
                else:
                    continue
                for v in ('.dx11', '.dx9', '.dx9sm3', '.glsl', '.metal', '-dx11', '-metal'):
                    out.append(p[:e] + v)
                    out += [p[:e] + v + f'_{n}' for n in range(0, 20000, 100)]
                break
    r.run('guess_shader_variants', out, what='variants of shaders')


def other_hashes(env, kind, path, chars):
    """Paths of the other hash list"""
    p = wild(env, 'other', path, chars)
    r = Run(env, kind, ['x/y.z'], env.choose('found', (None, 0)))
    (r.m.hashfile_game if kind == 'lcu' else r.m.hashfile_lcu).hashes = {5: p, 6: 'data/other.json' if kind == 'lcu' else GD + 'data/other.json'}
    a, e = split_ext(p)
    if kind == 'lcu':
        out = [GD + 'data/other.json']
        if e == '.dds':
            out += [GD + a + '.png', GD + a + '.jpg']
        elif e == '.json':
            out.append(GD + p)
        r.run('guess_from_game_hashes', out, what='paths of the game')
    else:
        out = ['data/other.json']
        if p.startswith(GD + 'assets/') or p.startswith(GD + 'data/'):
            if e == '.png' or e == '.jpg':
                out.append(a[len(GD):] + '.dds')
            elif e == '.json':
                out.append(p[len(GD):])
        r.run('guess_from_lcu_hashes', out, what='paths of the client')


def patterns(env):
    """Known patterns"""
    icons = 'plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'
    p = icons + wild(env, 'icon', '??.png', 'ab_')
    q = icons + 'other.png'
    hit = env.choose('found', (None, 0, 'last', 'last but one'))
    perks = 'plugins/rcp-fe-lol-perks/global/default/images/'
    out = []
    for i in range(8000, 8600, 100):
        out += [f'{perks}inventory-card/{i}/p{i}_s{j}_k{k}.jpg' for j in [0, *range(8000, 8600, 100)] for k in [0, *range(i, i + 100)]]
        out += [f'{perks}construct/{i}/{x}' for x in ('environment.jpg', 'construct.png')]
        out += [f'{perks}construct/{i}/keystones/{j}.png' for j in range(i, i + 100)] + [f'{perks}construct/{i}/second/{j}.png' for j in range(8000, 8600, 100)]
    r = Run(env, 'lcu', [p, q])
    san = 'plugins/rcp-be-sanitizer/global/default/'
    for i in range(5):
        for a in ('filter', 'unfilter', 'whitelist'):
            out.append(f'{san}{i}.{a}.csv')
            for x in LANGS:
                out += [f'{san}{i}.{a}.language.{x[:2]}.csv', f'{san}{i}.{a}.country.{x[3:]}.csv', f'{san}{i}.{a}.locale.{x}.csv']
            out += [f'{san}{i}.{a}.region.{x}.csv' for x in r.m.REGIONS]
    for x in 'allowedchars breakingchars projectedchars projectedchars1337 punctuationchars variantaliases'.split():
        for y in LANGS:
            out += [f'{san}{x}.locale.{y}.txt', f'{san}{x}.language.{y[:2]}.txt']
    # the found one is counted from the first candidate made of a known path
    if isinstance(hit, str):
        icon = [p[:-4] + '_splash.png', q[:-4] + '_splash.png']
        count = []
        inner = r._hash

        def hook(text):
            h = inner(text)
            if text.startswith(icons):
                count.append(text)
                if len(count) == (2 if hit == 'last' else 1):
                    r.hit = len(r.tried) - 1
                    return HIT
            return h
        r._hash = hook
    else:
        r.hit = hit
    out += [p[:-4] + '_splash.png', q[:-4] + '_splash.png']
    r.run('guess_patterns', out, what='patterns')


CASES = [
    Case('basenames: separators', 'basenames', kind='lcu', shapes=['a?b?c', 'd/e'], chars='a/._', reach=['candidates', 'found']),
    Case('basenames: names', 'basenames', kind='game', shapes=['a/b/?', 'c/%d', 'e'], chars='ab%', reach=['candidates', 'found']),
    Case('given basenames', 'given_basenames', kind='lcu', shapes=['a?b/c'], reach=['candidates', 'found']),
    Case('directories', 'directories', shapes=['a?b?c', 'a/b/d'], reach=['listed']),
    Case('words', 'basename_words', shapes=['a?b?c.b'], reach=['candidates', 'found', 'nothing']),
    Case('words: plugin', 'basename_words', shapes=['plugins/?/a?b.b', 'plugins/p/c.d'], chars='pq-_', reach=['candidates', 'found', 'nothing']),
    Case('words: two by one', 'basename_words', shapes=['p/a?b?c.b'], nold=2, reach=['candidates', 'found', 'nothing']),
    Case('words: one by two', 'basename_words', shapes=['p/a?b.b'], nnew=2, reach=['candidates', 'found', 'nothing']),
    Case('words: three by two', 'basename_words', shapes=['p/a?b-c?d.b'], nold=3, nnew=2, chars='a-_.', reach=['candidates', 'nothing']),
    Case('words: none', 'no_words', reach=['refused']),
    Case('known words', 'known_words', kind='game', shapes=['a?b.c'], method='substitute_basename_words', reach=['candidates', 'found']),
    Case('known words: added (game)', 'known_words', kind='game', shapes=['vo?a?b.c'], chars='a/_%', method='add_basename_word', reach=['candidates', 'found', 'nothing']),
    Case('known words: added (LCU)', 'known_words', kind='lcu', shapes=['a?b.c'], method='add_basename_word', reach=['candidates', 'found']),
    Case('known words (LCU)', 'known_words', kind='lcu', shapes=['a?b.c'], method='substitute_basename_words', reach=['candidates', 'found']),
    Case('word lists (game)', 'word_lists', kind='game', shapes=['a?b?1?23.c'], reach=['listed']),
    Case('word lists (LCU)', 'word_lists', kind='lcu', shapes=['plugins/rcp-be-lol-game-data/global/default/data/characters?a.x', 'e?0123456789abcdef0123456789abcde?.x'], chars='/a', reach=['listed']),
    Case('numbers (game)', 'numbers', kind='game', shapes=['a/1?2?b.d'], nmax=10, reach=['candidates', 'found']),
    Case('numbers (LCU)', 'numbers', kind='lcu', shapes=['12?3?c.d'], reach=['candidates', 'found', 'nothing']),
    Case('numbers: default', 'default_numbers', reach=['candidates']),
    Case('numbers: excluded', 'lcu_excluded_numbers', reach=['candidates', 'nothing']),
    Case('extensions', 'extensions', kind='game', shapes=['a/b?c?0', 'd/e.f'], reach=['candidates', 'found']),
    Case('regions and languages', 'regions', shapes=['plugins/b?/br/en?us/c'], reach=['candidates', 'found']),
    Case('plugins', 'plugins', shapes=['plugins/a?b/c', 'plugins/d/e?', 'other/x'], reach=['candidates', 'found']),
    Case('plugins: files', 'plugins', shapes=['plugins/ab?', 'plugins?c/d'], reach=['candidates', 'found']),
    Case('prefixes', 'prefixes', shapes=['a?b?c'], reach=['candidates', 'found']),
    Case('suffixes', 'suffixes', shapes=['a/b?c?d', 'e/f.g.h'], reach=['candidates', 'found']),
    Case('characters', 'characters', shapes=['data/characters/z?/z?b.x', 'assets/characters/yy/yy_%_yy.x'], reach=['candidates', 'found']),
    Case('skins', 'skins', shapes=['assets/characters/a/skins/skin?/a_skin?.x', 'x/characters/a/skins/base/b%'], reach=['candidates', 'found']),
    Case('skins: characters', 'skins', shapes=['assets/characters/a/skins/skin?/b.x', 'assets/characters/b/skins/skin?2/b.x', 'assets/characters/sightward/skins/skin5/c'], reach=['candidates', 'found']),
    Case('languages', 'langs', shapes=['a/e?_us/b.e?_us%', 'b/fr_fr/c_it_it'], reach=['candidates', 'found']),
    Case('groups of skins', 'skin_groups', shapes=['assets/characters/a/skins/skin?/x', 'assets/characters/a/skins/skin1?/x', 'assets/characters/b/skins/skin0/x', 'data/characters/c/skins/skin1/x'], reach=['candidates', 'found']),
    Case('groups of chromas', 'chromas', reach=['candidates', 'found']),
    Case('characters of paths', 'get_characters', shapes=['data/characters/a??', 'characters/?c', 'x/characters/d'], reach=['some']),
    Case('files of characters', 'character_files', char='a?b', reach=['candidates', 'found']),
    Case('files of pets', 'character_files', char='pet?', reach=['candidates', 'found']),
    Case('files of wards', 'character_files', char='sightward', reach=['candidates', 'found']),
    Case('shaders', 'shaders', shapes=['a/b.?s?2_0'], reach=['candidates', 'found', 'nothing']),
    Case('shaders: variants', 'shaders', shapes=['a/b.vs?dx'], reach=['candidates', 'found', 'nothing']),
    Case('paths of the game', 'other_hashes', kind='lcu', path='a/b.?d?', chars='ds.', reach=['candidates', 'found']),
    Case('paths of the client', 'other_hashes', kind='game', path=GD + 'data?a.?ng', chars='/.pj', reach=['candidates', 'found']),
    Case('patterns', 'patterns', reach=['candidates', 'found']),
]
