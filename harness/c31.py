"""Hash lists"""
from symx.runner import Case
from harness import faults

META = {
    'bounds': 'up to 3 hashes of any value, with texts of up to 3 characters: any ASCII character but line breaks, or some others (accents, CJK, emoji, unusual separators); files of 2 lines of any digits and texts, complete or not; hash sizes 8 and 16; every failing operation of a save',
    'outside': 'longer texts; texts with line breaks; lines whose hash has no digit, or underscores or signs; encodings other than UTF-8',
    'assumptions': [],
}
PATH = '/work/hashes.txt'
ANY = ''.join(chr(i) for i in range(128) if chr(i) not in '\r\n')
OTHER = ('é', '\u2028', '\x85', '漢', '😀', '\xa0')


def hash_file(env, size=16):
    m = env.load('cdtb.hashes')
    return m.HashFile(PATH) if size == 16 else m.HashFile(PATH, hash_size=size)


def text(env, name, lengths, other=False):
    n = env.choose(name + ' length', lengths)
    t = env.str(name, n, ANY)
    if other and env.flag(name + ' other'):
        t = t + env.choose(name + ' character', OTHER)
    return t


def same(env, got, want):
    """Same mapping as the list of (hash, text)"""
    env.check(len(got) == len(want), 'number of hashes')
    for h, t in want:
        env.check(h in got and env.eq(got[h], t), 'same text')


def any_hash(env, i, size, forms):
    """Hash with 12 bits of any value somewhere"""
    shift, rest = env.choose(f'hash form {i}', ((0, 0), (4 * size - 12, 0), (0, 0xfedcba9876543000), (8, 0xa900000000))[:forms])
    return (env.uint(f'hash {i}', 12) << shift) | (rest & ((1 << 4 * size) - 1))


def save_load(env, n, size, lengths, other=False, forms=4):
    """Saving and loading again"""
    f = hash_file(env, size)
    want = []
    for i in range(n):
        want.append((any_hash(env, i, size, forms), text(env, f'text {i}', lengths, other)))
    for i in range(n):
        for j in range(i):
            env.assume(want[i][0] != want[j][0])
    f.hashes = {}
    for h, t in want:
        f.hashes[h] = t
    r = env.call(f.save)
    env.check(r.ok, 'hashes are saved')
    same(env, f.hashes, want)
    r = env.call(hash_file(env, size).load)
    env.check(r.ok, 'saved hashes are loaded')
    same(env, r.value, want)
    # layout of the file
    rows = env.fs.content(PATH).decode('utf-8').split('\n')
    env.check(len(rows) == n + 1 and len(rows[-1]) == 0, 'one line per hash')
    texts = []
    for row in rows[:-1]:
        env.check(len(row) > size and row[size] == ' ', 'width of hashes')
        env.check(all(c in '0123456789abcdef' for c in row[:size]), 'hexadecimal hashes')
        texts.append(row[size + 1:])
    for a, b in zip(texts, texts[1:]):
        env.check(a <= b, 'lines are sorted by text')
    env.reach('saved')


FORMS = (('9', ''), ('f9', ''), ('9Ff', ''), ('9f9', '0000000000000'), ('F', 'fffffffffffffff'))


def loading(env, lengths):
    """Loading a file"""
    rows = []
    values = []
    content = b''
    last = env.choose('last line', ('complete', 'no line break', 'CR LF'))
    for i in range(2):
        ranges, fixed = env.choose(f'digits {i}', FORMS)
        d, v = '', 0
        for j, k in enumerate(ranges):
            c = env.str(f'digit {i} {j}', 1, {'9': '0123456789', 'f': 'abcdef', 'F': 'ABCDEF'}[k])
            d = d + c
            v = v * 16 + (ord(c) - {'9': 48, 'f': 87, 'F': 55}[k])
        d = d + fixed
        v = (v << 4 * len(fixed)) + (int(fixed, 16) if fixed else 0)
        values.append(v)
        t = text(env, f'text {i}', lengths)
        rows.append((d, t))
        eol = b'\n' if i == 0 or last == 'complete' else b'' if last == 'no line break' else b'\r\n'
        content = content + d.encode('ascii') + b' ' + t.encode('ascii') + eol
    env.fs.put(PATH, content)
    f = hash_file(env)
    r = env.call(f.load)
    env.check(r.ok, 'the file is loaded')
    want = list(zip(values, [t for _, t in rows]))
    if want[0][0] == want[1][0]:
        env.check(len(r.value) == 1, 'same hashes')
        env.reach('same hash')
    else:
        same(env, r.value, want)
        env.reach('different hashes')


def caching(env):
    """Loading is done once, unless forced"""
    a, b = env.str('first', 2, ANY), env.str('second', 2, ANY)
    f = hash_file(env)
    env.fs.put(PATH, b'00000000000000ab ' + a.encode('ascii') + b'\n')
    first = env.call(f.load)
    env.check(first.ok, 'the file is loaded')
    same(env, first.value, [(0xab, a)])
    change = env.choose('change', ('other', 'missing', 'malformed', 'in memory'))
    if change == 'other':
        env.fs.put(PATH, b'00000000000000cd ' + b.encode('ascii') + b'\n')
    elif change == 'missing':
        env.fs.remove(PATH)
    elif change == 'malformed':
        env.fs.put(PATH, b'00000000000000cd x\nnot a line\n')
    else:
        first.value[5] = b
    again = env.call(f.load)
    env.check(again.ok, 'loaded hashes are cached')
    if change == 'in memory':
        same(env, again.value, [(0xab, a), (5, b)])
    else:
        same(env, again.value, [(0xab, a)])
    forced = env.call(f.load, force=True)
    if change == 'other':
        env.check(forced.ok, 'loading can be forced')
        same(env, forced.value, [(0xcd, b)])
        same(env, f.load(), [(0xcd, b)])
    elif change == 'in memory':
        same(env, forced.value, [(0xab, a)])
    else:
        env.check(not forced.ok, 'errors are reported')
        env.check((forced.exc_name == 'FileNotFoundError') == (change == 'missing'), 'kind of error')
        same(env, f.load(), [(0xab, a)])
    env.reach(change)


def invalid(env):
    """Missing and malformed files"""
    kind = env.choose('kind', ('missing', 'directory', 'no text', 'no digit', 'empty', 'blank line', 'missing directory'))
    if kind == 'directory':
        env.fs.makedirs(PATH, True)
    elif kind == 'no text':
        env.fs.put(PATH, b'12 a\n' + env.str('hash', 2, '0123456789abcdef').encode('ascii') + b'\n')
    elif kind == 'no digit':
        env.fs.put(PATH, b'12 a\n' + env.str('hash', 1, 'ghz.-/').encode('ascii') + b' text\n')
    elif kind == 'empty':
        env.fs.put(PATH, b'')
    elif kind == 'blank line':
        env.fs.put(PATH, b'12 a\n\n')
    f = hash_file(env)
    if kind == 'missing directory':
        f = env.load('cdtb.hashes').HashFile('/nowhere/else/hashes.txt')
    r = env.call(f.load)
    if kind == 'empty':
        env.check(r.ok and len(r.value) == 0, 'an empty file has no hash')
    else:
        env.check(not r.ok, 'errors are reported')
        if kind.startswith('missing'):
            env.check(r.exc_name == 'FileNotFoundError', 'missing files are reported as such')
        # not taken as loaded
        env.check(not env.call(f.load).ok, 'errors are reported again')
        if kind != 'directory' and kind != 'missing directory':
            env.fs.put(PATH, b'12 a\n')
            r = env.call(f.load)
            env.check(r.ok and env.eq(dict(r.value), {0x12: 'a'}), 'a file which has been put right is loaded')
    env.reach(kind)


def failing(env):
    """A failing save is reported"""
    f = hash_file(env)
    f.hashes = {1: env.str('text', 2, ANY), 2: 'b'}
    had = env.flag('saved before')
    if had:
        env.fs.put(PATH, b'0000000000000003 c\n')
    failed, r = faults.run(env, 'error', f.save, limit=6)
    env.check(r.ok != bool(failed), 'a failing save is reported')
    if not failed:
        same(env, hash_file(env).load(), list(f.hashes.items()))
    env.check(len(f.hashes) == 2, 'hashes are not lost')
    env.reach('failed' if failed else 'saved')


CASES = [
    Case('save and load', 'save_load', n=2, size=16, lengths=(0, 2), reach=['saved']),
    Case('save and load short hashes', 'save_load', n=2, size=8, forms=2, lengths=(1, 3), reach=['saved']),
    Case('save and load three', 'save_load', n=3, size=8, lengths=(1,), quick=False, reach=['saved']),
    Case('other characters', 'save_load', n=2, size=16, lengths=(0, 1), other=True, forms=1, reach=['saved']),
    Case('no hash', 'save_load', n=0, size=16, lengths=(0,), reach=['saved']),
    Case('loading', 'loading', lengths=(0, 2), reach=['same hash', 'different hashes']),
    Case('caching', 'caching', reach=['other', 'missing', 'malformed', 'in memory']),
    Case('invalid files', 'invalid', reach=['missing', 'directory', 'no text', 'no digit', 'empty', 'blank line', 'missing directory']),
    Case('failing saves', 'failing', reach=['failed', 'saved']),
]
