"""Operations whose symbolic models are compared with the real ones by selftest.py"""
import fnmatch
import json
import posixpath
import re
import struct
from pathlib import Path, PurePosixPath

TEXT = {}
DATA = {}
NUM = {}


def text(alphabet, n):
    def f(g):
        TEXT[g.__name__] = (g, alphabet, n)
        return g
    return f


def data(alphabet, n):
    def f(g):
        DATA[g.__name__] = (g, alphabet, n)
        return g
    return f


def num(lo, hi):
    def f(g):
        NUM[g.__name__] = (g, lo, hi)
        return g
    return f


# ---------------------------------------------------------------- texts

@text('aB./', 4)
def split(s):
    return [s.split('/'), s.split('.', 1), s.rsplit('.', 1), s.partition('/'), s.rpartition('a')]


@text('aB ./\n', 3)
def strip(s):
    return [s.strip(), s.rstrip('/'), s.lstrip('aB'), s.split(), s.splitlines(), s.splitlines(True)]


@text('aBé1ǅ', 3)
def case(s):
    return [s.lower(), s.upper(), s.isalpha(), s.isdigit(), s.isascii(), s.islower(), s.isupper(), s.isalnum(), s.casefold()]


@text('ab', 4)
def find(s):
    return [s.find('ab'), s.rfind('b'), s.count('a'), s.swapcase(), s.capitalize(), s.startswith('ab'), s.endswith(('ba', 'bb')), s.replace('ab', 'x'), s.replace('a', 'bb', 1), 'aa' in s, s.find('b', 2), s.removeprefix('a'), s.removesuffix('ab')]


@text('ab', 4)
def index(s):
    return s.index('ba')


@text('ab', 3)
def compare(s):
    return [s < 'ab', s <= 'b', s > 'aab', s == 'ba', s != '', sorted([s, 'ab', 'b', '']), max(s, 'ab'), s in ('a', 'ab', 'bab'), s in {'b', 'ba'}, {'a': 1, 'ab': 2}.get(s)]


@text('a1-_ +', 3)
def to_int(s):
    return int(s)


@text('0aF_x', 3)
def to_hex(s):
    return int(s, 16)


@text('ab{}', 3)
def formats(s):
    return [f'{s}-{s:>5}|{s:<4}|{s!r}', '%s-%5s' % (s, s), '{} {0}'.format(s) if False else '{}{:^5}'.format(s, s), s + 'x', s * 2, s[::-1], s[1:], s[-1:], s[:2], s.join(['1', '2', '3']), s.ljust(4, '.'), s.rjust(4), s.zfill(4), s.center(5)]


@text('a\'"\\\n', 3)
def representation(s):
    return [repr(s), f'{s!r}']


@text('aé€😀', 2)
def encode(s):
    return [s.encode('utf-8'), len(s), s.encode('utf-8').decode('utf-8'), [ord(c) for c in s]]


@text('aé€', 2)
def encode_ascii(s):
    return s.encode('ascii')


@text('aé€', 2)
def encode_other(s):
    return [s.encode('ascii', 'ignore'), s.encode('ascii', 'replace')]


@text('a./', 5)
def paths(s):
    return [posixpath.join(s, 'x'), posixpath.join('x', s), posixpath.split(s), posixpath.splitext(s), posixpath.basename(s), posixpath.dirname(s), posixpath.normpath(s), posixpath.isabs(s)]


@text('a./', 4)
def common(s):
    return [posixpath.relpath(s or 'a', 'a'), posixpath.commonprefix([s, 'a/.', 'a/a'])]


@text('a./', 4)
def pure_paths(s):
    p = PurePosixPath(s)
    return [str(p), p.name, p.suffix, p.suffixes, p.stem, f'{p}:{p!s}', list(p.parts), str(p.parent), p.is_absolute(), str(p / 'x'), p.as_posix()]


@text('a./', 3)
def whole_paths(s):
    p = Path('x') / s
    return [str(p), p.name, p.suffix, p.stem, str(p.parent), str(Path(s, 'y'))]


@text('a.', 3)
def suffixes(s):
    return str(PurePosixPath('d/b' + s).with_suffix('.txt'))


@text('ab.*', 3)
def globs(s):
    return [fnmatch.fnmatchcase(s, 'a*'), fnmatch.fnmatchcase(s, '?b'), fnmatch.fnmatchcase(s, '[ab].*'), fnmatch.fnmatchcase(s, '*.b'), fnmatch.fnmatchcase(s, '[!a]*'), fnmatch.fnmatch(s, '*a')]


def groups(m):
    return None if m is None else [m.span(), m.group(0), list(m.groups())]


@text('a1_/', 4)
def regexes(s):
    return [groups(re.match(r'([a-z]+)(\d*)', s)), groups(re.search(r'_(\d+)', s)), groups(re.fullmatch(r'(a|1)+_?/?', s)), re.findall(r'\d', s), re.sub(r'[_/]+', '-', s), re.split(r'[_/]', s),
            groups(re.search(r'(a+?)(1|$)', s)), groups(re.match(r'(?:a|_)*(?=1)', s)), re.sub(r'(a)(1)', r'\2\1', s), bool(re.search(r'\b1', s)), [m.start() for m in re.finditer(r'a(?!1)', s)]]


@text('aA.\n', 4)
def regexes_more(s):
    return [groups(re.match(r'^a.$', s)), groups(re.search(r'a$', s)), groups(re.search(r'(?i)aa', s)), groups(re.match(r'a.', s, re.S)), groups(re.search(r'^A', s, re.M)), groups(re.match(r'(.)\1', s)), groups(re.fullmatch(r'[^.]*\.?', s)), groups(re.match(r'a{2,3}', s))]


@text('{}[]1",', 3)
def json_texts(s):
    return json.loads(s)


@text('9.10', 4)
def numbers_of(s):
    return tuple(int(x) for x in s.split('.'))


@text('ab', 3)
def collections(s):
    out = {}
    for c in s:
        out[c] = out.get(c, 0) + 1
    return [out, sorted(set(s)), list(dict.fromkeys(s)), list(zip(s, s[1:])), [i for i, c in enumerate(s) if c == 'a'], any(c == 'b' for c in s), all(c == 'a' for c in s), sum(1 for c in s if c > 'a'), list(reversed(s))]


# ---------------------------------------------------------------- bytes

@data(b'a\x00\x80\xff', 3)
def methods(b):
    return [b.split(b'\x00'), b.find(b'\x80'), b.rstrip(b'\x00'), b.hex(), b[::-1], b.startswith(b'a'), b'\x00' in b, b.count(b'a'), list(b), int.from_bytes(b, 'little'), int.from_bytes(b, 'big'), b + b'x', b.replace(b'a', b'bc'), bytes(reversed(b))]


@data(b'a\xc3\xa9\xe2', 3)
def decode(b):
    return b.decode('utf-8')


@data(b'a\xc3\xa9\xe2', 3)
def decode_other(b):
    return [b.decode('utf-8', 'replace'), b.decode('utf-8', 'ignore'), b.decode('latin-1'), b.decode('ascii', 'replace')]


@data(b'a\x80', 2)
def decode_ascii(b):
    return b.decode('ascii')


@data(b'\x00\x01\x80\xff', 4)
def unpack(b):
    if len(b) != 4:
        return struct.unpack('<I', b)
    return [struct.unpack('<I', b), struct.unpack('>i', b), struct.unpack('<2H', b), struct.unpack('<bB2s', b), struct.unpack('<?Bh', b), struct.unpack_from('<H', b, 1)]


@data(b'a1\x00', 4)
def byte_regexes(b):
    return [groups(re.search(br'a(\d)', b)), re.findall(br'[^\x00]+', b), re.sub(br'\x00', b'-', b), groups(re.match(br'..', b, re.S))]


# ---------------------------------------------------------------- numbers

@num(0, 255)
def packs(n):
    return [struct.pack('<I', n), struct.pack('>H', n), n.to_bytes(4, 'little'), bytes([n]), f'{n:02x}', f'{n:08X}', '%d %x %03d' % (n, n, n), str(n), hex(n), f'{n:>5}', f'{n:,}' if False else '', f'{n:#x}', f'{n:b}']


@num(-30, 30)
def arithmetic(n):
    return [n // 7, n % 7, n // -7, n % -7, divmod(n, 5), -n, ~n, abs(n), n << 3, n >> 2, n & 0x3c, n | 9, n ^ 0x15, n * n, n ** 2, bool(n), int(n > 3), min(n, 4), max(n, -3), n.bit_length(), n == 5, 3 < n < 8]


@num(-5, 5)
def sequences(n):
    t = [0, 1, 2, 3]
    return [t[:n], t[n:], t[::n] if n else None, list(range(n)), list(range(3, n)), list(range(n, -2, -1)), n in t, [x for x in t if x > n], t.index(n) if n in t else None]


@num(-5, 5)
def indices(n):
    return ['abc'[n], b'abc'[n], (1, 2, 3)[n]]


@num(0, 300)
def limits(n):
    return [bytes([n])]


@num(0, 70000)
def big_limits(n):
    return [struct.pack('<H', n)]


# ---------------------------------------------------------------- comparison

def native(f, x):
    try:
        return ('value', f(x))
    except Exception as e:
        return ('exception', type(e).__name__)


def agree(env, f, x, cases):
    r = env.call(f, x)
    for c, (kind, exp) in cases:
        if kind == 'value':
            ok = r.ok and same(env, r.value, exp)
        else:
            ok = not r.ok and r.exc_name == exp
        env.check(env.implies(x == c, ok), f'{c!r}: expected {exp!r}')


def same(env, a, b):
    if isinstance(b, (list, tuple)):
        return isinstance(a, type(b)) and len(a) == len(b) and env.all([same(env, x, y) for x, y in zip(a, b)])
    if isinstance(b, dict):
        return isinstance(a, dict) and len(a) == len(b) and env.all([same(env, x, y) for x, y in zip(a.items(), b.items())])
    if b is None or isinstance(b, bool):
        return (a is None) == (b is None) if b is None else a == b
    if isinstance(b, (str, bytes)):
        return isinstance(a, type(b)) and len(a) == len(b) and a == b
    return a == b


def run_text(env, key, n, cases):
    f, alphabet, _ = TEXT[key]
    agree(env, f, env.str('s', n, alphabet), cases)


def run_data(env, key, n, cases):
    f, alphabet, _ = DATA[key]
    b = env.bytes('b', n)
    for x in b:
        env.assume(env.any([x == v for v in alphabet]))
    agree(env, f, b, cases)


def run_num(env, key, cases):
    f, lo, hi = NUM[key]
    agree(env, f, env.int('n', lo, hi), cases)
