"""Version numbers"""
from symx.runner import Case
from harness.util import DIGITS

META = {
    'bounds': 'versions of 1 to 4 numbers: as tuples, of numbers up to 3 digits (below 2**16 for one of the numbers); as texts, every number of up to 3 digits (no leading zero); '
              'pairs and triples of versions of the same kind, of different classes for equality; texts of up to 4 arbitrary ASCII characters for malformed versions',
    'outside': 'longer texts, leading zeros and signs, versions with more than 4 numbers, ordering against something which is not a version',
    'assumptions': [],
}
CLASSES = {'BaseVersion': 'cdtb.storage', 'PatchVersion': 'cdtb.storage', 'RadsVersion': 'cdtb.rads'}


def cls(env, name):
    return getattr(env.load(CLASSES[name]), name)


def number(env, name, n):
    if n == 1:
        return env.str(name, 1, DIGITS)
    return env.str(name + '.0', 1, '123456789') + env.str(name + '.1', n - 1, DIGITS)


def value(text):
    n = 0
    for i in range(len(text)):
        n = n * 10 + (ord(text[i]) - 48)
    return n


def make(env, name, c, form, lengths, bits=16):
    """A version and its numbers"""
    if form == 'tuple':
        t = tuple(env.uint(f'{name}{i}', bits) for i in range(len(lengths)))
        for x, n in zip(t, lengths):
            # the number of digits is given, except for 0
            if n:
                env.assume(x < 10 ** n)
                env.assume(x >= (10 ** (n - 1) if n > 1 else 0))
        return env.call(c, t), t
    nums = [number(env, f'{name}{i}', n) for i, n in enumerate(lengths)]
    return env.call(c, '.'.join(nums)), tuple(value(n) for n in nums)


def less(env, a, b):
    """Lexicographic order of two lists of numbers"""
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = env.any([x < y, env.all([x == y, r])])
    return r


def same(env, a, b):
    return len(a) == len(b) and env.all([x == y for x, y in zip(a, b)])


def pair(env, clsname, forms, la, lb, keep=None):
    c = cls(env, clsname)
    (a, ta), (b, tb) = make(env, 'a', c, forms[0], la), make(env, 'b', c, forms[1], lb)
    env.check(a.ok and b.ok, 'version is accepted')
    a, b = a.value, b.value
    ta, tb = ta[:keep], tb[:keep]
    lt, eq = less(env, ta, tb), same(env, ta, tb)
    gt = less(env, tb, ta)

    def agree(got, exp, msg):
        env.check(got if exp else not got, msg)
    kind = 'equal' if eq else 'less' if lt else 'greater'
    exp = {'equal': (False, True, True, False, False, True), 'less': (True, True, False, True, False, False), 'greater': (False, False, False, True, True, True)}[kind]
    for (op, got), e in zip((('<', lambda: a < b), ('<=', lambda: a <= b), ('==', lambda: a == b), ('!=', lambda: a != b), ('>', lambda: a > b), ('>=', lambda: a >= b)), exp):
        r = env.call(got)
        env.check(r.ok and env.any([r.value == True, r.value == False]), f'{op} gives an answer')  # noqa
        agree(r.value, e, f'{op} compares numbers')
    agree(b == a, kind == 'equal', '== is symmetric')
    if kind == 'equal':
        env.check(hash(a) == hash(b), 'equal versions have the same hash')
        env.check(env.eq(str(a), str(b)), 'equal versions have the same text')
    agree(len({a, b}) == 1, kind == 'equal', 'set of versions')
    agree({a: 1}.get(b) == 1, kind == 'equal', 'lookup of a version')
    agree(max(a, b) == a, kind != 'less', 'maximum')
    # strings and tuples
    tp = b.t
    agree(a == tp, kind == 'equal', 'equality with a tuple')
    agree(tp == a, kind == 'equal', 'equality with a tuple')
    agree(a == str(b), kind == 'equal', 'equality with a text')
    agree(a != str(b), kind != 'equal', 'equality with a text')
    env.reach(kind)


def texts(env, clsname, lengths, keep=None):
    """Text form, and back"""
    c = cls(env, clsname)
    form = env.choose('form', ('text', 'tuple'))
    nums = [number(env, f'v{i}', n) for i, n in enumerate(lengths)]
    t = tuple(value(n) for n in nums)
    r = env.call(c, '.'.join(nums) if form == 'text' else t)
    env.check(r.ok, 'version is accepted')
    v = r.value
    exp = '.'.join(nums[:keep])
    env.check(env.eq(str(v), exp), 'text of the version')
    env.check(env.eq(f'{v}', exp), 'formatted version')
    env.check(env.eq(repr(v), f"{clsname}('" + exp + "')"), 'representation')
    env.check(v == exp and v == t[:keep] and not v != exp, 'equal to its text and tuple')
    r = env.call(c, str(v))
    env.check(r.ok and r.value == v and hash(r.value) == hash(v) and not r.value < v and not r.value > v, 'version of its text')
    for other in (None, 3, 1.5, [], b'1.2', object()):
        env.check(not (v == other) and v != other, 'differs from other objects')
    env.check(not v == '' and not v == () and not v == exp + '.' and not v == exp + '.1', 'differs from other texts')
    if clsname == 'PatchVersion':
        env.check(v.as_int() == t[0] * 100 + t[1], 'integer form')
    env.reach('done')


def classes(env):
    """Versions of different classes"""
    n = env.choose('n', (2, 4))
    names = ('BaseVersion', 'PatchVersion') if n == 2 else ('BaseVersion', 'RadsVersion')
    (a, ta), (b, tb) = make(env, 'a', cls(env, names[0]), 'tuple', [2] * n), make(env, 'b', cls(env, names[1]), 'text', [2] * n)
    env.check(a.ok and b.ok, 'version is accepted')
    eq = same(env, ta, tb)
    env.check((a.value == b.value) == (True if eq else False) and (b.value == a.value) == (True if eq else False), 'equality between classes')
    if eq:
        env.check(hash(a.value) == hash(b.value), 'hash between classes')
    env.check((a.value < b.value) == (True if less(env, ta, tb) else False), 'order between classes')
    env.reach('equal' if eq else 'different')


def ints(env, lengths):
    """The integer form is increasing"""
    c = cls(env, 'PatchVersion')
    (a, ta), (b, tb) = [make(env, n, c, env.choose('form ' + n, ('text', 'tuple')), lengths) for n in 'ab']
    env.assume(env.all([ta[1] < 100, tb[1] < 100]))
    a, b = a.value, b.value
    if a < b:
        env.check(a.as_int() < b.as_int(), 'order of integers')
        env.reach('less')
    elif a == b:
        env.check(a.as_int() == b.as_int(), 'equal integers')
        env.reach('equal')
    else:
        env.check(a.as_int() > b.as_int(), 'order of integers')
    env.assume(ta[0] < 99)
    env.check(a.as_int() < c('main').as_int(), 'main is the highest')


def triple(env, lengths):
    c = cls(env, 'PatchVersion')
    vs = [make(env, n, c, 'text', l) for n, l in zip('abc', lengths)]
    s = sorted(v.value for v, _ in vs)
    ts = [t for _, t in vs]
    for x, y in zip(s, s[1:]):
        env.check(not less(env, y.t, x.t), 'sorted versions')
    for t in ts:
        env.check(env.any([same(env, t, x.t) for x in s]), 'no version is lost')
    env.check(max(v.value for v, _ in vs) == s[-1] and min(v.value for v, _ in vs) == s[0], 'extremes')
    env.reach('done')


def main_version(env):
    c = cls(env, 'PatchVersion')
    m = c('main')
    env.check(m == c('main') and not m != c('main') and hash(m) == hash(c('main')) and m == 'main' and str(m) == 'main', 'main equals main')
    env.check(m <= c('main') and m >= c('main') and not m < c('main') and not m > c('main'), 'order of main')
    a, _ = make(env, 'a', c, env.choose('form', ('text', 'tuple')), (1, 2))
    env.check(not a.value == m and not m == a.value and a.value != m and m != a.value, 'main differs from other versions')
    env.check(not a.value == 'main' and len({m, a.value}) == 2, 'main differs from other versions')
    env.check(not m == '1.2' and not m == (1, 2) and not m == '', 'main differs from other versions')
    r = env.call(lambda: a.value < m)
    env.check(not r.ok, 'main has no order')
    env.reach('done')


def valid(env, text, least):
    """Whether a text is dot-separated numbers (no sign, underscore or space: these are not decided)"""
    parts, cur = [], 0
    for i in range(len(text)):
        if text[i] == '.':
            parts.append(cur)
            cur = 0
        else:
            cur += 1
    parts.append(cur)
    return all(p > 0 for p in parts) and len(parts) >= least


def malformed(env, clsname, n, least, alphabet):
    c = cls(env, clsname)
    s = env.str('v', n, alphabet)
    digits = True
    for i in range(n):
        if s[i] != '.' and not s[i] in DIGITS:
            digits = False
    r = env.call(c, s)
    ok = digits and valid(env, s, least) and (clsname != 'RadsVersion' or n == 7)
    if ok:
        env.check(r.ok, 'version is accepted')
        env.reach('valid')
    else:
        env.check(not r.ok, 'malformed version is rejected')
        env.check(env.eq(r.exc_name in ('ValueError', 'AssertionError', 'TypeError'), True), 'error of a malformed version')
        env.reach('malformed')


def wrong(env, clsname):
    c = cls(env, clsname)
    v = env.choose('v', ('', (), None, 0, 3, 1.5, [1, 2, 3, 4], {'1.2'}, (1,), '1', 'Main', 'main.', 'latest', '1.main', '1.2.3.x', '1.2.3.4.5', (1, 2, 3, 4, 5), (1, 2, 3, 'x')))
    r = env.call(c, v)
    n = len(v) if isinstance(v, tuple) else len(v.split('.')) if isinstance(v, str) and v else 0
    good = n and all(str(x).isdigit() for x in (v if isinstance(v, tuple) else v.split('.')))
    good = good and {'BaseVersion': n >= 1, 'PatchVersion': n >= 2, 'RadsVersion': n == 4}[clsname]
    env.check(r.ok == bool(good), 'only versions are accepted')
    env.reach('accepted' if good else 'rejected')


ALL = ['less', 'greater', 'equal']
TT, XX, TX, XT = ('tuple', 'tuple'), ('text', 'text'), ('tuple', 'text'), ('text', 'tuple')
CASES = [
    Case('patch texts', 'pair', clsname='PatchVersion', forms=XX, la=(2, 2), lb=(2, 2), reach=ALL),
    Case('patch texts, lengths', 'pair', clsname='PatchVersion', forms=XX, la=(1, 1), lb=(1, 2), reach=['less', 'greater']),
    Case('patch texts, long', 'pair', clsname='PatchVersion', forms=XX, la=(2, 3), lb=(2, 3), quick=False, reach=ALL),
    Case('patch tuples', 'pair', clsname='PatchVersion', forms=TT, la=(0, 3), lb=(2, 0), reach=ALL),
    Case('patch 3', 'pair', clsname='PatchVersion', forms=XX, la=(1, 1, 1), lb=(1, 1, 1), keep=2, reach=ALL),
    Case('patch 3 tuples', 'pair', clsname='PatchVersion', forms=TT, la=(2, 0, 1), lb=(2, 2), keep=2, reach=ALL),
    Case('patch 4 and 2', 'pair', clsname='PatchVersion', forms=XT, la=(1, 2, 1, 1), lb=(1, 2), keep=2, reach=ALL),
    Case('base tuples', 'pair', clsname='BaseVersion', forms=TT, la=(0,), lb=(0,), reach=ALL),
    Case('base lengths', 'pair', clsname='BaseVersion', forms=TX, la=(1, 1), lb=(1, 1, 1), reach=['less', 'greater']),
    Case('base texts', 'pair', clsname='BaseVersion', forms=XX, la=(1, 1, 1), lb=(1, 1, 1), reach=ALL),
    Case('rads texts', 'pair', clsname='RadsVersion', forms=XX, la=(1, 1, 1, 2), lb=(1, 1, 1, 2), reach=ALL),
    Case('rads tuples', 'pair', clsname='RadsVersion', forms=TT, la=(1, 1, 2, 3), lb=(1, 1, 2, 3), reach=ALL),
    Case('rads tuples 2', 'pair', clsname='RadsVersion', forms=TX, la=(1, 1, 1, 2), lb=(1, 1, 1, 2), reach=ALL),
    Case('rads lengths', 'pair', clsname='RadsVersion', forms=XX, la=(1, 1, 1, 1), lb=(1, 1, 1, 3), reach=['less']),
    Case('text of patch', 'texts', clsname='PatchVersion', lengths=(2, 2), keep=2, reach=['done']),
    Case('text of patch 1', 'texts', clsname='PatchVersion', lengths=(1, 1, 3), keep=2, reach=['done']),
    Case('text of base', 'texts', clsname='BaseVersion', lengths=(1, 2, 1), reach=['done']),
    Case('text of rads', 'texts', clsname='RadsVersion', lengths=(1, 1, 1, 3), reach=['done']),
    Case('classes', 'classes', reach=['equal', 'different']),
    Case('integers', 'ints', lengths=(1, 2), reach=['less', 'equal']),
    Case('triple', 'triple', lengths=((1, 1), (1, 1), (1, 2)), reach=['done']),
    Case('triple 2', 'triple', lengths=((1, 2), (1, 2), (1, 2)), quick=False, reach=['done']),
    Case('main', 'main_version', reach=['done']),
    Case('malformed patch', 'malformed', clsname='PatchVersion', n=4, least=2, alphabet='0129.ax', reach=['valid', 'malformed']),
    Case('malformed base', 'malformed', clsname='BaseVersion', n=3, least=1, alphabet='09.ax', reach=['valid', 'malformed']),
    Case('malformed rads', 'malformed', clsname='RadsVersion', n=6, least=4, alphabet='3.', reach=['malformed']),
    Case('wrong', 'wrong', clsname='PatchVersion', reach=['accepted', 'rejected']),
    Case('wrong base', 'wrong', clsname='BaseVersion', reach=['accepted', 'rejected']),
    Case('wrong rads', 'wrong', clsname='RadsVersion', reach=['rejected']),
]
