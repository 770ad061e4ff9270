"""Reduction of common paths to directories"""
from symx.runner import Case

META = {
    'bounds': 'up to 4 common files, 2 other files of the previous patch and 2 files to extract (up to 6 files in all in the quick tier), of up to 4 path components, each with any name among 2 to 3 letters (and a longer one, so that names can be prefixes of each other)',
    'outside': 'a path which is both a file and a directory in the same patch',
    'assumptions': ['common files exist in the previous patch and are not extracted, as ensured by the callers'],
}


def component(env, names):
    n = env.str('part', 1, 'abc' if names == 'three' else 'ab')
    if names == 'prefix' and env.flag('longer'):
        n += 'b'
    elif names == 'dot' and env.flag('ext'):
        n += '.a'
    return n


def under(env, p, d):
    """Whether a path is a file or directory, or lies below it"""
    if len(p) < len(d):
        return False
    if len(p) == len(d):
        return env.eq(p, d)
    return env.eq(p[:len(d) + 1], d + '/')


def reduced(env, common, previous, changed, names='one', shared=None):
    """Arguments: depth of each path"""
    m = env.load('cdtb.export')
    def path(depth):
        parts = [component(env, names) for _ in range(depth)]
        return ('' if shared is None else shared + '/') + '/'.join(parts)
    p1 = [path(d) for d in common]
    extra = [path(d) for d in previous]
    excl = [path(d) for d in changed]
    # all files of the previous patch; no path is both a file and a directory, in each patch
    for group in (p1 + extra, p1 + excl):
        for i in range(len(group)):
            for j in range(len(group)):
                if i != j:
                    env.assume(not under(env, group[i], group[j]))
    kind = env.choose('collections', ('lists', 'sets'))
    a, b, c = (list(p1), extra + p1, list(excl)) if kind == 'lists' else (set(p1), set(p1 + extra), set(excl))
    r = env.call(m.reduce_common_paths, a, b, c)
    env.check(r.ok, 'paths are reduced')
    got = list(r.value)
    for p in p1:
        covers = [g for g in got if under(env, p, g)]
        env.check(len(covers) >= 1, 'common files are covered')
        env.check(len(covers) <= 1, 'common files are covered once')
    for g in got:
        for p in extra:
            env.check(not under(env, p, g), 'files which are not common are not covered')
        for p in excl:
            env.check(not under(env, p, g), 'files which are extracted are not covered')
            # a link cannot be below an extracted file either
        env.check(env.any([under(env, p, g) for p in p1]), 'reduced paths cover something')
        # directories are the largest ones
        parts = g.rsplit('/', 1)
        if len(parts) == 2:
            env.check(env.any([under(env, p, parts[0]) for p in extra + excl]), 'reduced directories are the largest ones')
    for i in range(len(got)):
        for j in range(len(got)):
            if i != j:
                env.check(not under(env, got[i], got[j]), 'reduced paths are apart')
    env.check(set(a) == set(p1) and set(b) == set(p1 + extra) and set(c) == set(excl), 'arguments are kept')
    whole = [g for g in got if any(len(g) == len(p) and env.eq(g, p) for p in p1)]
    if whole:
        env.reach('files')
    if len(whole) < len(got):
        env.reach('directories')
    if not got:
        env.reach('nothing')


CASES = [
    Case('common only', 'reduced', common=(1, 2, 3), previous=(), changed=(), reach=['directories', 'files']),
    Case('nothing in common', 'reduced', common=(), previous=(1, 2), changed=(2, 1), reach=['nothing']),
    Case('all other', 'reduced', common=(3, 3), previous=(2,), changed=(3,), reach=['directories', 'files']),
    Case('names which are prefixes', 'reduced', common=(2, 2), previous=(2,), changed=(), names='prefix', reach=['directories', 'files']),
    Case('names with extensions', 'reduced', common=(2, 2), previous=(2,), changed=(1,), names='dot', reach=['directories', 'files']),
    Case('files in a shared directory', 'reduced', common=(1, 2), previous=(2,), changed=(2,), names='three', shared='d', reach=['directories', 'files']),
    Case('names which are prefixes, extracted files', 'reduced', common=(2, 1), previous=(), changed=(2,), names='prefix', reach=['directories', 'files']),
    Case('three common files', 'reduced', common=(2, 2, 3), previous=(2,), changed=(2,), names='three', quick=False, reach=['directories', 'files']),
    Case('common files and others', 'reduced', common=(2, 2, 3), previous=(3,), changed=(3,), reach=['directories', 'files']),
    Case('deep', 'reduced', common=(4,), previous=(3,), changed=(4,), reach=['directories', 'files']),
    Case('four common files', 'reduced', common=(1, 2, 2, 3), previous=(2,), changed=(2,), names='three', quick=False, reach=['directories', 'files']),
    Case('two other files', 'reduced', common=(2, 3), previous=(2, 3), changed=(2, 3), quick=False, reach=['directories', 'files']),
    Case('deep, more files', 'reduced', common=(4, 4), previous=(4,), changed=(3,), quick=False, reach=['directories', 'files']),
    Case('prefixes, more files', 'reduced', common=(2, 2, 2), previous=(2,), changed=(2,), names='prefix', quick=False, reach=['directories', 'files']),
]
