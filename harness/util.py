"""Shared pieces of the harnesses (runs symbolically and concretely)"""


def le(v, n):
    return v.to_bytes(n, 'little')


def wad_header(minor, nfiles):
    """Start of a version 3 WAD file"""
    return bytes([82, 87, 3, minor]) + bytes(264) + le(nfiles, 4)


def wad_entry(hash, offset, csize, size, type, index=0, checksum=0, minor=4):
    if minor >= 4:
        idx = bytes_of(index >> 16, 1) + bytes_of(index & 0xffff, 2)
    else:
        idx = bytes(1) + bytes_of(index, 2)
    return (bytes_of(hash, 8) + bytes_of(offset, 4) + bytes_of(csize, 4) + bytes_of(size, 4) + bytes_of(type, 1)
            + idx + bytes_of(checksum, 8))


def bytes_of(v, n):
    return v.to_bytes(n, 'little')


LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGITS = '0123456789'


def wild(env, name, shape, alphabet):
    """Text of a shape in which each question mark is any character of an alphabet"""
    out = ''
    for i, c in enumerate(shape):
        if c == '?':
            c = env.str(f"{name}[{i}]", 1, alphabet)
            if '/' in alphabet and c == '/':
                c = '/'
        out = out + c
    return out


def same_texts(env, texts, required, allowed, what, exact=True):
    """All required texts are there, and only required or allowed ones"""
    have = {env.key(t): t for t in texts}
    want = {env.key(t): t for t in required}
    may = dict(want)
    for t in allowed:
        may[env.key(t)] = t
    for k, t in want.items():
        if k not in have:
            env.check(env.any([x == t for x in have.values() if len(x) == len(t)]), what + ' are all tried')
    env.check(True, what + ' are all tried')
    if exact:
        for k, t in have.items():
            if k not in may:
                env.check(env.any([x == t for x in may.values() if len(x) == len(t)]), 'only ' + what + ' are tried')
        env.check(True, 'only ' + what + ' are tried')
