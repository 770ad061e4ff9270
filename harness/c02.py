"""Content of WAD entries"""
from symx.runner import Case
from harness.util import wad_header, wad_entry, le

META = {
    'bounds': 'files with up to 4 entries; entry offsets and sizes are any 32-bit values, the file any length up to 4 GB; up to 3 subchunks (quick), 4 (thorough), or up to 15 of one byte in a table of up to 300; '
              'all subchunk sizes, checksums and indices within the table',
    'outside': 'directories beyond 4 entries; subchunk ranges outside of the subchunk table; offsets inside of the header',
    'assumptions': ['gzip, zstd and xxh3 are uninterpreted functions of their input (zstd may also fail)', 'offsets lie after the directory'],
}

BIG = (1 << 32) - 1


def plain(env, types, fails):
    """Entries which are not split, any offset and size"""
    wad = env.load('cdtb.wad')
    env.libs['zstd_fails'] = fails
    env.libs['gzip_fails'] = fails
    minor = env.choose('minor', (0, 4))
    t = env.choose('type', types)
    hi = env.uint('subchunks', 4)
    off = env.uint('offset', 32)
    csize = env.uint('csize', 32)
    size = env.uint('size', 32)
    h = env.uint('hash', 64)
    head = wad_header(minor, 1) + wad_entry(h, off, csize, size, t + hi * 16, env.uint('index', 16), env.uint('sum', 64), minor)
    env.assume(off >= len(head))
    body = env.buf('body', BIG)
    data = head + body
    env.fs.put('/work/a.wad', data)
    w = env.call(wad.Wad, '/work/a.wad', {})
    env.check(w.ok, 'opens')
    w = w.value
    stored = data[off:off + csize]
    with open('/work/a.wad', 'rb') as f:
        got = env.call(w.read_file_data, f, w.files[0])
    if t == 0:
        env.check(got.ok, 'raw entry is readable')
        env.check(env.eq(got.value, stored), 'content of raw entry')
        env.reach('raw')
    elif t in (1, 3):
        exp = env.call(env.decompress, 'gzip' if t == 1 else 'zstd', stored)
        env.check(got.ok == exp.ok, 'compressed entry is readable when its data is valid')
        if exp.ok:
            env.check(env.eq(got.value, exp.value), 'content of compressed entry')
            env.reach('compressed')
        else:
            env.reach('corrupt')
    elif t == 4:
        # no subchunk table: a single frame, or unreadable
        exp = env.call(env.decompress, 'zstd', stored)
        env.check(got.ok, 'entry without table does not fail')
        if exp.ok:
            env.check(env.eq(got.value, exp.value), 'content of entry without table')
            env.reach('compressed')
        else:
            env.check(got.value is None, 'unreadable entry has no content')
            env.reach('corrupt')
    else:
        env.check(not got.ok, 'unknown storage type is an error')
        env.check(got.exc_name == 'ValueError', 'unknown storage type is a ValueError')
        env.reach('unknown type')


def redirection(env, n):
    wad = env.load('cdtb.wad')
    minor = env.choose('minor', (0, 4))
    target = env.bytes('target', n, 0, 127)
    data = wad_header(minor, 2)
    start = len(data) + 64
    data += wad_entry(env.uint('hash', 64), start, 4 + n, n, 2, 0, 0, minor)
    data += wad_entry(7, start + 4 + n, 3, 3, 0, 0, 0, minor)
    data += le(n, 4) + target + b'abc'
    env.fs.put('/work/a.wad', data)
    w = wad.Wad('/work/a.wad', {7: 'b.txt'})
    with open('/work/a.wad', 'rb') as f:
        got = env.call(w.read_file_data, f, w.files[0])
        env.check(got.ok and got.value is None, 'redirection has no content')
    env.assume(w.files[0].path_hash != 7)
    w.extract('/out')
    env.check(env.eq(env.fs.files('/out'), ['b.txt']), 'redirection is not extracted')
    env.reach('done')


def expected_subchunks(env, stored, table, first, count):
    """None if the data does not match the table, else the content"""
    pos = 0
    parts = []
    for i in range(first, first + count):
        cs, us, h = table[i]
        sub = stored[pos:pos + cs]
        if len(stored) < pos + cs or env.hashed('xxh3_64', sub, 64) != h:
            return None
        parts.append(sub if cs == us else env.decompress('zstd', sub))
        pos = pos + cs
    out = b''
    for p in parts:
        out = out + p
    return out


def subchunks(env, ntable, count, first, toctype, order, extract):
    """Split entries with their table"""
    wad = env.load('cdtb.wad')
    minor = 4
    table = []
    toc = b''
    for i in range(ntable):
        cs, us, h = env.uint(f'cs{i}', 32), env.uint(f'us{i}', 32), env.uint(f'sum{i}', 64)
        table.append((cs, us, h))
        toc += le(cs, 4) + le(us, 4) + le(h, 8)
    off = env.uint('offset', 32)
    csize = env.uint('csize', 32)
    names = {1: 'data/x.subchunktoc', 2: 'data/a.bin', 3: 'b.bin'}
    head = wad_header(minor, 3)
    start = len(head) + 96
    tocdata = toc
    if toctype == 3:
        tocdata = env.bytes('toc', 5)
    body = env.buf('body', BIG)
    first_value = first
    ents = {
        1: wad_entry(1, start, len(tocdata), len(toc), toctype, 0, 0),
        2: wad_entry(2, off, csize, 0, 4 + 16 * count, first_value, 0),
        3: wad_entry(3, start + len(tocdata), 10, 10, 0, 0, 0),
    }
    for k in order:
        head += ents[k]
    data = head + tocdata + body
    env.assume(off >= start + len(tocdata))
    env.fs.put('/work/a.wad', data)
    if toctype == 3:
        # the table is stored compressed: state what it decompresses to
        env.assume_eq(env.decompress('zstd', tocdata), toc)
    w = env.call(wad.Wad, '/work/a.wad', names)
    env.check(w.ok, 'opens')
    w = w.value
    stored = data[off:off + csize]
    exp = expected_subchunks(env, stored, table, first, count)
    if extract:
        r = env.call(w.extract, '/out')
        env.check(r.ok, 'extraction succeeds')
        env.check(env.eq(env.fs.content('/out/b.bin'), data[start + len(tocdata):start + len(tocdata) + 10]), 'other entries are extracted')
        env.check(env.eq(env.fs.content('/out/data/x.subchunktoc'), tocdata if toctype == 0 else toc), 'table is extracted')
        got = env.fs.content('/out/data/a.bin')
        files = sorted(env.fs.files('/out'))
        env.check(env.eq(files, (['b.bin'] + ([] if exp is None else ['data/a.bin']) + ['data/x.subchunktoc'])), 'set of extracted files')
    else:
        with open('/work/a.wad', 'rb') as f:
            r = env.call(w.read_file_data, f, [x for x in w.files if x.path == 'data/a.bin'][0])
        env.check(r.ok, 'reading does not fail')
        got = r.value
    if exp is None:
        env.check(got is None, 'an entry which does not match the table has no content')
        env.reach('malformed')
    else:
        env.check(got is not None, 'a matching entry is readable')
        env.check(env.eq(got, exp), 'content is the concatenation of the subchunks')
        env.reach('valid')


def toc_choice(env, names, expect):
    """The table is the first entry with the right suffix, if any"""
    wad = env.load('cdtb.wad')
    data = wad_header(4, len(names))
    start = len(data) + 32 * len(names)
    body = b''
    table = {}
    cont = []
    for i, n in enumerate(names):
        c = env.bytes(f'c{i}', 16)
        cont.append(c)
        data += wad_entry(i + 1, start + 16 * i, 16, 16, 0)
        if n is not None:
            table[i + 1] = n
        body += c
    env.fs.put('/work/a.wad', data + body)
    w = wad.Wad('/work/a.wad', table)
    if expect is None:
        env.check(w.subchunk_toc is None, 'no table')
    else:
        env.check(w.subchunk_toc is not None and env.eq(w.subchunk_toc, cont[expect]), 'table content')
    env.reach('done')


def many(env, sizes, order):
    """Many subchunks"""
    wad = env.load('cdtb.wad')
    ntable, first, count = env.choose('table, first and count', sizes)
    head = wad_header(4, 2)
    start = len(head) + 64
    table, toc, stored = [], b'', b''
    for i in range(ntable):
        sub = env.bytes(f'sub{i}', 1) if i in (first, first + count - 1) else bytes([i % 256])
        table.append(sub)
        toc += le(1, 4) + le(1, 4) + le(env.hashed('xxh3_64', sub, 64), 8)
        if first <= i < first + count:
            stored += sub
    ents = {1: wad_entry(1, start, len(toc), len(toc), 0, 0, 0), 2: wad_entry(2, start + len(toc), len(stored), len(stored), 4 + 16 * count, first, 0)}
    for k in order:
        head += ents[k]
    env.fs.put('/work/a.wad', head + toc + stored)
    w = wad.Wad('/work/a.wad', {1: 'data/x.subchunktoc', 2: 'a.bin'})
    with open('/work/a.wad', 'rb') as f:
        r = env.call(w.read_file_data, f, [x for x in w.files if x.path == 'a.bin'][0])
    env.check(r.ok and r.value is not None, 'a matching entry is readable')
    env.check(env.eq(r.value, stored), 'content is the concatenation of the subchunks')
    env.reach('done')


CASES = [
    Case('many subchunks', 'many', sizes=((7, 0, 7), (8, 0, 8), (20, 3, 9), (20, 5, 15), (300, 255, 2), (300, 256, 15), (300, 0, 1), (300, 285, 15)), order=(2, 1), reach=['done']),
    Case('raw', 'plain', types=(0,), fails=False, reach=['raw']),
    Case('compressed', 'plain', types=(1, 3, 4), fails=True, reach=['compressed', 'corrupt']),
    Case('unknown types', 'plain', types=tuple(range(5, 16)), fails=False, reach=['unknown type']),
    Case('redirection', 'redirection', n=3, reach=['done']),
    Case('redirection empty', 'redirection', n=0, reach=['done']),
]
for nt, c, f in ((1, 1, 0), (2, 1, 1), (3, 2, 1), (3, 3, 0)):
    CASES.append(Case(f'subchunks {c} of {nt} from {f}', 'subchunks', quick=c < 3, ntable=nt, count=c, first=f, toctype=0, order=(1, 2, 3), extract=False, reach=['valid', 'malformed']))
CASES += [
    Case('subchunks none', 'subchunks', ntable=1, count=0, first=0, toctype=0, order=(1, 2, 3), extract=False, reach=['valid']),
    Case('subchunks extract', 'subchunks', ntable=2, count=2, first=0, toctype=0, order=(2, 1, 3), extract=True, reach=['valid', 'malformed']),
    Case('subchunks extract, compressed table', 'subchunks', ntable=2, count=1, first=1, toctype=3, order=(3, 2, 1), extract=True, reach=['valid', 'malformed']),
    Case('subchunks 4', 'subchunks', quick=False, ntable=5, count=4, first=1, toctype=0, order=(1, 2, 3), extract=False, reach=['valid', 'malformed']),
    Case('table choice', 'toc_choice', names=['a.bin', None, 'b.wad.subchunktoc', 'c.subchunktoc'], expect=2, reach=['done']),
    Case('no table', 'toc_choice', names=['a.subchunktoc.bin', None, 'subchunktoc'], expect=None, reach=['done']),
]
