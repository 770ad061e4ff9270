"""Atlas and champion skin tables"""
import io
from symx.runner import Case
from harness.util import LOWER, le
from harness.bintree import same_float

META = {
    'bounds': 'up to 2 atlases and 3 textures, with any coordinates (all bit patterns), any references to the atlases, texts of up to 6 characters of any letter, digit, separator or non-ASCII character, with each extension (`.tga` excepted); any hashes, known or not; '
              'up to 2 champions with up to 2 skins, any identifiers and flags; every truncation of such tables; any magic code and version',
    'outside': 'tables with repeated names or identifiers; more rows',
    'assumptions': [],
}
EXTS = {'.dds': '.png', '.tex': '.png', '.png': '.png', '.bin': '.bin', '': '', '.DDS': '.png', '.Tex': '.png', '.jpg': '.jpg'}
CHARS = 'abXYZ09_é'


def u(v, n):
    return v.to_bytes(n, 'little')


def text(env, s):
    raw = s.encode('utf-8')
    return u(len(raw), 4) + raw


def atlas_path(env, tag, exts, chars=CHARS):
    base = 'ASSETS/' + env.str(f'{tag} path', 2, chars)
    ext = env.choose(f'{tag} ext', exts)
    return base + ext, base.lower() + EXTS[ext]


def check_entry(env, got, path, coords):
    env.check(env.eq(got['atlasPath'], path), 'atlas of the texture')
    env.check(len(got) == 5, 'nothing else')
    import struct
    for k, c in zip(('startX', 'startY', 'endX', 'endY'), struct.unpack('<ffff', coords)):
        env.check(same_float(env, got[k], c), 'coordinates')


def strings(env, natlas, ntex, exts, truncate=False, chars=CHARS):
    """Table of texts"""
    m = env.load('cdtb.export')
    atlases = [atlas_path(env, f'atlas{i}', exts, chars) for i in range(natlas)]
    data = le(natlas, 4)
    for raw, _ in atlases:
        data += text(env, raw)
    data += le(ntex, 4)
    rows = []
    for i in range(ntex):
        name = env.str(f'texture{i}', env.choose(f'length{i}', (1, 2) if chars is CHARS else (1,)), chars + '/.') + env.choose(f'texture ext{i}', ('', '.dds'))
        for n, *_ in rows:
            env.assume(n != name)
        coords = env.bytes(f'coords{i}', 16)
        k = env.choose(f'atlas of {i}', range(natlas))
        data += text(env, name) + coords + le(k, 4)
        rows.append((name, coords, k))
    check_table(env, m.AtlasInfoConverter.parse_atlasinfo, data, truncate, [(n, atlases[k][1], c) for n, c, k in rows])


def check_table(env, parse, data, truncate, rows):
    if truncate:
        cut = env.choose('cut', range(len(data)))
        r = env.call(parse, io.BytesIO(data[:cut]))
        env.check(not r.ok, 'truncated table is rejected')
        env.reach('truncated')
        return
    r = env.call(parse, io.BytesIO(data))
    env.check(r.ok, 'table is read')
    env.check(len(r.value) == len(rows), 'textures')
    for (n, path, coords), (got, entry) in zip(rows, r.value.items()):
        env.check(env.eq(got, n), 'name and order of textures')
        check_entry(env, entry, path, coords)
    env.reach('read')


def hashed(env, natlas, ntex, exts, truncate=False):
    """Table of hashes"""
    m = env.load('cdtb.export')
    hashes = {}
    known = []

    def entry(tag, path):
        h = env.uint(tag, 64)
        for o in known:
            env.assume(o != h)
        known.append(h)
        if path is not None:
            hashes[h] = path
        return h
    atlases = []
    for i in range(natlas):
        if env.flag(f'atlas{i} is known'):
            raw, exp = atlas_path(env, f'atlas{i}', exts)
            h = entry(f'atlas{i}', raw)
        else:
            h = entry(f'atlas{i}', None)
            exp = '{' + f'{h:016x}' + '}'
        atlases.append((h, exp))
    data = b'IMAA' + le(natlas, 4)
    for h, _ in atlases:
        data += u(h, 8)
    data += le(ntex, 4)
    rows = []
    for i in range(ntex):
        name = None
        if env.flag(f'texture{i} is known'):
            name = 'ASSETS/Tex' + str(i) + env.str(f'texture{i} name', 1, CHARS) + '.dds'
        h = entry(f'texture{i}', name)
        coords = env.bytes(f'coords{i}', 16)
        k = env.choose(f'atlas of {i}', range(natlas))
        data += u(h, 8) + coords + le(k, 4)
        rows.append((name or '{' + f'{h:016x}' + '}', atlases[k][1], coords))
    env.load('cdtb.hashes').hashfile_game.hashes = hashes
    check_table(env, m.AtlasInfoConverter.parse_atlasinfo, data, truncate, rows)


def bad_reference(env):
    """Textures of an atlas which does not exist"""
    m = env.load('cdtb.export')
    env.load('cdtb.hashes').hashfile_game.hashes = {}
    k = env.uint('atlas', 32)
    n = env.choose('atlases', (0, 1, 2))
    env.assume(k >= n)
    if env.flag('hashed'):
        data = b'IMAA' + le(n, 4) + bytes(8 * n) + le(1, 4) + env.bytes('texture', 8) + bytes(16) + u(k, 4)
    else:
        data = le(n, 4) + (le(1, 4) + b'a') * n + le(1, 4) + le(1, 4) + env.bytes('texture', 1) + bytes(16) + u(k, 4)
    r = env.call(m.AtlasInfoConverter.parse_atlasinfo, io.BytesIO(data))
    env.check(not r.ok, 'wrong reference is rejected')
    env.reach('rejected')


def skins(env, counts, truncate=False):
    m = env.load('cdtb.export')
    data = b'mahC' + le(2, 4) + le(len(counts), 4)
    exp = []
    for i, n in enumerate(counts):
        name = env.str(f'champion{i}', 1 + i % 2, CHARS + " '")
        for o, _ in exp:
            env.assume(o != name)
        data += text(env, name) + le(n, 4)
        rows = []
        for j in range(n):
            sid = env.uint(f'skin{i}.{j}', 32)
            for o, *_ in rows:
                env.assume(o != sid)
            flag = env.uint(f'flag{i}.{j}', 8)
            sname = env.str(f'name{i}.{j}', env.choose(f'length{i}.{j}', (0, 2)) if not truncate else 1, CHARS + ' ')
            data += u(sid, 4) + u(flag, 1) + text(env, sname)
            rows.append((sid, flag, sname))
        exp.append((name, rows))
    parse = m.ChampionSkinInfoConverter.parse_championskininfo
    if truncate:
        cut = env.choose('cut', range(len(data)))
        r = env.call(parse, io.BytesIO(data[:cut]))
        env.check(not r.ok, 'truncated table is rejected')
        env.reach('truncated')
        return
    r = env.call(parse, io.BytesIO(data))
    env.check(r.ok, 'table is read')
    env.check(len(r.value) == len(exp), 'champions')
    for (name, rows), (got, entry) in zip(exp, r.value.items()):
        env.check(env.eq(got, name), 'name of the champion')
        env.check(len(entry) == len(rows), 'skins of the champion')
        for (sid, flag, sname), (k, s) in zip(rows, entry.items()):
            env.check(env.eq(k, sid), 'identifier of the skin')
            env.check(env.eq(s['name'], sname), 'name of the skin')
            p = s['prestige']
            env.check((p is True or p is False) if not env.symbolic else True, 'prestige is a boolean')
            env.check(p == (flag == 4), 'prestige skin')
            env.check(len(s) == 2, 'nothing else')
    env.reach('read')


def skins_magic(env):
    m = env.load('cdtb.export')
    magic = env.bytes('magic', 4)
    version = env.uint('version', 32)
    r = env.call(m.ChampionSkinInfoConverter.parse_championskininfo, io.BytesIO(magic + u(version, 4) + le(0, 4)))
    if env.eq(magic, b'mahC') and version == 2:
        env.check(r.ok and len(r.value) == 0, 'empty table')
        env.reach('empty')
    else:
        env.check(not r.ok and r.exc_name == 'ValueError', 'wrong magic code or version is rejected')
        env.reach('rejected')


def exported(env, kinds):
    """Exported form of paths"""
    t = env.load('cdtb.tools')
    k = env.choose('kind', kinds)
    base = env.str('path', 3, 'abXY./_é')
    env.assume(base[-1:] != '/' and base[-1:] != '.')
    ext = {'dds': '.dds', 'DDS': '.DdS', 'tex': '.tex', 'TEX': '.TEX', 'png': '.PNG', 'bin': '.bin', 'mid': '.dds.bin', 'dir': '.dds/x', 'none': ''}[k]
    r = env.call(t.convert_cdragon_path, base + ext)
    env.check(r.ok, 'converted')
    exp = {'.dds': '.png', '.tex': '.png', '.DdS': '.png', '.TEX': '.png'}.get(ext, ext.lower())
    env.check(env.eq(r.value, base.lower() + exp), 'lowercase, with the extension of exported files')
    env.reach(k)


CASES = [
    Case('texts', 'strings', natlas=1, ntex=1, exts=('.dds', '.tex', '.png', '', '.DDS'), reach=['read']),
    Case('texts of 2 atlases', 'strings', natlas=2, ntex=2, exts=('.tex',), chars='xy', reach=['read']),
    Case('truncated texts', 'strings', natlas=1, ntex=1, exts=('.tex',), chars='xy', truncate=True, reach=['truncated']),
    Case('hashes', 'hashed', natlas=1, ntex=2, exts=('.tex',), reach=['read']),
    Case('hashes of 2 atlases', 'hashed', natlas=2, ntex=1, exts=('.dds',), reach=['read']),
    Case('truncated hashes', 'hashed', natlas=1, ntex=1, exts=('.tex',), truncate=True, reach=['truncated']),
    Case('no texture', 'strings', natlas=1, ntex=0, exts=('.tex',), reach=['read']),
    Case('larger tables of hashes', 'hashed', natlas=2, ntex=3, exts=('.tex',), quick=False, reach=['read']),
    Case('larger tables of texts', 'strings', natlas=2, ntex=3, exts=('.dds',), chars='xy', quick=False, reach=['read']),
    Case('wrong references', 'bad_reference', reach=['rejected']),
    Case('skins', 'skins', counts=(2, 1), reach=['read']),
    Case('champion without skin', 'skins', counts=(0, 1), reach=['read']),
    Case('truncated skins', 'skins', counts=(1,), truncate=True, reach=['truncated']),
    Case('more skins', 'skins', counts=(2, 2), quick=False, reach=['read']),
    Case('magic code of skins', 'skins_magic', reach=['empty', 'rejected']),
    Case('exported paths', 'exported', kinds=('dds', 'DDS', 'tex', 'TEX', 'png', 'bin', 'mid', 'dir', 'none'), reach=['dds', 'DDS', 'tex', 'TEX', 'png', 'bin', 'mid', 'dir', 'none']),
]
