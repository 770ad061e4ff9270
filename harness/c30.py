"""Exported paths"""
from symx.runner import Case
from harness.util import LOWER
from harness import patches

META = {
    'bounds': 'entries of any 3-letter names in several directories and with each extension, known or not, in archives of the client (plugins or not, in any case) and of the game (with or without language), and plain files; 10 patch versions around the changes of the layout; '
              'pairs of archives and files with the same entries',
    'outside': 'longer names; game archives which have both a texture and an image of the same name',
    'assumptions': [],
}
KEPT = ('.png', '.dds', '.tga', '.tex', '.skn', '.txt', '.stringtable', '.json', '.ttf', '.otf', '.bin')
EXTS = KEPT + ('.skl', '.anm', '.exe', '.dll', '.DDS', '.lua', '.cdtb')
VERSIONS = ('14.3', '14.4', '14.10', '13.24', '9.1', '15.1', 'main')
OUT = '/work/out/x'


def content_for(ext):
    return {'.skn': b'\x33\x22\x11\x00' + bytes(12), '.bin': b'PROP\x01\x00\x00\x00\x00\x00\x00\x00', '.tex': b'TEX\x00\x01\x00\x01\x00\x01\x14\x00\x00....', '.stringtable': b'RST\x05' + bytes(4)}.get(ext, b'data')


def forms(path, ext):
    """Exported paths of an entry of a game archive, None when it is left out"""
    if path == 'game/global/champions/championskins.info':
        return [path + '.json']
    if ext == '.bin':
        return None if '_skins_' in path else [path, path + '.json']
    if ext in ('.dds', '.tga', '.tex'):
        return [path[:-4] + '.png']
    if ext == '.skn':
        return [path, path[:-4]]
    if ext == '.cdtb':
        return [path + '.json']
    if ext in ('.txt', '.stringtable') and 'data/menu/' in path:
        return [path, path + '.json']
    return [path] if ext in KEPT else None


def client_forms(path, ext):
    """Exported paths of a client file"""
    if ext in ('.exe', '.dll'):
        return None
    if ext in ('.dds', '.tga', '.tex'):
        return [path[:-4] + '.png']
    if ext == '.skn':
        return [path, path[:-4]]
    return [path]


def recent(version):
    return version == 'main' or tuple(map(int, version.split('.'))) >= (14, 4)


def exported(env, patch):
    r = patches.export(env, OUT, patch)
    env.check(r.ok, 'the patch is exported')
    return patches.lines(env, OUT + '/cdragon/files.exported.txt')


def check_list(env, got, expected):
    env.check(got is not None, 'list of exported files')
    env.check(len(got) == len(expected) and sorted(got) == sorted(expected), 'exported paths')
    env.check(sorted(got) == got, 'the list is sorted')


def game(env, archives, dirs, exts, versions):
    """One entry of a game archive"""
    name = env.choose('archive', archives)
    version = env.choose('version', versions)
    ext = env.choose('extension', exts)
    base = env.choose('directory', dirs) + env.str('name', 1, LOWER)
    path = base + (ext or '.txt')
    patches.setup(env, {7: path})
    content = content_for(ext)
    p = patches.Patch(env, version, {name: ('/st/' + version + '/a.wad.client', [(7, content, 1)])})
    got = exported(env, p)
    lang = None
    for l in ('en_us', 'zh_cn'):
        if name.lower().endswith('.' + l + '.wad.client') and name.endswith('.wad.client'):
            lang = l
    sub = 'game' if lang is None or not recent(version) else 'game/' + lang
    exp = forms(sub + '/' + path, ext)
    if ext == '.bin' and path.startswith('assets/items/icons2d/autoatlas/') and path.endswith('/atlas_info.bin') and sub == 'game':
        exp = [sub + '/' + path + '.json']
    check_list(env, got, exp or [])
    env.reach('kept' if exp else 'left out')
    env.reach(sub)


def game_special(env):
    """Entries with a special role"""
    path, exp = env.choose('path', (
        ('data/x_skins_y.bin', None), ('data/characters/x_skins_.bin', None), ('data_skins_/x.bin', None), ('data/skins/x.bin', ['game/data/skins/x.bin', 'game/data/skins/x.bin.json']),
        ('assets/items/icons2d/autoatlas/a/atlas_info.bin', ['game/assets/items/icons2d/autoatlas/a/atlas_info.bin.json']),
        ('global/champions/championskins.info', ['game/global/champions/championskins.info.json']), ('a/championskins.info', None),
        ('data/menu/main_en_us.stringtable', ['game/data/menu/main_en_us.stringtable', 'game/data/menu/main_en_us.stringtable.json']),
        ('data/menu/fontconfig_en_us.txt', ['game/data/menu/fontconfig_en_us.txt', 'game/data/menu/fontconfig_en_us.txt.json']), ('data/x_skins_y.txt', ['game/data/x_skins_y.txt']),
        ('x/description.json', ['game/x/description.json']), ('description.json', ['game/description.json']), ('x.exe.txt', ['game/x.exe.txt']), ('noext', ['game/noext.cdtb.json']), ('a.b/noext', ['game/a.b/noext.cdtb.json']), ('x.bin.txt', ['game/x.bin.txt'])))
    patches.setup(env, {7: path})
    content = b'RST\x05' + bytes(4) if 'menu' in path else b'mahC\x02' + bytes(7) if path.endswith('.info') else bytes(8) if 'atlas' in path or path.endswith('noext') else b'PROP\x01' + bytes(7) if path.endswith('.bin') else b'x'
    version = env.choose('version', ('9.10', '14.5'))
    p = patches.Patch(env, version, {'DATA/FINAL/Maps/Map1.wad.client': ('/st/a.wad.client', [(7, content, 1)])})
    check_list(env, exported(env, p), exp or [])
    env.reach('special')


def unknown(env):
    """Entries without known path"""
    h = env.uint('hash', 64)
    ext, content = env.choose('content', (('png', b'\x89PNG\r\n\x1a\n'), ('json', b'[]'), ('bin', b'PROP\x01' + bytes(7)), (None, b'\x01\x02'), ('skn', b'\x33\x22\x11\x00' + bytes(12)), ('jpg', b'\xff\xd8\xff\xdb')))
    kind = env.choose('archive', ('assets', 'default assets', 'numbered', 'upper', 'other client', 'no plugin', 'game', 'language', 'nested'))
    plugin = 'rcp-' + env.str('plugin', 2, LOWER + '-')
    name, prefix = {
        'assets': ('plugins/' + plugin + '/assets.wad', 'plugins/' + plugin + '/unknown'), 'default assets': ('plugins/' + plugin + '/default-assets.wad', 'plugins/' + plugin + '/unknown'),
        'numbered': ('plugins/' + plugin + '/en_us-assets12.wad', 'plugins/' + plugin + '/unknown'), 'upper': ('Plugins/RCP-Be/Assets.wad', 'plugins/rcp-be/unknown'), 'other client': ('plugins/' + plugin + '/other.wad', 'unknown'),
        'no plugin': ('plugins/other/assets.wad', 'unknown'), 'game': ('DATA/x.wad.client', 'game/unknown'), 'language': ('DATA/x.ko_kr.wad.client', 'game/ko_kr/unknown'),
        'nested': ('plugins/' + plugin + '/a/assets.wad', 'plugins/' + plugin + '/a/unknown' if False else 'plugins/' + plugin + '/unknown')}[kind]
    patches.setup(env, {})
    p = patches.Patch(env, '14.8', {name: ('/st/a.wad' + ('.client' if name.endswith('client') else ''), [(h, content, 1)])})
    got = exported(env, p)
    path = prefix + '/' + f'{h:016x}' + ('.' + ext if ext else '')
    if prefix.startswith('game/'):
        exp = {'png': [path], 'json': [path], 'bin': [path, path + '.json'], 'skn': [path, path[:-4]]}.get(ext, [])
    else:
        exp = {'skn': [path, path[:-4]]}.get(ext, [path])
    if kind != 'nested':
        check_list(env, got, exp)
    env.check(env.eq(patches.lines(env, OUT + '/cdragon/files.unknown.txt'), [f'{h:016x}']), 'unknown hashes')
    env.reach(kind)


def client(env, exts, dirs):
    """Entry of a client archive, or plain file"""
    ext = env.choose('extension', exts)
    path = env.choose('directory', dirs) + env.str('name', 1, LOWER) + ext
    patches.setup(env, {7: path})
    version = env.choose('version', ('9.1', '14.6'))
    content = content_for(ext)
    if env.flag('plain'):
        p = patches.Patch(env, version, {path: ('/st/file', content)})
    else:
        p = patches.Patch(env, version, {env.choose('archive', ('plugins/rcp-x/assets.wad', 'plugins/rcp-x/en_us-assets.wad', 'x.wad')): ('/st/a.wad', [(7, content, 1)])})
    exp = client_forms(path, ext)
    check_list(env, exported(env, p), exp or [])
    env.reach('kept' if exp else 'left out')


def plain_special(env):
    path, keep = env.choose('path', (('x/description.json', False), ('plugins/rcp-x/description.json', False), ('description.json', True), ('x/mydescription.json', True), ('x/description.json.txt', True), ('x.exe', False), ('x.exe.bak', True),
                                     ('a.dll/b', True), ('x.DLL', True), ('LeagueClient.exe', False)))
    other = env.str('other', 2, LOWER) + '.txt'
    patches.setup(env, {})
    p = patches.Patch(env, '14.6', {path: ('/st/file', b'data'), other: ('/st/other', b'other')})
    check_list(env, exported(env, p), [other] + ([path] if keep else []))
    env.check(env.fs.content(OUT + '/' + other) == b'other', 'other files are exported')
    env.check((env.fs.content(OUT + '/' + path) == b'data') == keep, 'file is exported when it is listed')
    env.reach('kept' if keep else 'left out')


def distinct(env):
    """The same path in several archives"""
    version = env.choose('version', ('14.4', 'main', '14.3'))
    path = 'data/' + env.str('name', 1, LOWER) + '.txt'
    patches.setup(env, {7: path})
    kinds = {'base': ('DATA/x.wad.client', 'game/'), 'en': ('DATA/x.en_us.wad.client', 'game/en_us/'), 'ko': ('DATA/x.ko_kr.wad.client', 'game/ko_kr/'), 'upper': ('DATA/y.en_GB.wad.client', 'game/en_gb/'), 'client': ('plugins/rcp-x/assets.wad', ''), 'plain': ('plain/' + path, 'plain/')}
    a = env.choose('first', list(kinds))
    b = env.choose('second', list(kinds))
    env.assume(a != b)
    files = {}
    exp = {}
    for i, k in enumerate((a, b)):
        name, prefix = kinds[k]
        c = b'content of ' + k.encode('ascii')
        files[name] = ('/st/' + k + ('.wad.client' if name.endswith('client') else '.wad' if name.endswith('wad') else ''), c if k == 'plain' else [(7, c, i)])
        if prefix.startswith('game/') and not recent(version):
            prefix = 'game/'
        exp[prefix + path] = c
    got = exported(env, patches.Patch(env, version, files))
    check_list(env, got, list(exp))
    if recent(version):
        env.check(len(exp) == 2, 'files of different languages are apart')
    if len(exp) == 2:
        for p, c in exp.items():
            env.check(env.fs.content(OUT + '/' + p) == c, 'content of the files')
        env.reach('apart')
    else:
        env.reach('same place')


def game_data(env):
    """Data exported separately"""
    version = env.choose('version', ('9.13', '9.14', '10.1', '13.13', '13.14', '14.1', '15.1', '15.10', 'main'))
    patches.setup(env, {})
    r = patches.export(env, OUT, patches.Patch(env, version, {'a.txt': ('/st/a', b'a')}))
    env.check(r.ok, 'the patch is exported')
    v = (99, 99) if version == 'main' else tuple(map(int, version.split('.')))
    exp = []
    if v >= (9, 14):
        exp.append('tft')
    if v >= (13, 14):
        exp.append('arena')
    calls = patches.NoData.calls
    env.check([c[1] for c in calls] == [OUT + '/cdragon/' + x for x in exp], 'exported game data')
    for (inp, ver), _, langs in calls:
        env.check(inp == OUT + '/game' and langs is None, 'game data is read from the exported files')
        env.check(ver == v[0] * 100 + v[1], 'version of the game data')
    env.reach(str(len(exp)))


DIRS = ('', 'data/', 'assets/a/', 'x_skins_y/', 'data/menu/')
CASES = [
    Case('game archives', 'game', archives=('DATA/FINAL/a.wad.client', 'DATA/a.en_us.wad.client', 'DATA/a.zh_CN.wad.client'), dirs=('data/',), exts=('.txt', '.bin', '.lua'), versions=VERSIONS, reach=['kept', 'left out', 'game', 'game/en_us', 'game/zh_cn']),
    Case('game extensions', 'game', archives=('a.wad.client', 'a.en_us.wad.client'), dirs=('assets/a/',), exts=EXTS, versions=('14.3', '14.4'), reach=['kept', 'left out']),
    Case('game directories', 'game', archives=('a.wad.client',), dirs=DIRS, exts=('.txt', '.bin', '.png', '.exe', '.stringtable'), versions=('9.1', '14.4'), reach=['kept', 'left out']),
    Case('odd names of archives', 'game', archives=('a.en_us.b.wad.client', 'en_us.wad.client', 'a.en-us.wad.client', 'x/.en_us.wad.client', 'a.eng_us.wad.client'), dirs=('',), exts=('.txt',), versions=('14.4',), reach=['kept']),
    Case('special entries', 'game_special', reach=['special']),
    Case('unknown entries', 'unknown', reach=['assets', 'default assets', 'numbered', 'upper', 'other client', 'no plugin', 'game', 'language']),
    Case('client files', 'client', exts=('.txt', '.exe', '.dll', '.dds', '.skn', '.bin', '.DLL', '.js', '.skl'), dirs=('', 'plugins/rcp-x/global/'), reach=['kept', 'left out']),
    Case('plain files', 'plain_special', reach=['kept', 'left out']),
    Case('same paths', 'distinct', reach=['apart', 'same place']),
    Case('game data', 'game_data', reach=['0', '1', '2']),
]
