"""Arena data"""
from symx.runner import Case
from harness.util import LOWER, le
from harness.bintree import put_hashes
from harness.named import Maker, Table, some

META = {
    'bounds': 'up to 2 augments with any subset of the fields, texts of up to 2 characters in their names, any numbers, links and spells; files of patches 9.10 to 15.2 and later; 2 languages with tables of up to 2 records with any texts; '
              'the layouts of the directories of string tables; unreadable string tables and game data; the languages which are requested',
    'outside': 'augments which refer to a missing spell; values which are not finite; translations which are keys of texts themselves; entries with the same path; the first of several values of the older mDataValues',
    'assumptions': ['xxh64 and xxh3 are uninterpreted functions', 'keys of a string table are distinct'],
}
IN = '/work/in'
OUT = '/work/out'
MAP = IN + '/data/maps/shipping/map30/map30.bin'
LAYOUTS = {
    'lol': lambda lang: f'{lang}/data/menu/en_us/lol.stringtable',
    'tft': lambda lang: f'{lang}/data/menu/en_us/tft.stringtable',
    'main': lambda lang: f'{lang}/data/menu/en_us/main.stringtable',
    'old': lambda lang: f'data/menu/main_{lang}.stringtable',
    'fontconfig': lambda lang: f'data/menu/fontconfig_{lang}.txt',
}


def icon(p):
    """Path of the exported icon"""
    p = p.lower()
    return p[:-4] + '.png' if p.endswith('.dds') or p.endswith('.tex') else p


def finite(env, name):
    import struct
    data = env.bytes(name, 4)
    v, = struct.unpack('<f', data)
    env.assume(v == v)
    env.assume((data[3] & 0x7f) < 0x7f)
    return data, v


def transformer(env, game=None):
    put_hashes(env)
    m = env.load('cdtb.arenadata')
    return m.ArenaTransformer(IN) if game is None else m.ArenaTransformer(IN, game_version=game)


def entry(doc, i):
    return doc['augments'][i]


def fields(env, which):
    """Each field of an augment, present or not"""
    mk = Maker(env)
    put_hashes(env)
    ident = env.uint('id', 32)
    have = {k: env.flag('has ' + k) if k in which else True for k in ('id', 'api', 'name', 'desc', 'tooltip', 'rarity', 'enabled', 'icons')}
    enabled = env.flag('enabled') if have['enabled'] else True
    rarity = env.uint('rarity', 8)
    name, desc, tip = (env.str(n, 2) for n in ('name', 'desc', 'tooltip')) if 'name' in which else ('nm', 'ds', 'tt')
    small = env.str('icon', 2, LOWER + 'AZ') + env.choose('extension', ('.dds', '.TEX', '.png', '')) if 'icons' in which else 'Small.dds'
    es = [(env.uint('augment', 32), 'AugmentData', some([
        ('AugmentPlatformId', mk.u32(ident) if have['id'] else None),
        ('AugmentNameId', mk.text('Api') if have['api'] else None),
        ('NameTra', mk.text(name) if have['name'] else None),
        ('DescriptionTra', mk.text(desc) if have['desc'] else None),
        ('AugmentTooltipTra', mk.text(tip) if have['tooltip'] else None),
        ('AugmentSmallIconPath', mk.text(small)),
        ('AugmentLargeIconPath', mk.text('ASSETS/Large.tex')),
        ('rarity', mk.u8(rarity) if have['rarity'] else None),
        ('enabled', mk.bool(enabled) if have['enabled'] else None),
    ]))]
    env.fs.put(MAP, mk.file(es))
    texts = env.str('translated', 2)
    t = Table(env, [(env.str('key', 2) if 'name' in which else 'nm', texts)])
    other = Table(env, [('unrelated', 'Rien')])
    fixed(env, t, [name, desc, tip])
    env.fs.put(f"{IN}/{LAYOUTS['lol']('en_us')}", t.data)
    env.fs.put(f"{IN}/{LAYOUTS['lol']('fr_fr')}", other.data)
    r = env.call(transformer(env).export, OUT)
    env.check(r.ok, 'exported')
    env.check(sorted(env.fs.files(OUT)) == ['en_us.json', 'fr_fr.json'], 'one file for each language')
    for lang, table in (('en_us', t), ('fr_fr', other)):
        doc = env.read_json(f'{OUT}/{lang}.json')
        if not enabled:
            env.check(len(doc['augments']) == 0, 'disabled augments are not exported')
            env.reach('disabled')
            continue
        env.check(len(doc['augments']) == 1, 'one entry for each augment')
        a = doc['augments'][0]
        env.check(env.eq(a['id'], ident if have['id'] else None), 'identifier')
        env.check(a['apiName'] == ('Api' if have['api'] else None), 'API name')
        for k, v in (('name', name), ('desc', desc), ('tooltip', tip)):
            env.check(env.eq(a[k], table.get(v if have[k] else None)), 'texts are those of the language')
        env.check(env.eq(a['rarity'], rarity if have['rarity'] else 0), 'rarity')
        env.check(env.eq(a['iconSmall'], icon(small)) and a['iconLarge'] == 'assets/large.png', 'paths of icons')
        env.check(a['dataValues'] == {} and a['calculations'] == {}, 'no spell values')
    env.reach('done')


def fixed(env, table, texts):
    """Translations are not keys"""
    for t in texts:
        for _, v in table.items:
            env.assume(env.all([table.key(v) != k for k in table.keys]))


def spells(env, style):
    """Values come from the spell of the augment"""
    mk = Maker(env)
    n = env.choose('values', (0, 1, 2))
    v1, v2 = finite(env, 'v1'), finite(env, 'v2')
    names = ('Damage', 'Duration')
    values = [[v1], [v2, v1]]
    s1, s2 = env.uint('spell 1', 32), env.uint('spell 2', 32)
    a1, a2 = env.uint('augment 1', 32), env.uint('augment 2', 32)
    paths = [s1, s2, a1, a2]
    for i in range(4):
        env.assume(paths[i] != 0)
        for j in range(i):
            env.assume(paths[i] != paths[j])
    old = style == 'old'
    items = [mk.embed('SpellDataValue', [('mName' if old else 'name', mk.text(names[i])),
                                         ('mValues' if old else 'values', mk.list('FLOAT', [mk.float(d) for d, _ in (values[i][:1] if old else values[i])]))]) for i in range(n)]
    calc = env.flag('calculations')
    number = env.uint('number', 32)
    spell = [('mDataValues' if old else 'DataValues', mk.list('EMBEDDED', items, env.choose('list', ('LIST', 'LIST2'))))]
    if n == 0 and env.flag('no values'):
        spell = []
    if calc:
        spell.append(('mSpellCalculations', mk.map('HASH', 'STRUCT', [(mk.hash(7), mk.object(9, [(11, mk.u32(number))]))])))
    which = env.flag('second spell')
    es = [
        (a1, 'AugmentData', [('NameTra', mk.text('A')), ('RootSpell', mk.link(s2 if which else s1))]),
        (s1, 'SpellObject', [('mSpell', mk.object('SpellDataResource', spell if not which else []))]),
        (a2, 'AugmentData', [('NameTra', mk.text('B'))] + ([('RootSpell', mk.link(0))] if env.flag('null link') else [])),
        (s2, 'SpellObject', [('mSpell', mk.object('SpellDataResource', spell if which else []))]),
    ]
    order = env.choose('order', ((0, 1, 2, 3), (3, 2, 1, 0)))
    env.fs.put(MAP, mk.file([es[i] for i in order]))
    env.fs.put(f"{IN}/{LAYOUTS['lol']('en_us')}", Table(env, []).data)
    r = env.call(transformer(env).export, OUT)
    env.check(r.ok, 'exported')
    doc = env.read_json(OUT + '/en_us.json')
    env.check([a['name'] for a in doc['augments']] == (['A', 'B'] if order[0] == 0 else ['B', 'A']), 'one entry for each augment, in the order of game data')
    for a in doc['augments']:
        if a['name'] == 'B':
            env.check(a['dataValues'] == {} and a['calculations'] == {}, 'no value for an augment without spell')
            continue
        env.check(sorted(a['dataValues']) == sorted(names[:n]), 'names of values')
        for i in range(n):
            got = a['dataValues'][names[i]]
            exp = [v for _, v in values[i]]
            if old:
                env.check(env.eq(got, exp[0]) if not isinstance(got, list) else env.eq(got, exp[:1]), 'values of spells')
            else:
                env.check(isinstance(got, list) and len(got) == len(exp) and env.all([env.eq(x, y) for x, y in zip(got, exp)]), 'values of spells')
        if calc:
            env.check(env.eq(a['calculations'], {'{00000007}': {'{0000000b}': number, '__type': '{00000009}'}}), 'calculations of spells')
        else:
            env.check(a['calculations'] == {}, 'no calculation')
    env.reach('done')


def versions(env):
    """Files of older patches"""
    game = env.choose('game', (910, 922, 923, 1007, 1008, 1414, 1415, 1501, 1502, 9999, None))
    gv = 1502 if game is None else game
    mk = Maker(env, gv)
    spell = env.uint('spell', 32)
    env.assume(spell != 0)
    path = env.uint('augment', 32)
    env.assume(path != spell)
    v = finite(env, 'value')
    name = env.str('name', 2)
    env.fs.put(MAP, mk.file([
        (path, 'AugmentData', [('NameTra', mk.text(name)), ('RootSpell', mk.link(spell))]),
        (spell, 'SpellObject', [('mSpell', mk.object('SpellDataResource', [('DataValues', mk.list('EMBEDDED', [mk.embed('SpellDataValue', [('name', mk.text('V')), ('values', mk.list('FLOAT', [mk.float(v[0])]))])]))]))]),
    ]))
    t = Table(env, [(env.str('key', 2), 'Texte')], game=gv, layout=env.choose('table', ('v3', 'v4', 'v5')))
    fixed(env, t, [name])
    env.fs.put(f"{IN}/{LAYOUTS['lol']('en_us')}", t.data)
    r = env.call(transformer(env, game).export, OUT)
    env.check(r.ok, 'files of each patch are read')
    doc = env.read_json(OUT + '/en_us.json')
    env.check(len(doc['augments']) == 1, 'one augment')
    a = doc['augments'][0]
    env.check(env.eq(a['name'], t.get(name)), 'text of the language')
    env.check(list(a['dataValues']) == ['V'] and env.eq(a['dataValues']['V'][0], v[1]), 'values of spells')
    env.reach('done')


def languages(env):
    """Languages which exist, are requested and can be read"""
    mk = Maker(env)
    n1, n2 = env.str('name', 2), 'ds'
    env.fs.put(MAP, mk.file([
        (1, 'AugmentData', [('NameTra', mk.text(n1)), ('DescriptionTra', mk.text(n2))]),
        (2, 'AugmentData', [('NameTra', mk.text(n2))]),
    ]))
    layout = env.choose('layout', ('lol', 'main', 'old'))
    langs = ('en_us', 'ko_kr')
    tables = {}
    for lang in langs:
        if env.flag(lang):
            tables[lang] = Table(env, [(env.str('key ' + lang, 2), env.str('text ' + lang, 2) + lang)])
            fixed(env, tables[lang], [n1, n2])
            env.fs.put(f'{IN}/{LAYOUTS[layout](lang)}', tables[lang].data)
    # tables of other games and directories
    env.fs.put(IN + '/en_us/data/menu/en_us/tft.stringtable', Table(env, [('x', 'y')]).data)
    if layout == 'lol':
        env.fs.put(IN + '/de_de/data/menu/en_us/main.stringtable', Table(env, [('x', 'y')]).data)
    if not tables:
        r = env.call(transformer(env).export, OUT)
        if layout == 'lol':
            env.check(r.ok and env.fs.files(OUT) == ['de_de.json'], 'older tables')
        else:
            env.check(not r.ok, 'no table')
            env.check(env.fs.files(OUT) == [], 'nothing is written without tables')
        env.reach('none')
        return
    req = env.choose('requested', (None, 'first', 'all'))
    want = sorted(tables)
    if req == 'first':
        want = want[:1]
    if env.flag('older output'):
        for lang in langs:
            env.fs.put(f'{OUT}/{lang}.json', b'older')
    before = env.fs.files(OUT)
    r = env.call(transformer(env).export, OUT, langs=None if req is None else list(want))
    env.check(r.ok, 'exported')
    env.check(sorted(env.fs.files(OUT)) == sorted(set(f'{x}.json' for x in want) | set(before)), 'one file for each language')
    for lang in want:
        doc = env.read_json(f'{OUT}/{lang}.json')
        t = tables[lang]
        env.check(len(doc['augments']) == 2, 'one entry for each augment')
        a, b = doc['augments']
        env.check(env.eq(a['name'], t.get(n1)) and env.eq(a['desc'], t.get(n2)) and env.eq(b['name'], t.get(n2)), 'texts are those of the language')
        env.reach('exported')


def unreadable(env):
    """Tables or game data which cannot be read"""
    mk = Maker(env)
    data = mk.file([(1, 'AugmentData', [('NameTra', mk.text('n'))])])
    good = Table(env, [('n', 'Nom')]).data
    bad = env.choose('bad', ('table', 'map', 'no map'))
    cut = env.choose('cut', (0, 3, 7, 12))
    head = env.bytes('head', 4)
    env.assume(head[:3] != b'RST')
    if bad != 'no map':
        env.fs.put(MAP, data if bad == 'table' else data[:cut])
    env.fs.put(f"{IN}/{LAYOUTS['lol']('en_us')}", good)
    env.fs.put(f"{IN}/{LAYOUTS['lol']('xx_xx')}", good if bad != 'table' else head + good[4:] if env.flag('magic') else good[:cut])
    r = env.call(transformer(env).export, OUT)
    env.check(not r.ok, 'failures are reported')
    env.check(not env.fs.lookup(OUT + '/xx_xx.json'), 'no file for a language which cannot be read')
    for f in env.fs.files(OUT):
        env.check(env.read_json(f'{OUT}/{f}')['augments'][0]['name'] == 'Nom', 'files are complete')
    env.reach('done')


def inputs(env):
    """Any name of the input directory"""
    mk = Maker(env)
    d = '/work/' + env.choose('directory', ('in', 'a.b', '[ab]', 'a[b', 'a*b', 'a?', 'en_us/data', '*'))
    data = mk.file([(1, 'AugmentData', [('NameTra', mk.text('n'))])])
    env.fs.put(d + '/data/maps/shipping/map30/map30.bin', data)
    layout = env.choose('layout', ('lol', 'main', 'old'))
    env.fs.put(f"{d}/{LAYOUTS[layout]('en_us')}", Table(env, [('n', 'Nom')]).data)
    put_hashes(env)
    r = env.call(env.load('cdtb.arenadata').ArenaTransformer(d).export, OUT)
    env.check(r.ok, 'exported')
    env.check(env.fs.files(OUT) == ['en_us.json'], 'one file for each language')
    env.check(env.read_json(OUT + '/en_us.json')['augments'][0]['name'] == 'Nom', 'translated')
    env.reach('done')


CASES = [
    Case('fields', 'fields', which=('enabled', 'id', 'rarity'), reach=['disabled', 'done']),
    Case('texts', 'fields', which=('name', 'desc', 'tooltip', 'api'), reach=['done']),
    Case('icons', 'fields', which=('icons',), reach=['done']),
    Case('spells', 'spells', style='new', reach=['done']),
    Case('older spells', 'spells', style='old', reach=['done']),
    Case('versions', 'versions', reach=['done']),
    Case('languages', 'languages', reach=['none', 'exported']),
    Case('unreadable', 'unreadable', reach=['done']),
    Case('inputs', 'inputs', reach=['done']),
]
