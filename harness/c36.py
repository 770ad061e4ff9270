"""TFT data"""
from symx.runner import Case
from harness.bintree import put_hashes
from harness.c35 import LAYOUTS, finite, fixed
from harness.named import Maker, Table, fnv, some
from harness.util import LOWER

META = {
    'bounds': 'up to 2 sets, champions, traits and items with any subset of the fields, in newer and older forms, any numbers and hashes, texts of up to 2 characters; references to missing characters, lists, traits and items; '
              'files of patches 9.10 to 15.2 and later; 2 languages, binary and textual tables of up to 2 records with any texts',
    'outside': 'items which are made from missing items, or have missing traits; champions with a missing role; sets with lists but without script data; champions with an empty list of spells; values which are not finite; '
               'translations which are keys of texts themselves; quotes and line feeds in textual tables; entries with the same path',
    'assumptions': ['xxh64 and xxh3 are uninterpreted functions', 'keys of a string table are distinct'],
}
IN = '/work/in'
OUT = '/work/out'
MAP = IN + '/data/maps/shipping/map22/map22.bin'
CONSTANTS = 0xdf085b93
MANA = 0x726ee5cd


class World:
    def __init__(self, env, game=1502):
        self.env = env
        self.game = game
        self.mk = Maker(env, game)
        self.entries = []
        put_hashes(env)

    def add(self, path, type, *fields):
        self.entries.append((path, type, some(fields)))

    def record(self, name, *entries, old=False):
        path = f'{IN}/data/characters/{name}/{name}.bin' if old else f'{IN}/characters/{name}.cdtb.bin'
        self.env.fs.put(path, self.mk.file([(p, t, some(f)) for p, t, f in entries]))

    def links(self, paths, kind='LIST2'):
        return self.mk.list('LINK', [self.mk.link(p) for p in paths], kind if self.game >= 1008 else 'LIST')

    def trait(self, path, api, name, *fields):
        mk = self.mk
        self.add(path, 'TftTraitData', ('mName', mk.text(api)), ('mDisplayNameTra', mk.text(name)), *fields)

    def champion(self, name, shown, traits=(), shop=(), record=(), entries=(), old=False):
        mk = self.mk
        self.add(fnv('shop/' + name), 'TftShopData', ('mName', mk.text(name)), ('mDisplayNameTra', mk.text(shown)), *shop)
        low = name.lower()
        record = list(record) or [('spells', self.links([fnv('spell')])), ('tier', mk.u8(1))]
        if traits:
            record.append(('mLinkedTraits', self.links(traits)))
        self.record(low, (fnv('record'), 'TFTCharacterRecord', record), *entries, old=old)
        self.add(fnv('char/' + name), 'TftCharacter', ('name', mk.text(name)))

    def lists(self, chars, traits, suffix=''):
        mk = self.mk
        self.add(fnv('chars' + suffix), 'TftCharacterList', ('Characters', self.links([fnv('char/' + c) for c in chars])))
        self.add(fnv('traits' + suffix), 'TftTraitList', ('mTraits', self.links(traits)))

    def script(self, name):
        mk = self.mk
        return mk.map('STRING', 'STRUCT', [(mk.text('SetName'), mk.object('ScriptValue', some([('mValue', None if name is None else mk.text(name))])))])

    def set(self, number=1, name='Set', suffix='', *fields):
        mk = self.mk
        self.add(fnv('set' + suffix), 'TFTSetData', ('number', mk.u32(number)), ('Mutator', mk.text('Mutator' + suffix)), ('tftCharacterLists', self.links([fnv('chars' + suffix)])),
                 ('TraitLists', self.links([fnv('traits' + suffix)])), ('ScriptData', self.script(name)), *fields)

    def table(self, items=(), lang='en_us', layout='v5', where='tft', texts=()):
        t = Table(self.env, list(items), game=self.game, layout=layout)
        if layout != 'text':
            fixed(self.env, t, texts)
        self.env.fs.put(f'{IN}/{LAYOUTS[where](lang)}', t.data)
        return t

    def transformer(self, default=False):
        self.env.fs.put(MAP, self.mk.file(self.entries))
        m = self.env.load('cdtb.tftdata')
        return m.TftTransformer(IN) if default else m.TftTransformer(IN, game_version=self.game)

    def export(self, langs=('en_us',), default=False):
        env = self.env
        r = env.call(self.transformer(default).export, OUT)
        env.check(r.ok, 'exported')
        env.check(sorted(env.fs.files(OUT)) == sorted(f'{x}.json' for x in langs), 'one file for each language')
        docs = []
        for lang in langs:
            doc = env.read_json(f'{OUT}/{lang}.json')
            env.check(sorted(doc) == ['items', 'setData', 'sets'], 'parts of a file')
            docs.append(doc)
        return docs[0] if len(docs) == 1 else docs


def effects(env, w, name, newer):
    """Effects, and what they mean"""
    mk = w.mk
    kind = env.choose(name + ' effects', ('none', 'amounts', 'constants') if newer else ('none', 'amounts'))
    data, v = finite(env, name + ' value')
    if kind == 'none':
        return [], {}
    if kind == 'amounts':
        h = 0x1234ab00 + env.uint(name + ' hash', 4)
        items = [mk.embed('Effect', [('name', mk.hash(h)), ('value', mk.float(data))]), mk.embed('Effect', [('name', mk.hash(5)), ('value', mk.float(bytes(4)))])]
        return [('effectAmounts', mk.list('EMBEDDED', items))], {'{' + f'{h:08x}' + '}': v, '{00000005}': 0.0}
    if env.flag(name + ' empty'):
        return [('constants', mk.object('Constants', []))], {}
    h = 0x1234ab00 + env.uint(name + ' hash', 4)
    items = [(mk.hash(h), mk.embed('Constant', [('mValue', mk.float(data))]))]
    return [('constants', mk.object('Constants', [(CONSTANTS, mk.map('HASH', 'EMBEDDED', items))]))], {'{' + f'{h:08x}' + '}': v}


def same_effects(env, got, exp, what):
    env.check(len(got) == len(exp), what)
    for k, v in exp.items():
        env.check(k in got and env.eq(got[k], v), what)


def traits(env, style):
    """Traits of a set"""
    w = World(env)
    mk = w.mk
    path = env.uint('trait', 32) if style != 'base' else 3
    pre = 'm' if style == 'old' else ''
    n = 1 if style == 'base' else env.choose('levels', (0, 1, 2))
    base, base_exp = effects(env, w, 'base', True) if style == 'base' else ([], {})
    levels = []
    exp = []
    for i in range(n):
        lo, hi, st = env.uint(f'min{i}', 8), env.uint(f'max{i}', 8), env.uint(f'style{i}', 8)
        lacks = None if i or style == 'base' else env.choose('lacks', (None, 'min', 'max', 'style'))
        has = {k: k != lacks for k in ('min', 'max', 'style')}
        if style == 'base' and i == 0:
            ef, ef_exp = effects(env, w, 'level', True)
        else:
            ef, ef_exp = [], {}
        levels.append(mk.embed('TraitSet', some([(pre + 'MinUnits', mk.u8(lo) if has['min'] else None), (pre + 'MaxUnits', mk.u8(hi) if has['max'] else None),
                                                 (pre + 'Style', mk.u8(st) if has['style'] else None)] + ef)))
        top = 25000
        if has['max'] and hi != 0:
            top = hi
        exp.append({'minUnits': lo if has['min'] else None, 'maxUnits': top, 'style': st if has['style'] else 1, 'variables': dict(base_exp, **ef_exp) if style != 'base' else merged(env, base_exp, ef_exp)})
    fields = []
    template = n == 0 and env.flag('template')
    if n or env.flag('empty list'):
        fields.append(('mTraitSets' if style == 'old' else 'mConditionalTraitSets', mk.list('EMBEDDED', levels)))
    if base:
        fields.append(('InnateTraitSets', mk.list('EMBEDDED', [mk.embed('InnateSet', base)])))
    name = env.str('name', 2) if n == 0 else 'ab'
    w.trait(path, 'Api', name, ('mDescriptionNameTra', mk.text('desc')), ('mIconPath', mk.text('Icon.tex')), *fields)
    other = env.uint('other trait', 32) if n == 1 else 4
    env.assume(other != path)
    w.trait(other, 'TFT_Template_X' if template else 'Other', 'other')
    w.lists([], [path, other])
    w.set()
    t = w.table([(env.str('key', 2) if n == 0 else 'ab', 'Nom')], texts=[name])
    doc = w.export()
    env.check(len(doc['setData']) == 1 and list(doc['sets']) == ['1'], 'one set')
    got = sorted(doc['setData'][0]['traits'], key=lambda x: x['apiName'])
    env.check([x['apiName'] for x in got] == (['Api'] if template else ['Api', 'Other']), 'traits of the set, without templates')
    g = got[0]
    env.check(env.eq(g['name'], t.get(name)) and g['desc'] == t.get('desc') and g['icon'] == 'Icon.tex', 'texts and icon of a trait')
    env.check(len(g['effects']) == n, 'levels of a trait')
    for a, b in zip(g['effects'], exp):
        for k in ('minUnits', 'maxUnits', 'style'):
            env.check(env.eq(a[k], b[k]), 'numbers of a level')
        same_effects(env, a['variables'], b['variables'], 'variables of a level')
    env.check(sorted(x['apiName'] for x in doc['sets']['1']['traits']) == [x['apiName'] for x in got], 'same traits in both forms')
    env.reach('template' if template else 'done')


def merged(env, base, level):
    """Variables of a level hide these of the trait"""
    out = {}
    for k, v in base.items():
        if not any(env.eq(k, o) for o in level):
            out[k] = v
    out.update(level)
    return out


def items(env, old):
    """Items"""
    w = World(env)
    mk = w.mk
    mode = env.choose('mode', ('hashes', 'texts', 'flags', 'effects'))
    a, b, c = (env.uint(n, 32) if mode == 'hashes' else fnv(n) for n in ('item a', 'item b', 'item c'))
    t1, t2 = (env.uint(n, 32) if mode == 'hashes' else fnv(n) for n in ('trait 1', 'trait 2'))
    for x, y in ((a, b), (a, c), (b, c), (t1, t2)):
        env.assume(x != y)
    for x in (a, b, c):
        for y in (t1, t2):
            env.assume(x != y)
    w.trait(t1, 'Trait1', 'one')
    w.trait(t2, 'Trait2', 'two')
    name, desc = (env.str('name', 2), env.str('desc', 2)) if mode == 'texts' else ('nm', 'ds')
    ia, ib = env.uint('id a', 32), env.uint('id b', 32)
    has = {k: mode == 'hashes' or (mode == 'flags' and env.flag('has ' + k)) for k in ('made', 'traits', 'flags')}
    aug, uniq = (env.flag('augment'), env.flag('unique')) if has['flags'] and mode == 'flags' else (False, False)
    ef, ef_exp = effects(env, w, 'item', True) if mode == 'effects' else ([], {})
    third = env.choose('third', ('Third', 'TFT_Item_Null', 'TFT_Template_Item', 'xTemplate')) if mode == 'texts' else 'Third'
    entries = [
        (b, 'TftItemData', [('mName', mk.text('B'))] + ([('mId', mk.s32(ib))] if old else [])),
        (a, 'TftItemData', some([('mName', mk.text('A')), ('mDisplayNameTra', mk.text(name)), ('mDescriptionNameTra', mk.text(desc)), ('mIconPath', mk.text('Icon.TEX')),
                                 ('mId', mk.s32(ia) if old else None),
                                 ('IsAugment', mk.bool(aug) if has['flags'] else None), ('mIsUnique', mk.bool(uniq) if has['flags'] else None),
                                 ('mComposition', w.links([b, b, a]) if has['made'] else None),
                                 ('AssociatedTraits', w.links([t2]) if has['traits'] else None), ('IncompatibleTraits', w.links([t2, t1]) if has['traits'] else None),
                                 ('ItemTags', mk.list('HASH', [mk.hash(3)]) if has['traits'] else None)] + ef)),
        (c, 'TftItemData', [('mName', mk.text(third))]),
    ]
    if mode == 'flags' and env.flag('reversed'):
        entries = entries[::-1]
    w.entries += entries
    w.set()
    t = w.table([(env.str('key', 2) if mode == 'texts' else 'nm', 'Nom')], texts=[name, desc])
    doc = w.export()
    out = {x['apiName']: x for x in doc['items']}
    kept = ['A', 'B'] + (['Third'] if third == 'Third' else [])
    env.check(sorted(x['apiName'] for x in doc['items']) == kept, 'items, without templates')
    x = out['A']
    env.check(env.eq(x['name'], t.get(name)) and env.eq(x['desc'], t.get(desc)), 'texts are those of the language')
    env.check(x['icon'] == 'Icon.TEX', 'icon of an item')
    env.check(x['isAugment'] is bool(aug) and x['unique'] is bool(uniq), 'flags of an item')
    env.check(x['composition'] == (['B', 'B', 'A'] if has['made'] else []), 'composition of an item')
    env.check(x['associatedTraits'] == (['Trait2'] if has['traits'] else []) and x['incompatibleTraits'] == (['Trait2', 'Trait1'] if has['traits'] else []), 'traits of an item')
    env.check(x['tags'] == (['{00000003}'] if has['traits'] else []), 'tags of an item')
    same_effects(env, x['effects'], ef_exp, 'effects of an item')
    if old:
        sa, sb = signed(ia), signed(ib)
        env.check(env.eq(x['id'], sa), 'identifier of an item')
        env.check(env.eq(x['from'], [sb, sb, sa] if has['made'] else []), 'identifiers of components')
    else:
        env.check(x['id'] is None and x['from'] is None, 'no identifier')
    env.reach('done')


def signed(v):
    return v - 2**32 if v >= 2**31 else v


def sets(env):
    """Sets and the lists they refer to"""
    w = World(env)
    mk = w.mk
    w.trait(fnv('t1'), 'Trait1', 'one')
    w.trait(fnv('t2'), 'Trait2', 'two')
    w.champion('TFT_A', 'Ahri')
    w.champion('TFT_B', 'Brand')
    mode = env.choose('mode', ('fields', 'characters', 'traits'))
    ref = [env.uint(f'character {i}', 32) if mode == 'characters' else fnv('char/TFT_A') for i in range(2)]
    traits = [env.uint(f'trait {i}', 32) if mode == 'traits' else fnv('t1') for i in range(2)]
    w.add(fnv('newer'), 'TftCharacterList', ('Characters', w.links(ref)))
    w.add(fnv('older'), 'MapCharacterList', ('Characters', w.links([fnv('char/TFT_B')])))
    w.add(fnv('traits'), 'TftTraitList', ('mTraits', w.links(traits)))
    lacks = None if mode != 'fields' else env.choose('lacks', (None, 'number', 'mutator', 'traits', 'name'))
    has = {k: k != lacks for k in ('number', 'mutator', 'traits')}
    name = env.str('name', 2) if mode == 'fields' else 'nm'
    number = env.uint('number', 4) if mode == 'fields' else 7
    newer = env.choose('newer lists', (None, [], [fnv('newer')], [fnv('older'), 77, fnv('newer')]) if mode == 'fields' else ([fnv('older'), 77, fnv('newer')],))
    older = env.choose('older lists', (None, [fnv('older')])) if mode == 'fields' else None
    mutator = 'M' if has['mutator'] else None
    named = lacks != 'name'
    w.add(fnv('set'), 'TFTSetData', ('number', mk.u8(number) if has['number'] else None), ('Mutator', mk.text('M') if has['mutator'] else None), ('name', mk.text('n')),
          ('tftCharacterLists', None if newer is None else w.links(newer)), ('characterLists', None if older is None else w.links(older, 'LIST')),
          ('TraitLists', w.links([fnv('traits'), 78]) if has['traits'] else None), ('ScriptData', w.script(name if named else None)))
    w.table()
    doc = w.export()
    lists = (older or []) + (newer or [])
    if not (lists and has['number'] and has['traits'] and named):
        env.check(doc['setData'] == [] and len(doc['sets']) == 0, 'incomplete sets are not exported')
        env.reach('incomplete')
        return
    env.check(len(doc['setData']) == 1, 'one entry for each set')
    x = doc['setData'][0]
    env.check(env.eq(x['number'], number) and env.eq(x['name'], name) and x['mutator'] == (mutator or 'n'), 'number and names of a set')
    exp = []
    for h in lists:
        if h == fnv('older'):
            exp.append('Brand')
        elif h == fnv('newer'):
            for r in ref:
                if r == fnv('char/TFT_A'):
                    exp.append('Ahri')
                elif r == fnv('char/TFT_B'):
                    exp.append('Brand')
    env.check(sorted(c['name'] for c in x['champions']) == sorted(exp), 'champions of the lists of a set')
    exp = set()
    for r in traits:
        if r == fnv('t1'):
            exp.add('Trait1')
        elif r == fnv('t2'):
            exp.add('Trait2')
    env.check(sorted(c['apiName'] for c in x['traits']) == sorted(exp), 'traits of the lists of a set')
    env.check(x['augments'] == [] and x['items'] == [], 'no item')
    env.check(len(doc['sets']) == 1, 'one set')
    for k, y in doc['sets'].items():
        env.check(env.eq(k, str(number)), 'sets by number')
        env.check(env.eq(y['name'], name) and [c['name'] for c in y['champions']] == [c['name'] for c in x['champions']], 'same set in both forms')
    env.reach('complete')


def set_items(env):
    """Items and augments of sets; several sets"""
    w = World(env)
    mk = w.mk
    w.champion('TFT_A', 'Ahri')
    w.champion('TFT_B', 'Brand')
    names = ('ItemA', 'ItemB')
    kinds = [env.choose(n, (None, False, True)) for n in names]
    for n, k in zip(names, kinds):
        w.add(fnv(n), 'TftItemData', ('mName', mk.text(n)), ('IsAugment', None if k is None else mk.bool(k)))
    ref = [env.uint(f'item {i}', 32) for i in range(2)]
    w.add(fnv('list1'), 'TFTItemList', ('mItems', w.links(ref)))
    full = env.flag('second list')
    w.add(fnv('list2'), 'TFTItemList', ('mItems', w.links([fnv('ItemB')]) if full else None))
    w.lists(['TFT_A'], [])
    w.lists(['TFT_B', 'TFT_A'], [], '2')
    w.set(1, 'First', '', ('ItemLists', w.links([fnv('list1'), 79, fnv('list2')])))
    w.set(2, 'Second', '2')
    w.table()
    doc = w.export()
    env.check([x['name'] for x in doc['setData']] == ['First', 'Second'] and sorted(doc['sets']) == ['1', '2'], 'one entry for each set')
    a, b = doc['setData']
    env.check([c['name'] for c in a['champions']] == ['Ahri'] and [c['name'] for c in b['champions']] == ['Brand', 'Ahri'], 'champions of each set')
    env.check(b['items'] == [] and b['augments'] == [] and b['mutator'] == 'Mutator2', 'set without item')
    here = set()
    for r in ref + ([fnv('ItemB')] if full else []):
        for n in names:
            if r == fnv(n):
                here.add(n)
    env.check(a['augments'] == sorted(n for n, k in zip(names, kinds) if k and n in here), 'augments of a set')
    env.check(a['items'] == sorted(n for n, k in zip(names, kinds) if not k and n in here), 'items of a set')
    env.reach('done')


def one(env, w, doc):
    env.check(len(doc['setData']) == 1 and len(doc['setData'][0]['champions']) == 1, 'one champion')
    c = doc['setData'][0]['champions'][0]
    env.check(env.eq(doc['sets']['1']['champions'], [c]), 'same champion in both forms')
    return c


STATS = (('hp', 'baseHPModifiable', 'baseHP'), ('damage', 'baseDamageModifiable', 'BaseDamage'), ('armor', 'baseArmorModifiable', 'baseArmor'),
         ('magicResist', 'baseMR', 'baseSpellBlock'), ('attackSpeed', 'attackSpeedModifiable', 'attackSpeed'))


def stats(env, which):
    """Numbers of a champion"""
    w = World(env)
    mk = w.mk
    record = [('spells', w.links([1]))]
    exp = {'hp': None, 'mana': 100, 'initialMana': 0, 'damage': None, 'armor': None, 'magicResist': None, 'critMultiplier': None, 'critChance': None, 'attackSpeed': None, 'range': 0}
    da, a = finite(env, 'a')
    db, b = finite(env, 'b')
    dz, z = finite(env, 'c')
    if which == 'stats':
        stat, new, old = env.choose('stat', STATS)
        form = env.choose('form', ('newer', 'older', 'both'))
        if form != 'older':
            record.append((new, mk.embed('Stat', [('BaseValue', mk.float(da))])))
        if form != 'newer':
            record.append((old, mk.float(db)))
        exp[stat] = b if form == 'older' else a
        if env.flag('critical'):
            record += [('critDamageMultiplier', mk.float(dz)), ('baseCritChance', mk.float(db)), ('mInitialMana', mk.float(da))]
            exp.update(critMultiplier=z, critChance=b, initialMana=a)
    elif which == 'mana':
        form = env.choose('form', ('nothing', 'newer', 'newer default', 'older'))
        fields = {'nothing': [], 'newer': [(MANA, mk.embed('Mana', [('BaseValue', mk.float(da))])), ('arBase', mk.float(db))], 'newer default': [(MANA, mk.embed('Mana', [])), ('arBase', mk.float(db))],
                  'older': [('arBase', mk.float(db))]}[form]
        record.append(('primaryAbilityResource', mk.embed('Resource', fields)))
        exp['mana'] = {'newer': a, 'older': b}.get(form, 100)
    else:
        v = env.choose('range', (0.0, 125.0, 180.0, 359.5, 360.0, 1000.0))
        import struct
        d = struct.pack('<f', v)
        form = env.choose('form', ('newer', 'newer default', 'older'))
        record.append(('attackRange', mk.float(d)) if form == 'older' else ('attackRangeModifiable', mk.embed('Stat', [('BaseValue', mk.float(d))] if form == 'newer' else [])))
        exp['range'] = 0 if form == 'newer default' else v // 180
    w.champion('TFT_A', 'Ahri', record=record)
    w.lists(['TFT_A'], [])
    w.set()
    w.table()
    c = one(env, w, w.export())
    env.check(sorted(c['stats']) == sorted(exp), 'numbers of a champion')
    for k, v in exp.items():
        env.check(env.eq(c['stats'][k], v), 'numbers of a champion')
    env.reach('done')


def champion(env):
    """Texts, cost, role and icons of a champion"""
    w = World(env)
    mk = w.mk
    mode = env.choose('mode', ('cost', 'fields', 'texts', 'traits'))
    has = {k: mode != 'fields' or env.flag('has ' + k) for k in ('role', 'icons')}
    cost = env.uint('cost', 8)
    has['tier'] = mode != 'cost' or env.flag('has tier')
    rarity = env.choose('rarity', (None, 0, 1, 4, 5, 6)) if mode == 'cost' else 3
    record = some([('spells', w.links([1])), ('tier', mk.u8(cost) if has['tier'] else None), ('mCharacterName', mk.text('Char')), ('CharacterRole', mk.link('role2') if has['role'] else None)])
    shop = some([('mRarity', None if rarity is None else mk.u8(rarity)), ('PcSplashPath', mk.text('Splash.tex') if has['icons'] else None), ('mIconPath', mk.text('Icon.dds')),
                 ('TeamPlannerPortraitPath', mk.text('Tile.tex')), ('SquareSplashPath', mk.text('Square.tex')), ('AbilityIconPath', mk.text('Ability.tex') if has['icons'] else None), ('mPortraitIconPath', mk.text('Portrait.dds'))])
    w.add(fnv('role1'), 'TFTCharacterRoleData', ('name', mk.text('Tank')))
    w.add(fnv('role2'), 'TFTCharacterRoleData', ('name', mk.text('Caster')))
    name = env.choose('name', ('TFT_A', 'tft_a', 'Tft_a')) if mode == 'fields' else 'TFT_A'
    shown = env.str('shown', 2) if mode == 'texts' else 'nm'
    refs = [env.uint(f'trait {i}', 32) if mode == 'traits' else fnv('t2') for i in range(2)]
    w.trait(fnv('t1'), 'Trait1', 'one')
    w.trait(fnv('t2'), 'Trait2', 'two')
    w.trait(fnv('t3'), 'TFT_Template', 'hidden')
    style = env.choose('traits', ('none', 'links', 'embedded')) if mode in ('fields', 'traits') else 'links'
    if style == 'links':
        record.append(('mLinkedTraits', w.links(refs)))
    elif style == 'embedded':
        record.append(('mLinkedTraits', mk.list('EMBEDDED', [mk.embed('TraitRef', [('Other', mk.link('t1')), ('TraitData', mk.link(r))]) for r in refs])))
    w.champion(name, shown, shop=shop, record=record, old=mode == 'fields' and env.flag('older file'))
    w.entries[-1] = (w.entries[-1][0], 'Character' if mode == 'fields' and env.flag('older character') else 'TftCharacter', w.entries[-1][2])
    w.lists([name], [])
    w.set()
    t = w.table([('one', 'Un'), (env.str('key', 2) if mode == 'texts' else 'nm', 'Nom')], texts=[shown])
    c = one(env, w, w.export())
    env.check(c['apiName'] == name and c['characterName'] == 'Char', 'names of a champion')
    env.check(env.eq(c['name'], t.get(shown)), 'texts are those of the language')
    if has['tier']:
        env.check(env.eq(c['cost'], cost), 'cost of a champion')
    else:
        env.check(c['cost'] == {None: 1, 0: 1, 1: 2, 4: 5, 5: 7, 6: 8}[rarity], 'cost by rarity')
    env.check(c['role'] == ('Caster' if has['role'] else None), 'role of a champion')
    env.check(c['icon'] == ('Splash.tex' if has['icons'] else 'Icon.dds'), 'icon of a champion')
    env.check(c['tileIcon'] == 'Tile.tex' and c['squareIcon'] == 'Square.tex', 'other icons of a champion')
    env.check(c['ability']['icon'] == ('Ability.tex' if has['icons'] else 'Portrait.dds'), 'icon of an ability')
    exp = []
    if style != 'none':
        for r in refs:
            if r == fnv('t1'):
                exp.append(t.get('one'))
            elif r == fnv('t2'):
                exp.append(t.get('two'))
    env.check(env.eq(c['traits'], exp), 'traits of a champion')
    env.reach('done')


def missing(env):
    """Champions without file, record or spells"""
    w = World(env)
    mk = w.mk
    w.champion('TFT_A', 'Ahri')
    w.champion('TFT_B', 'Brand')
    w.champion('TFT_Template', 'Template')
    how = env.choose('missing', ('nothing', 'file', 'record', 'spells', 'shop', 'character'))
    path = IN + '/characters/tft_b.cdtb.bin'
    if how == 'file':
        env.fs.remove(path)
    elif how == 'record':
        w.record('tft_b', (1, 'CharacterRecord', [('spells', w.links([1]))]))
    elif how == 'spells':
        w.record('tft_b', (1, 'TFTCharacterRecord', [('tier', mk.u8(1))]))
    elif how == 'shop':
        w.entries = [e for e in w.entries if e[0] != fnv('shop/TFT_B')]
    elif how == 'character':
        w.entries = [e for e in w.entries if e[0] != fnv('char/TFT_B')]
    both = env.flag('older file')
    if both:
        # the newer location comes first
        w.record('tft_b', (1, 'TFTCharacterRecord', [('spells', w.links([1])), ('mCharacterName', mk.text('older'))]), old=True)
    w.lists(['TFT_A', 'TFT_B', 'TFT_Template'], [])
    w.set()
    w.table()
    doc = w.export()
    exp = ['Ahri']
    if how == 'nothing' or (how == 'file' and both):
        exp.append('Brand')
    cs = doc['setData'][0]['champions']
    env.check([c['name'] for c in cs] == exp, 'champions which exist')
    if len(exp) == 2:
        env.check(cs[1]['characterName'] == ('older' if how == 'file' else None), 'file of a champion')
    env.reach(how)


def ability(env):
    """Ability of a champion"""
    w = World(env)
    mk = w.mk
    s1, s2 = env.uint('spell 1', 32), env.uint('spell 2', 32)
    env.assume(s1 != s2)
    env.assume(s1 != 0)
    env.assume(s2 != 0)
    da, a = finite(env, 'a')
    form = env.choose('reference', ('path', 'script name', 'unknown'))
    ref = env.uint('reference', 32)
    script = env.choose('script', ('Spells/AhriQ', 'x/y/AHRIQ', 'ahriq', 'AhriR'))
    old = env.flag('older values')
    keys = env.choose('keys', ('none', 'both', 'name'))
    texts = env.choose('texts', ('none', 'both'))

    def spell(name, mine):
        fields = [('mDataValues' if old else 'DataValues', mk.list('EMBEDDED', [mk.embed('Value', [('mName' if old else 'name', mk.text(name + 'V')), ('mValues' if old else 'values', mk.list('FLOAT', [mk.float(da), mk.float(bytes(4))]))])]))]
        if keys != 'none':
            loc = [(mk.text('keyName'), mk.text(name + 'N'))]
            if keys == 'both':
                loc.append((mk.text('keyTooltip'), mk.text(name + 'T')))
            fields.append(('mClientData', mk.object('Client', [('mTooltipData', mk.object('Tooltip', [('mLocKeys', mk.map('STRING', 'STRING', loc))]))])))
        return [('mScriptName', mk.text(name)), ('mSpell', mk.object('Spell', fields))]
    record = [('spells', w.links([0, ref, s2] if form == 'path' else [0, 0])) if form != 'script name' else ('spellNames', mk.list('STRING', [mk.text(script), mk.text('AhriW')]))]
    shop = [('mAbilityNameTra', mk.text('shopN')), ('mDescriptionTra', mk.text('shopT'))] if texts == 'both' else []
    w.champion('TFT_A', 'Ahri', shop=shop, record=record, entries=[(99, 'OtherObject', [('mScriptName', mk.text('AhriQ'))]), (s1, 'SpellObject', spell('AhriQ', 1)), (s2, 'SpellObject', spell('AhriW', 2))])
    w.lists(['TFT_A'], [])
    w.set()
    t = w.table([('AhriQN', 'Orbe'), ('shopT', 'Texte')])
    c = one(env, w, w.export())
    found = None
    if form == 'path':
        if ref == s1:
            found = 'AhriQ'
        elif ref == s2:
            found = 'AhriW'
        elif ref == 0:
            found = 'AhriW'
    elif form == 'script name' and script != 'AhriR':
        found = 'AhriQ'
    x = c['ability']
    if found is None:
        env.check(x['variables'] == [], 'no variable without spell')
        env.reach('unknown')
    else:
        env.check(len(x['variables']) == 1 and x['variables'][0]['name'] == found + 'V', 'variables of the spell')
        env.check(len(x['variables'][0]['value']) == 2 and env.eq(x['variables'][0]['value'][0], a), 'values of variables')
        env.reach('found')
    name = 'shopN' if texts == 'both' else found + 'N' if found and keys != 'none' else None
    desc = 'shopT' if texts == 'both' else found + 'T' if found and keys == 'both' else None
    env.check(env.eq(x['name'], t.get(name)) and env.eq(x['desc'], t.get(desc)), 'texts of an ability')


def languages(env):
    """Languages and kinds of tables"""
    w = World(env)
    name, tr = env.str('name', 1), 'tr'
    w.trait(fnv('t1'), 'T', tr)
    w.champion('TFT_A', name, traits=[fnv('t1')])
    w.add(fnv('item'), 'TftItemData', ('mName', w.mk.text('I')), ('mDisplayNameTra', w.mk.text(name)), ('mDescriptionNameTra', w.mk.text(tr)))
    w.lists(['TFT_A'], [fnv('t1')])
    w.set()
    where = env.choose('where', ('tft', 'main', 'old'))
    layouts = [env.choose('layout', ('v3', 'v4', 'v5'))] * 2
    tables = {}
    langs = ('en_us', 'ko_kr') if env.flag('two languages') else ('ko_kr',)
    for lang, layout in zip(langs, layouts):
        tables[lang] = w.table([(env.str('key ' + lang, 1), env.str('text ' + lang, 1) + lang), ('tr', 'Trait ' + lang)], lang, layout, where, [name, tr])
    env.fs.put(IN + '/en_us/data/menu/en_us/lol.stringtable', Table(env, [('x', 'y')]).data)
    docs = w.export(langs)
    if len(langs) == 1:
        docs = [docs]
    localised(env, docs, tables, name, tr)
    env.reach('done')


def localised(env, docs, tables, name, tr):
    for (lang, t), doc in zip(tables.items(), docs):
        for x in (doc['setData'][0], doc['sets']['1']):
            env.check(env.eq(x['traits'][0]['name'], t.get(tr)), 'texts of traits')
            env.check(env.eq(x['champions'][0]['name'], t.get(name)) and env.eq(x['champions'][0]['traits'], [t.get(tr)]), 'texts of champions')
        env.check(env.eq(doc['items'][0]['name'], t.get(name)) and env.eq(doc['items'][0]['desc'], t.get(tr)), 'texts of items')


def textual(env):
    """Textual tables"""
    w = World(env, env.choose('game', (913, 1008)))
    name, tr = 'the_name', env.str('trait', 2, LOWER)
    w.trait(fnv('t1'), 'T', tr)
    w.champion('TFT_A', name, traits=[fnv('t1')])
    w.add(fnv('item'), 'TftItemData', ('mName', w.mk.text('I')), ('mDisplayNameTra', w.mk.text(name)), ('mDescriptionNameTra', w.mk.text(tr)))
    w.lists(['TFT_A'], [fnv('t1')])
    w.set()
    t = w.table([(env.str('key', 2, LOWER), env.str('text', 2, LOWER + '= é#') + '!'), ('other', 'Autre'), ('the_name', 'Nom')], 'en_us', 'text', env.choose('where', ('fontconfig', 'main')))
    env.assume(t.items[0][0] != t.items[0][1])
    path = [p for p in env.fs.files(IN) if 'menu' in p][0]
    head = env.choose('start', (b'', b'\xef\xbb\xbf', b'[FontConfig "English"]\n', b'\xef\xbb\xbf[FontConfig]\n\n', b'fontlib "x"\n', b'# tr "the_name" = "x"\n'))
    env.fs.put(IN + '/' + path, head + t.data)
    localised(env, [w.export()], {'en_us': t}, name, tr)
    env.reach('done')


def versions(env):
    """Files of older patches"""
    game = env.choose('game', (910, 922, 923, 1007, 1008, 1414, 1415, 1501, 1502, 9999, None))
    w = World(env, 1502 if game is None else game)
    name, tr = env.str('name', 2), 'trait'
    cost = env.uint('cost', 8)
    w.trait(fnv('t1'), 'T', tr)
    w.champion('TFT_A', name, record=[('spells', w.links([1])), ('tier', w.mk.u8(cost)), ('mLinkedTraits', w.links([fnv('t1')]))])
    w.lists(['TFT_A'], [fnv('t1')])
    w.set()
    t = w.table([(env.str('key', 2), 'Texte')], texts=[name, tr], layout=env.choose('table', ('v3', 'v4', 'v5')))
    doc = w.export(default=game is None)
    x = doc['setData'][0]
    env.check(len(x['champions']) == 1, 'champions')
    c = x['champions'][0]
    env.check(env.eq(c['name'], t.get(name)) and env.eq(c['cost'], cost) and env.eq(c['traits'], [t.get(tr)]), 'champion')
    env.reach('done')


def first_sets(env):
    """Game data without description of sets"""
    w = World(env, env.choose('game', (913, 922, 1007, 1008)))
    w.trait(fnv('t1'), 'T1', 'one')
    w.trait(fnv('t2'), 'T2', 'two')
    mode = env.choose('mode', ('texts', 'characters', 'traits'))
    name = env.str('name', 2) if mode == 'texts' else 'nm'
    w.champion('TFT_A', name, traits=[fnv('t1')])
    w.champion('TFT_B', 'Brand')
    refs = [env.uint(f'character {i}', 32) if mode == 'characters' else fnv('char/TFT_A') for i in range(2)]
    traits = [env.uint(f'trait {i}', 32) if mode == 'traits' else fnv('t2') for i in range(2)]
    lists = [(fnv('l1'), 'MapCharacterList', [('Characters', w.links(refs))]), (fnv('l2'), 'MapCharacterList', [('Characters', w.links([fnv('char/TFT_B')]))])]
    if env.flag('reversed'):
        lists = lists[::-1]
    w.entries += lists
    w.add(fnv('tl1'), 'TftTraitList', ('mTraits', w.links([])))
    w.add(fnv('tl2'), 'TftTraitList', ('mTraits', w.links(traits)))
    t = w.table([(env.str('key', 2) if mode == 'texts' else 'nm', 'Nom')], texts=[name, 'one'], layout='v3', where='old')
    doc = w.export()
    env.check(len(doc['setData']) == 1 and list(doc['sets']) == ['1'] and doc['setData'][0]['number'] == 1, 'one set')
    exp = []
    for r in refs:
        if r == fnv('char/TFT_A'):
            exp.append(t.get(name))
        elif r == fnv('char/TFT_B'):
            exp.append('Brand')
    env.check(env.eq([c['name'] for c in doc['sets']['1']['champions']], exp), 'champions of the longest list')
    exp = []
    for r in traits:
        if r == fnv('t1'):
            exp.append('T1')
        elif r == fnv('t2'):
            exp.append('T2')
    env.check(sorted(set(c['apiName'] for c in doc['sets']['1']['traits'])) == sorted(set(exp)), 'traits of the longest list')
    env.reach('done')


def unreadable(env):
    """Tables or game data which cannot be read"""
    w = World(env)
    bad = env.choose('bad', ('table', 'map', 'no map', 'champion', 'no table'))
    cut = env.choose('cut', (0, 3, 7, 12))
    w.champion('TFT_A', 'n')
    w.lists(['TFT_A'], [])
    w.set()
    if bad != 'no table':
        w.table([('n', 'Nom')])
        good = w.table([('n', 'Nom')], 'xx_xx').data
        if bad == 'table':
            env.fs.put(f"{IN}/{LAYOUTS['tft']('xx_xx')}", good[:4 + min(cut, 8)])
    t = w.transformer()
    if bad == 'map':
        env.fs.put(MAP, env.fs.content(MAP)[:cut])
    elif bad == 'no map':
        env.fs.remove(MAP)
    elif bad == 'champion':
        env.fs.put(IN + '/characters/tft_a.cdtb.bin', b'PROP' + bytes(cut))
    r = env.call(t.export, OUT)
    if bad == 'champion' and cut == 12:
        bad = 'empty'
    env.check(r.ok == (bad == 'empty'), 'failures are reported')
    if not r.ok:
        env.check(not env.fs.lookup(OUT + '/xx_xx.json'), 'no file for a language which cannot be read')
    env.reach(bad)


CASES = [
    Case('traits', 'traits', style='new', reach=['done', 'template']),
    Case('older traits', 'traits', style='old', reach=['done', 'template']),
    Case('trait effects', 'traits', style='base', reach=['done']),
    Case('items', 'items', old=False, reach=['done']),
    Case('older items', 'items', old=True, reach=['done']),
    Case('sets', 'sets', reach=['incomplete', 'complete']),
    Case('items of sets', 'set_items', reach=['done']),
    Case('stats', 'stats', which='stats', reach=['done']),
    Case('mana', 'stats', which='mana', reach=['done']),
    Case('range', 'stats', which='range', reach=['done']),
    Case('champion', 'champion', reach=['done']),
    Case('missing champions', 'missing', reach=['nothing', 'file', 'record', 'spells', 'shop', 'character']),
    Case('ability', 'ability', reach=['found', 'unknown']),
    Case('languages', 'languages', reach=['done']),
    Case('textual tables', 'textual', reach=['done']),
    Case('versions', 'versions', reach=['done']),
    Case('first sets', 'first_sets', reach=['done']),
    Case('unreadable', 'unreadable', reach=['table', 'map', 'no map', 'champion', 'no table', 'empty']),
]
