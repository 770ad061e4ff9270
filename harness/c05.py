"""RST string tables"""
from symx.runner import Case

META = {
    'bounds': 'versions 2 to 5 (and every other version byte), game versions around the changes, up to 3 records with any 64-bit value whose offset lies in a text area of up to 7 bytes; '
              'lookup keys of up to 4 printable characters and any 64-bit integer; other kinds of keys',
    'outside': 'longer text areas; texts without terminating NUL; offsets outside of the file; records with the same hash',
    'assumptions': ['xxh64 and xxh3 are uninterpreted functions', 'the last byte of the text area is NUL'],
}


def bits_of(version, game):
    if version in (2, 3):
        return 40
    return 38 if game >= 1502 else 39


def hash_name(game):
    return 'xxh3_64' if game >= 1415 else 'xxh64'


def b64(data):
    import base64
    return base64.b64encode(data).decode('ascii')


def table(env, version, games, nrec, ntext, trenc=False, font=None, ascii=True):
    rst = env.load('cdtb.rstfile')
    game = env.choose('game', games)
    gv = 1502 if game is None else game
    bits = bits_of(version, gv)
    head = b'RST' + bytes([version])
    cfg = None
    if version == 2:
        if font is None:
            head += bytes([0])
        else:
            cfg = env.bytes('font', font, 32, 126)
            flag = env.uint('flag', 8)
            env.assume(flag != 0)
            head += flag.to_bytes(1, 'little')
            head += len(cfg).to_bytes(4, 'little') + cfg
    recs = [env.uint(f'rec{i}', 64) for i in range(nrec)]
    text = env.bytes('text', ntext)
    env.assume(text[ntext - 1] == 0)
    for r in recs:
        env.assume((r >> bits) < ntext)
    hashes = [r % (1 << bits) for r in recs]
    for i in range(nrec):
        for j in range(i):
            env.assume(hashes[i] != hashes[j])
    body = nrec.to_bytes(4, 'little')
    for r in recs:
        body += r.to_bytes(8, 'little')
    enc = None
    if version < 5:
        enc = env.uint('enc', 8)
        if not trenc:
            env.assume(enc == 0)
        body += enc.to_bytes(1, 'little')
    if ascii:
        # binary data only in an encrypted text
        plain = env.all([b < 128 for b in text])
        if trenc and version < 5:
            plain = env.any([plain, env.all([(recs[0] >> bits) == 0, text[0] == 0xff, enc != 0])])
        env.assume(plain)
    data = head + body + text
    if env.flag('by path'):
        env.fs.put('/work/t.stringtable', data)
        src = '/work/t.stringtable'
    else:
        import io
        src = io.BytesIO(data)
    r = env.call(rst.RstFile, src) if game is None else env.call(rst.RstFile, src, game)
    env.check(r.ok, 'parses')
    t = r.value
    env.check(t.version == version, 'version')
    env.check(t.hash_bits == bits, 'hash width')
    env.check(env.eq(t.font_config, None if cfg is None else cfg.decode('utf-8')), 'font configuration')
    env.check(len(t.entries) == nrec, 'one entry for each record')
    for rec, h in zip(recs, hashes):
        off = rec >> bits
        for k in range(ntext):
            if off == k:
                off = k
                break
        if enc is not None and enc != 0 and text[off] == 0xff:
            n = text[off + 1] if off + 1 < ntext else 0
            if off + 2 < ntext:
                n = n + 256 * text[off + 2]
            raw = text[off + 3:]
            if n < len(raw):
                for k in range(len(raw)):
                    if n == k:
                        raw = raw[:k]
                        break
            exp = b64(raw)
            env.reach('encrypted')
        else:
            end = off
            while text[end] != 0:
                end += 1
            exp = text[off:end].decode('utf-8', 'replace')
            env.reach('text')
        env.check(h in t.entries, 'key of a record')
        env.check(env.eq(t.entries[h], exp), 'text of a record')
        env.check(env.eq(t[h], exp), 'lookup by hash')


def lookup(env, version, games, keylen):
    """All ways to look up a string"""
    rst = env.load('cdtb.rstfile')
    import io
    game = env.choose('game', games)
    bits = bits_of(version, game)
    rec = env.uint('rec', 64)
    env.assume((rec >> bits) == 0)
    other = env.uint('rec2', 64)
    env.assume((other >> bits) == 2)
    env.assume(rec != other % (1 << bits))
    data = b'RST' + bytes([version]) + (b'\0' if version == 2 else b'') + (2).to_bytes(4, 'little') + rec.to_bytes(8, 'little') + other.to_bytes(8, 'little')
    data += (b'\0' if version < 5 else b'') + b'A\0B\0'
    t = rst.RstFile(io.BytesIO(data), game)
    kind = env.choose('kind', ('text', 'int', 'other'))
    if kind == 'text':
        key = env.str('key', keylen)
        full = env.hashed(hash_name(game), key.lower(), 64)
    elif kind == 'int':
        key = full = env.uint('key', 64)
    else:
        key = env.choose('object', (None, 1.5, (1, 2), b'ab'))
        env.check(not (key in t), 'other objects are not in the table')
        r = env.call(t.__getitem__, key)
        env.check(not r.ok and r.exc_name == 'KeyError', 'other objects raise KeyError')
        env.check(t.get(key) is None and t.get(key, 5) == 5, 'other objects give the default')
        env.reach('other')
        return
    h = full % (1 << bits)
    exp = 'A' if h == rec else 'B' if h == other % (1 << bits) else None
    r = env.call(lambda: t[key])
    if exp is None:
        env.check(not r.ok and r.exc_name == 'KeyError', 'missing key raises KeyError')
        env.check(key not in t, 'missing key is not in the table')
        env.check(t.get(key) is None, 'missing key gives None')
        env.check(t.get(key, 'dflt') == 'dflt', 'missing key gives the default')
        env.reach('missing')
    else:
        env.check(r.ok and r.value == exp, 'lookup')
        env.check(key in t, 'key is in the table')
        env.check(t.get(key) == exp and t.get(key, 'dflt') == exp, 'get')
        env.reach('found')
    env.check(rst.key_to_hash(key, bits, game) == h, 'hash of key')
    env.check(rst.key_to_hash(key, bits=64, rsthash_version=game) == full, 'full hash of key')


def rejected(env):
    rst = env.load('cdtb.rstfile')
    import io
    head = env.bytes('head', 4)
    r = env.call(rst.RstFile, io.BytesIO(head + bytes(16)))
    if head[:3] == b'RST' and head[3] >= 2 and head[3] <= 5:
        env.check(r.ok, 'supported version is accepted')
        env.check(len(r.value.entries) == 0, 'empty table')
        env.reach('supported')
    else:
        env.check(not r.ok and r.exc_name == 'ValueError', 'other magic or version is rejected')
        env.reach('rejected')


def truncated(env, version):
    rst = env.load('cdtb.rstfile')
    import io
    n = env.uint('count', 32)
    env.assume(n > 2)
    data = b'RST' + bytes([version]) + (b'\0' if version == 2 else b'') + n.to_bytes(4, 'little') + env.bytes('recs', 20)
    r = env.call(rst.RstFile, io.BytesIO(data))
    env.check(not r.ok, 'a truncated table is rejected')
    env.reach('done')


G = (1300, 1414, 1415, 1501, 1502, 1600, None)
CASES = [
    Case('v2', 'table', version=2, games=(1414, None), nrec=2, ntext=3, reach=['text']),
    Case('v2 font', 'table', version=2, games=(1400,), nrec=1, ntext=3, font=3, reach=['text']),
    Case('v2 encrypted', 'table', version=2, games=(1400,), nrec=1, ntext=6, trenc=True, reach=['text', 'encrypted']),
    Case('v3', 'table', version=3, games=(1415, 1502), nrec=1, ntext=4, trenc=True, reach=['text', 'encrypted']),
    Case('v4', 'table', version=4, games=G, nrec=1, ntext=4, reach=['text']),
    Case('v4 encrypted', 'table', version=4, games=(1501, None), nrec=1, ntext=5, trenc=True, reach=['text', 'encrypted']),
    Case('v5', 'table', version=5, games=G, nrec=1, ntext=4, trenc=True, reach=['text']),
    Case('v5 2 records', 'table', version=5, games=(None,), nrec=2, ntext=4, reach=['text']),
    Case('v5 any text', 'table', version=5, games=(None,), nrec=1, ntext=3, ascii=False, reach=['text']),
    Case('v4 any text', 'table', version=4, games=(1501,), nrec=1, ntext=3, ascii=False, trenc=True, reach=['text', 'encrypted'], quick=False),
    Case('v5 3 records', 'table', version=5, games=(1501, None), nrec=3, ntext=4, reach=['text'], quick=False),
    Case('v5 long', 'table', version=5, games=(None,), nrec=1, ntext=9, reach=['text'], quick=False),
    Case('v4 encrypted long', 'table', version=4, games=(None,), nrec=1, ntext=8, trenc=True, reach=['text', 'encrypted'], quick=False),
    Case('lookup v5', 'lookup', version=5, games=(1414, 1415, 1501, 1502), keylen=3, reach=['found', 'missing', 'other']),
    Case('lookup v2', 'lookup', version=2, games=(1414, 1415), keylen=2, reach=['found', 'missing', 'other']),
    Case('rejected', 'rejected', reach=['supported', 'rejected']),
    Case('truncated', 'truncated', version=5, reach=['done']),
    Case('truncated v2', 'truncated', version=2, reach=['done']),
]
