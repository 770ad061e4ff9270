"""Guessed extensions"""
import json
from symx.runner import Case
from harness.util import wad_header, wad_entry

META = {
    'bounds': 'contents of 0 to 26 symbolic bytes (a longer content only differs after all magic numbers), JSON documents with symbolic parts, oversized JSON numbers and nesting; '
              'two archives of up to 2 entries with any hashes, in sequence',
    'outside': 'symbolic contents which are JSON by chance are excluded by their first byte; entries of the same hash have the same content',
    'assumptions': ['a content whose first byte, or the second one after white space, starts no JSON value and no byte order mark is no JSON document'],
}

# order matters: the first match wins
MAGIC = [
    (b'\xff\xd8\xff\xdb', 'jpg'), (b'\xff\xd8\xff\xe1', 'jpg'), (None, 'jpg'), (b'\x89PNG\r\n\x1a\n', 'png'), (b'GIF87a', 'gif'), (b'GIF89a', 'gif'),
    (b'OggS', 'ogg'), (b'\x00\x01\x00\x00', 'ttf'), (b'\x1a\x45\xdf\xa3', 'webm'), (b'true', 'ttf'), (b'OTTO\x00', 'otf'), (b'"use strict";', 'min.js'),
    (b'<template ', 'template.html'), (b'<!-- Elements -->', 'template.html'), (b'<!DOCTYPE html>', 'html'), (b'<html', 'html'), (b'DDS ', 'dds'),
    (b'<svg', 'svg'), (b'PROP', 'bin'), (b'PTCH', 'bin'), (b'BKHD', 'bnk'), (b'r3d2Mesh', 'scb'), (b'r3d2anmd', 'anm'), (b'r3d2canm', 'anm'),
    (b'r3d2sklt', 'skl'), (b'r3d2', 'wpk'), (b'\x33\x22\x11\x00', 'skn'), (b'PreLoadBuildingBlocks = {', 'preload'),
    (b'\x1bLuaQ\x00\x01\x04\x04', 'luabin'), (b'\x1bLuaQ\x00\x01\x04\x08', 'luabin64'), (b'\x02\x3d\x00\x28', 'troybin'), (b'[ObjectBegin]', 'sco'),
    (b'OEGM', 'mapgeo'), (b'TEX\x00', 'tex'), (b'\x00asm', 'wasm'), (b'UnityFS', 'bundle'), (b'UnityWebData1.0', 'data'),
]


def expected(data):
    for magic, ext in MAGIC:
        if magic is None:
            if data[6:10] == b'JFIF' or data[6:10] == b'Exif':
                return ext
        elif data[:len(magic)] == magic:
            return ext
    return None


def guess(env, lengths):
    """Any content which is no JSON"""
    wad = env.load('cdtb.wad')
    n = env.choose('length', lengths)
    data = env.bytes('data', n)
    exp = expected(data)
    if exp is None:
        if n:
            blank = n > 1 and env.flag('blank')
            if blank:
                env.assume(env.any([data[0] == c for c in b' \t\n\r']))
            first = data[1 if blank else 0]
            # no white space, byte order mark or start of a JSON value; no null either (UTF-16)
            env.assume(env.all([first != c for c in b'\0 \t\n\r\xef\xfe\xff{["-0123456789tfnNI']))
        exc = env.flag('exc')
        env.json_fails((lambda: UnicodeDecodeError('utf-8', b'', 0, 1, '')) if exc else (lambda: json.JSONDecodeError('', '', 0)))
    r = env.call(wad.WadFileHeader.guess_extension, data)
    env.check(r.ok, 'guessing does not fail')
    env.check(r.value == exp, 'guess is the first match')
    env.reach('known' if exp else 'unknown')


def guess_json(env):
    wad = env.load('cdtb.wad')
    doc = env.choose('doc', (
        {'a': env.str('s', 3)}, [env.int('i', -5, 100000), None], {}, [], env.str('t', 3), env.int('j', 0, 9),
        b'{"a": [1, 2.5e3, null, "\xc3\xa9"]}', b'\xef\xbb\xbf{}', b' [] ', b'"x"', b'0', b'null', b' true', b'\n"use strict;"', b'\t["PROP"]', b'\r\n{"a":1}\n', b'{"a":1}\n'))
    data = doc if isinstance(doc, bytes) else env.json_bytes(doc)
    if isinstance(doc, str):
        # not the start of the magic number of scripts
        env.assume(doc[:2] != 'us')
    r = env.call(wad.WadFileHeader.guess_extension, data)
    env.check(r.ok, 'guessing does not fail')
    env.check(r.value == 'json', 'a JSON document is json')
    env.reach('json')


def guess_odd(env):
    """Contents on which a JSON parser gives up in other ways"""
    wad = env.load('cdtb.wad')
    data = env.choose('data', (b'1' * 5000, b'[' * 200000, b'{"a":' * 100000, b'{"a": 1', b'{} {}', b'\xff\xfe', b'', b'tru', b'NaNa', b'[1,]', b' tru', b'\n<', b'\x0b[]', b'{"\xe9": 1}', b'\x00\x00', b'"use strict', b'abc'))
    r = env.call(wad.WadFileHeader.guess_extension, data)
    env.check(r.ok, 'guessing does not fail on contents which are almost JSON')
    env.check(r.value is None, 'no extension for contents which are almost JSON')
    env.reach('odd')


KINDS = {'bin': b'PROP', 'jpg': b'......JFIF', 'json': b'[1]', None: b'?!', 'wpk': b'r3d2....'}


def wads(env, nfiles, kinds):
    """Guesses of two archives in sequence"""
    wad = env.load('cdtb.wad')
    seen = []
    for a in range(2):
        ents = []
        paths = {}
        data = b''
        for i in range(nfiles[a]):
            h = env.uint(f'hash{a}{i}', 64)
            k = env.choose(f'kind{a}{i}', kinds)
            for h2, k2 in seen:
                env.assume(env.implies(h == h2, k == k2))
            seen.append((h, k))
            ents.append((h, k))
        named = env.choose(f'named{a}', (None, 'x/y.dds', 'x/noext'))
        if named:
            for h, k in ents[1:]:
                env.assume(h != ents[0][0])
            paths[ents[0][0]] = named
        data = wad_header(4, len(ents))
        body = b''
        for h, k in ents:
            c = KINDS[k]
            data += wad_entry(h, 1000 + len(body), len(c), len(c), 0)
            body += c
        data = data + bytes(1000 - len(data)) + body
        env.fs.put(f'/work/{a}.wad', data)
        w = wad.Wad(f'/work/{a}.wad', paths)
        r = env.call(w.guess_extensions)
        env.check(r.ok, 'guessing does not fail')
        env.check(len(w.files) == len(ents), 'entries are kept')
        for j, (f, (h, k)) in enumerate(zip(w.files, ents)):
            if j == 0 and named == 'x/y.dds':
                env.check(f.ext == 'dds', 'known extension is kept')
                env.reach('named')
            else:
                env.check((f.ext or None) == k, 'extension of entry')
                env.reach('guessed')
            env.check(f.path_hash == h, 'hash is kept')


def unreadable(env):
    """Entries without content do not disturb the others"""
    wad = env.load('cdtb.wad')
    env.libs['zstd_fails'] = True
    t = env.choose('type', (2, 4))
    bad = (b'\x02\x00\x00\x00ab' if t == 2 else b'corrupt')
    data = wad_header(4, 3) + wad_entry(1, 500, len(bad), 1, t) + wad_entry(2, 600, 0, 0, 0) + wad_entry(3, 600, 4, 4, 0)
    data = data + bytes(500 - len(data)) + bad
    data = data + bytes(600 - len(data)) + b'PTCH'
    env.fs.put('/work/a.wad', data)
    w = wad.Wad('/work/a.wad', {})
    content = None
    if t == 4:
        c = env.call(env.decompress, 'zstd', bad)
        env.assume(not c.ok)
    r = env.call(w.guess_extensions)
    env.check(r.ok, 'an entry without content does not stop guessing')
    env.check([f.ext or None for f in w.files] == [None, None, 'bin'], 'guesses with unreadable entries')
    env.reach('done')


CASES = [
    Case('magic short', 'guess', lengths=range(0, 9), reach=['known', 'unknown']),
    Case('magic', 'guess', lengths=(10, 13, 17), reach=['known', 'unknown']),
    Case('magic long', 'guess', lengths=(26,), reach=['known', 'unknown']),
    Case('magic all lengths', 'guess', lengths=range(9, 26), quick=False, reach=['known', 'unknown']),
    Case('json', 'guess_json', reach=['json']),
    Case('almost json', 'guess_odd', reach=['odd']),
    Case('archives 1+1', 'wads', nfiles=(1, 1), kinds=list(KINDS), reach=['named', 'guessed']),
    Case('archives 2+1', 'wads', nfiles=(2, 1), kinds=['bin', None], reach=['named', 'guessed']),
    Case('archives 2+2', 'wads', nfiles=(2, 2), kinds=['bin', None, 'json'], reach=['named', 'guessed'], quick=False),
    Case('unreadable', 'unreadable', reach=['done']),
]
