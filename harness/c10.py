"""Skin meshes"""
import io
import struct
from symx.runner import Case
from harness.util import le
from harness.bintree import same_float

META = {
    'bounds': 'versions 0, 1, 2 and 4 (any minor), up to 3 vertices with any content, up to 6 indices of any value, up to 2 submeshes with any ranges within them, names of up to 3 characters, all 3 vertex types, any magic number',
    'outside': 'more vertices, indices and submeshes; submeshes whose number of indices is no multiple of 3; other versions',
    'assumptions': ['ranges of submeshes lie in the file'],
}


def vertex(env, i, vtype):
    data = env.bytes(f'vertex{i}', 52)
    v = {'position': struct.unpack('<fff', data[:12]), 'bone_indices': struct.unpack('<4B', data[12:16]), 'weight': struct.unpack('<4f', data[16:32]),
         'normal': struct.unpack('<fff', data[32:44]), 'uv': struct.unpack('<ff', data[44:52]), 'color': None, 'tangent': None}
    if vtype >= 1:
        c = env.bytes(f'color{i}', 4)
        v['color'] = struct.unpack('<4B', c)
        data += c
    if vtype == 2:
        t = env.bytes(f'tangent{i}', 16)
        v['tangent'] = struct.unpack('<4f', t)
        data += t
    return v, data


def check_vertex(env, got, exp):
    for k, e in exp.items():
        g = got[k]
        if e is None:
            env.check(g is None, f'no {k}')
        elif k in ('bone_indices', 'color'):
            env.check(env.eq(tuple(g), e), k)
        else:
            env.check(len(g) == len(e), k)
            for a, b in zip(g, e):
                env.check(same_float(env, a, b), k)


def num(x):
    return '%s' % x


def rest(env, i, n):
    """What follows the end of a name"""
    if i == 0:
        return bytes(n)
    return env.bytes(f'after name {i}', 2) + b'\0\xffx' + bytes(n - 5)


def mesh(env, major, nverts, nidx, nsub, obj=False):
    m = env.load('cdtb.sknfile')
    minor = env.uint('minor', 16)
    vtype = env.choose('vertex type', (0, 1, 2)) if major == 4 else 0
    verts = []
    vdata = b''
    for i in range(nverts):
        v, d = vertex(env, i, vtype)
        verts.append(v)
        vdata += d
    raw = [env.uint(f'index{i}', 16) for i in range(nidx)]
    data = b'\x33\x22\x11\x00' + le(major, 2) + le(minor, 2)
    subs = []
    counts = le(nidx, 4) + le(nverts, 4)
    if major == 0:
        data += counts
        subs.append(('Unknown', 0, nverts, 0, nidx))
    else:
        data += le(nsub, 4)
        for i in range(nsub):
            name = env.str(f'name{i}', 3 if obj else env.choose(f'namelen{i}', (0, 3)))
            sv = env.choose(f'start{i}', range(nverts + 1))
            vc = nverts - sv if obj else env.choose(f'count{i}', range(nverts - sv + 1))
            si = 0 if obj else 3 * env.choose(f'istart{i}', range(nidx // 3 + 1))
            ic = 3 * env.choose(f'icount{i}', range((nidx - si) // 3 + 1))
            data += name.encode('utf-8') + b'\0' + rest(env, i, 63 - len(name)) + le(sv, 4) + le(vc, 4) + le(si, 4) + le(ic, 4)
            subs.append((name, sv, vc, si, ic))
        if major == 4:
            data += le(env.uint('flags', 32), 4)
        data += counts
        if major == 4:
            data += le(env.uint('vertex size', 32), 4) + le(vtype, 4) + env.bytes('bounds', 40)
    for x in raw:
        data += le(x, 2)
    r = env.call(m.SknFile, io.BytesIO(data + vdata))
    env.check(r.ok, 'accepted')
    s = r.value
    env.check(s.major == major and s.minor == minor, 'version')
    env.check(len(s.entries) == len(subs), 'submeshes')
    for e, (name, sv, vc, si, ic) in zip(s.entries, subs):
        env.check(e['name'] == name, 'name of submesh')
        env.check(len(e['vertices']) == vc, 'number of vertices')
        for got, exp in zip(e['vertices'], verts[sv:sv + vc]):
            check_vertex(env, got, exp)
        env.check(len(e['indices']) == ic, 'number of indices')
        idx = []
        for got, x in zip(e['indices'], raw[si:si + ic]):
            exp = x - sv + 1 if x >= sv else x + 1
            env.check(got == exp, 'index from 1 in the submesh')
            idx.append(exp)
        if obj:
            for x in idx:
                env.assume(x <= 9)
            text = ''
            for v in verts[sv:sv + vc]:
                text += 'v ' + ' '.join(map(num, v['position'])) + '\n'
                text += 'vt ' + ' '.join(map(num, v['uv'])) + '\n'
                text += 'vn ' + ' '.join(map(num, v['normal'])) + '\n'
            for k in range(0, ic, 3):
                text += 'f ' + ' '.join('/'.join([num(x)] * 3) for x in idx[k:k + 3]) + '\n'
            r = env.call(s.to_obj, e)
            env.check(r.ok, 'converted')
            env.check(r.value == text, 'OBJ text')
            env.reach('obj')
    env.reach('done')


def rejected(env):
    m = env.load('cdtb.sknfile')
    magic = env.bytes('magic', 4)
    r = env.call(m.SknFile, io.BytesIO(magic + bytes(60)))
    if magic == b'\x33\x22\x11\x00':
        env.check(r.ok and len(r.value.entries) == 1 and not r.value.entries[0]['vertices'], 'accepted')
        env.reach('accepted')
    else:
        env.check(not r.ok and r.exc_name == 'ValueError', 'another magic number is rejected')
        env.reach('rejected')


CASES = [
    Case('version 0', 'mesh', major=0, nverts=2, nidx=3, nsub=0, reach=['done']),
    Case('version 0 OBJ', 'mesh', major=0, nverts=2, nidx=3, nsub=0, obj=True, reach=['done', 'obj']),
    Case('version 0 empty', 'mesh', major=0, nverts=0, nidx=0, nsub=0, obj=True, reach=['done', 'obj']),
    Case('version 1', 'mesh', major=1, nverts=2, nidx=3, nsub=1, reach=['done']),
    Case('version 1 OBJ', 'mesh', major=1, nverts=2, nidx=3, nsub=1, obj=True, reach=['done', 'obj']),
    Case('version 2', 'mesh', major=2, nverts=1, nidx=6, nsub=1, reach=['done']),
    Case('version 2 OBJ', 'mesh', major=2, nverts=1, nidx=6, nsub=1, obj=True, quick=False, reach=['done', 'obj']),
    Case('version 2 no submesh', 'mesh', major=2, nverts=1, nidx=3, nsub=0, reach=['done']),
    Case('version 4', 'mesh', major=4, nverts=2, nidx=3, nsub=1, reach=['done']),
    Case('version 4 OBJ', 'mesh', major=4, nverts=1, nidx=3, nsub=1, obj=True, reach=['done', 'obj']),
    Case('version 4 2 submeshes', 'mesh', major=4, nverts=1, nidx=3, nsub=2, reach=['done']),
    Case('version 1 2 submeshes', 'mesh', major=1, nverts=3, nidx=3, nsub=2, quick=False, reach=['done']),
    Case('version 4 larger', 'mesh', major=4, nverts=3, nidx=6, nsub=1, quick=False, reach=['done']),
    Case('magic', 'rejected', reach=['accepted', 'rejected']),
]
