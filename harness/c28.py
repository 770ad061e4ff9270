"""TEX textures"""
from symx.runner import Case
from harness.util import le

META = {
    'bounds': 'every header of 12 bytes (any size, format and flags), with contents of any length (up to 64 MiB for one level, with any content) at least as large as the largest level when there are several; every content of less than 12 bytes, or without magic code',
    'outside': 'textures with several levels which are shorter than their largest level, or of width or height 0; RGBA16 textures with several levels may be refused; the decoding of DDS images by the image library',
    'assumptions': [],
}
BC = {0x0a: (b'DXT1', None, 8), 0x0c: (b'DXT5', None, 16), 0x0d: (b'DX10', 99, 16), 0x0e: (b'DX10', 84, 16)}
FORMATS = tuple(BC) + (0x14, 0x15)


def u32(b, at):
    return int.from_bytes(b[at:at + 4], 'little')


def check_header(env, dds, w, h, f):
    """Returns the size of the headers"""
    env.check(dds[:4] == b'DDS ' and u32(dds, 4) == 124, 'DDS header')
    flags = u32(dds, 8)
    env.check((flags & 0x1007) == 0x1007, 'fields which are present')
    env.check(u32(dds, 12) == h, 'height')
    env.check(u32(dds, 16) == w, 'width')
    env.check(u32(dds, 28) <= 1, 'one level')
    env.check(u32(dds, 76) == 32, 'pixel format header')
    env.check(u32(dds, 108) & 0x1000 == 0x1000, 'texture')
    pf = u32(dds, 80)
    if f == 0x14:
        env.check(pf == 0x41, 'uncompressed with alpha')
        env.check(u32(dds, 88) == 32, 'bits per pixel')
        env.check([u32(dds, 92 + 4 * i) for i in range(4)] == [0xff0000, 0xff00, 0xff, 0xff000000], 'BGRA')
        return 128
    env.check(pf == 4, 'compressed')
    cc, dxgi = BC[f][:2] if f in BC else (b'DX10', 13)
    env.check(dds[84:88] == cc, 'format')
    if dxgi is None:
        return 128
    env.check(u32(dds, 128) == dxgi, 'extended format')
    env.check(u32(dds, 132) == 3 and u32(dds, 140) == 1, 'two dimensions, one image')
    return 148


def level_size(f, w, h):
    """Size of the largest level"""
    if f == 0x14:
        return w * h * 4
    if f == 0x15:
        return w * h * 8
    return ((w + 3) // 4) * ((h + 3) // 4) * BC[f][2]


def header(env, f, flags, w=None, h=None):
    w = env.uint('width', 16) if w is None else w
    h = env.uint('height', 16) if h is None else h
    return w, h, b'TEX\x00' + w.to_bytes(2, 'little') + h.to_bytes(2, 'little') + env.bytes('unknown1', 1) + bytes([f]) + env.bytes('unknown2', 1) + flags


def single(env, maxlen):
    m = env.load('cdtb.export')
    f = env.choose('format', FORMATS)
    w, h, head = header(env, f, b'\x00')
    data = env.buf('pixels', maxlen)
    r = env.call(m.TexConverter.tex_to_dds, head + data)
    env.check(r.ok, 'converted')
    n = check_header(env, r.value, w, h, f)
    env.check(env.eq(r.value[n:], data), 'pixel data')
    env.reach(f'{f:x}')


def levels(env, maxlen, widths=None, heights=None, wmax=65535, formats=FORMATS):
    """One or both of the sizes are any"""
    m = env.load('cdtb.export')
    f = env.choose('format', formats)
    flag = env.bytes('flag', 1)
    w, h, head = header(env, f, flag, env.choose('width', widths) if widths else env.int('width', 1, wmax), env.choose('height', heights) if heights else env.int('height', 1, wmax))
    env.assume(flag[0] != 0)
    smaller = env.buf('smaller', maxlen)
    size = level_size(f, w, h)
    largest = env.buf('largest', level_size(f, (max(widths) if widths else wmax) + 3, (max(heights) if heights else wmax) + 3))
    env.assume(len(largest) == size)
    r = env.call(m.TexConverter.tex_to_dds, head + smaller + largest)
    if f == 0x15 and not r.ok:
        env.check(r.exc_name == 'FileConversionError', 'refused')
        env.reach('refused')
        return
    env.check(r.ok, 'converted')
    n = check_header(env, r.value, w, h, f)
    env.check(env.eq(r.value[n:], largest), 'pixel data of the largest level')
    env.reach(f'{f:x}')


def refused(env):
    m = env.load('cdtb.export')
    what = env.choose('what', ('short', 'magic', 'format'))
    if what == 'short':
        data = (b'TEX\x00' + env.bytes('rest', 7))[:env.choose('length', range(12))]
    elif what == 'magic':
        data = env.bytes('data', 14)
        env.assume(data[:4] != b'TEX\x00')
    else:
        data = b'TEX\x00' + env.bytes('data', 12)
        for f in FORMATS:
            env.assume(data[9] != f)
    r = env.call(m.TexConverter.tex_to_dds, data)
    env.check(not r.ok and r.exc_name == 'FileConversionError', 'refused with a conversion error')
    env.reach(what)


CASES = [
    Case('one level', 'single', maxlen=1 << 26, reach=['a', 'c', 'd', 'e', '14', '15']),
    Case('several levels, any width, 8 bytes', 'levels', maxlen=1 << 24, heights=(3,), formats=(0x0a, 0x15), reach=['a']),
    Case('several levels, any width, 16 bytes', 'levels', maxlen=1 << 24, heights=(5,), formats=(0x0c, 0x0d, 0x0e), reach=['c', 'd', 'e']),
    Case('several levels, any width, uncompressed', 'levels', maxlen=1 << 24, heights=(4,), formats=(0x14,), reach=['14']),
    Case('several levels, any height', 'levels', maxlen=1 << 24, widths=(6,), formats=(0x0a, 0x0e, 0x14), reach=['a', 'e', '14']),
    Case('several levels, other heights', 'levels', maxlen=1 << 24, widths=(1, 2, 3, 4, 7, 64), quick=False, reach=['a', 'c', 'd', 'e', '14']),
    Case('several levels, small', 'levels', maxlen=1 << 8, wmax=12, reach=['a', 'c', 'd', 'e', '14']),
    Case('several levels, other sizes', 'levels', maxlen=1 << 24, heights=(16, 33, 127, 128, 255, 512, 1000, 1024, 2047, 4096, 65535), quick=False, reach=['a', 'c', 'd', 'e', '14']),
    Case('several levels, any size', 'levels', maxlen=1 << 10, wmax=64, quick=False, reach=['a', 'c', 'd', 'e', '14']),
    Case('refused', 'refused', reach=['short', 'magic', 'format']),
]
