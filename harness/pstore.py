"""Patcher storages: a release whose manifest, bundles and files are known"""
from harness.rman import Builder, manifest

URL = 'https://lol.dyn.riotcdn.net/'
BASE = '/st'
GAME_URL = URL + 'channels/public/releases/00000000000000A1.manifest'
CLIENT_URL = URL + 'channels/public/releases/00000000000000A2.manifest'


class Chunk:
    def __init__(self, cid, content, stored):
        self.cid = cid
        self.content = content
        self.stored = stored


class F:
    """A release file"""

    def __init__(self, name, chunks, flags=0, link=None):
        self.name = name
        self.chunks = chunks
        self.flags = flags
        self.link = link


class World:
    """Bundles of chunks with any content; files made of them"""

    def __init__(self, env, bundles, files, flags=(), prefix='', first=1, ids=None):
        """bundles: {bundle id: [chunk content lengths]}"""
        self.env = env
        self.chunks = []
        self.by_id = {}
        ids = iter(ids) if ids else None
        self.bundle_data = {}
        self.bundles = []
        cid = first
        for bid, sizes in bundles.items():
            row = []
            data = b''
            for n in sizes:
                if ids:
                    cid = next(ids)
                content = env.bytes(f'{prefix}chunk{cid}', n) if isinstance(n, int) else n
                c = Chunk(cid, content, env.compressed('zstd', content, 4 + cid % 16))
                self.by_id[cid] = c
                c.bundle = bid
                row.append(c)
                data += c.stored
                self.chunks.append(c)
                cid += 1
            self.bundles.append((bid, row))
            self.bundle_data[bid] = data
        self.files = files
        self.flags = flags
        self.first = first

    def chunk(self, cid):
        return self.by_id[cid]

    def content(self, f):
        out = b''
        for cid in f.chunks:
            out += self.chunk(cid).content
        return out

    def manifest(self):
        b = Builder()
        body = b.body([b.bundle(bid, [(c.cid, len(c.stored), len(c.content)) for c in row]) for bid, row in self.bundles],
                      [b.flag(i + 1, t) for i, t in enumerate(self.flags)],
                      [b.file(k + 1, None, len(self.content(f)), f.name, f.flags or None, f.chunks, f.link) for k, f in enumerate(self.files)], [])
        return manifest(self.env, body)

    def bundle_url(self, bid):
        return f'{URL}channels/public/bundles/{bid:016X}.bundle'

    def bundle_path(self, bid):
        return f'{BASE}/channels/public/bundles/{bid:016X}.bundle'

    def put_bundles(self):
        for bid, data in self.bundle_data.items():
            self.env.fs.put(self.bundle_path(bid), data)

    def needed(self, files):
        out = []
        for f in files:
            for cid in f.chunks:
                b = self.chunk(cid).bundle
                if b not in out:
                    out.append(b)
        return sorted(out)


def manifest_path(url):
    return BASE + '/' + url[len(URL):]


def put_release(env, version=100, patchline='live', **urls):
    data = {f'{k}_patch_url': v for k, v in urls.items()}
    env.fs.put(f'{BASE}/cdtb/releases/{patchline}/{version}/release.json', env.json_bytes(data))
    env.fs.put(f'{BASE}/cdtb/releases/{patchline}/latest.timestamp', f'{version}\n')
    return f'{BASE}/cdtb/releases/{patchline}/{version}'


def setup(env, world, name='game', symlinks=True, bundles=True, patchline='live'):
    """A storage with a release of one element; returns the element"""
    m = env.load('cdtb.patcher')
    url = {'game': GAME_URL, 'client': CLIENT_URL}[name]
    put_release(env, patchline=patchline, **{name: url})
    env.fs.put(manifest_path(url), world.manifest())
    if bundles:
        world.put_bundles()
    s = m.PatcherStorage(BASE, patchline)
    s.use_extract_symlinks = symlinks
    return s, m.PatcherRelease(s, 100).element(name)


def languages(env, kinds=('all', 'none', 'name', 'upper', 'list', 'two', 'other', 'empty')):
    """(argument, predicate on lowercase flags)"""
    k = env.choose('langs', kinds)
    if k == 'all':
        return True, lambda flags: True
    if k == 'none':
        return False, lambda flags: not any(len(f) == 5 and '_' in f for f in flags)
    want = {'name': 'en_us', 'upper': 'FR_FR', 'list': ['en_US'], 'two': ['fr_fr', 'EN_us'], 'other': 'xx_yy', 'empty': []}[k]
    low = [want.lower()] if isinstance(want, str) else [w.lower() for w in want]
    return want, lambda flags: any(f.lower() in low for f in flags)
