"""Patches made of stored files, exported by a patch exporter"""
from harness.util import le, wad_header, wad_entry


class Element:
    def __init__(self, files):
        self.files = files
        self.downloaded = 0

    def download(self, langs=True, path=None):
        self.downloaded += 1

    def paths(self, langs=True):
        for source, path in self.files:
            yield source, path

    def __iter__(self):
        return iter((self,))


class Patch:
    """A stored patch: files {export path: (source, content)}; archives give a list of (hash, content, checksum)"""

    def __init__(self, env, version, files):
        self.env = env
        self.version = env.load('cdtb.storage').PatchVersion(version)
        self.files = files
        for path, (source, content) in files.items():
            put(env, source, content)
        rows = [(source, path) for path, (source, _) in files.items()]
        half = (len(rows) + 1) // 2
        self.elements = [Element(rows[:half]), Element(rows[half:])]

    def latest(self):
        return self

    def __repr__(self):
        return f'<Patch {self.version}>'


def archive(entries):
    """Content of an archive"""
    head = wad_header(4, len(entries))
    offset = 272 + 32 * len(entries)
    body = b''
    for h, content, checksum in entries:
        head += wad_entry(h, offset + len(body), len(content), len(content), 0, 0, checksum)
        body += content
    return head + body


def put(env, source, content):
    if isinstance(content, list):
        content = archive(content)
    env.fs.put(source, content)


class NoData:
    """Game data which is exported separately"""
    calls = []

    def __init__(self, input_dir, game_version=None):
        self.args = (input_dir, game_version)

    def export(self, output, langs=None):
        NoData.calls.append((self.args, output, langs))


def setup(env, hashes, image=True):
    """Known hashes, and stand-ins for the image library and the exports of game data"""
    h = env.load('cdtb.hashes')
    h.hashfile_game.hashes = dict(hashes)
    h.hashfile_lcu.hashes = dict(hashes)
    r = env.load('cdtb.rstfile')
    r.hashfile_rst_xxh3.hashes = {}
    r.hashfile_rst_xxh64.hashes = {}
    NoData.calls = []
    env.load('cdtb.tftdata').TftTransformer = NoData
    env.load('cdtb.arenadata').ArenaTransformer = NoData
    env.libs['image_open'] = Picture


class Picture:
    def __init__(self, f):
        self.data = f.read()

    def save(self, f, *args, **kw):
        f.write(b'PNG')
        f.write(self.data)


def export(env, output, patch, previous=None, symlinks=None, overwrite=True):
    """Export a patch; gives the outcome"""
    m = env.load('cdtb.export')

    def go():
        e = m.CdragonRawPatchExporter(output, patch, previous, symlinks=symlinks)
        return e.process(overwrite=overwrite)
    return env.call(go)


def lines(env, path):
    """Lines of a text file, None if there is none"""
    c = env.fs.content(path)
    if c is None:
        return None
    if len(c) == 0:
        return []
    text = c.decode('utf-8')
    rows = text.split('\n')
    env.check(rows[-1] == '', 'lists end with a line break')
    return rows[:-1]


def view(env, root):
    """[(path, content)] of the files which are reachable below a directory, through links"""
    out = []

    def rec(prefix, n, depth):
        for name, c in n.entries.items():
            p = prefix + name
            if c.kind == 'link':
                c = env.fs.lookup(root + '/' + p)
                env.check(c is not None, 'links are not broken')
            if c.kind == 'dir':
                env.check(depth < 8, 'links make no loop')
                rec(p + '/', c, depth + 1)
            else:
                out.append((p, c.content))
    n = env.fs.lookup(root)
    if n is not None:
        rec('', n, 0)
    return out


def links(env, root):
    """Paths of the links below a directory"""
    t = env.fs.tree(root)
    return [p for p in t if t[p][0] == 'l']


def same_trees(env, a, b):
    return len(a) == len(b) and all(p in b and a[p] == b[p] for p in a)
