"""Release history"""
from symx.runner import Case
from harness.pstore import BASE
from harness.faults import run
from harness.util import DIGITS

META = {
    'bounds': 'histories of up to 3 updates, each with any manifest URLs (names of 1 digit) or an HTTP, data or file system failure (or kill) at any point; both patchlines, configuration data from the CDN, another URL or a file; '
              'release directories with up to 3 releases of any combination of URLs, names of different lengths, and 8 kinds of foreign entries',
    'outside': 'longer histories, updates within the same second, clocks going back, directory names which are integers in another form (05, 1_0)',
    'assumptions': ['the clock increases between updates'],
}
CC = 'https://clientconfig.rpg.riotgames.com/api/v1/config/public?namespace=keystone.products.league_of_legends.patchlines'
SIEVE = 'https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/'


def config(patchline, region, url):
    def line(name, tag):
        return {'platforms': {'win': {'configurations': [
            {'id': 'NA', 'patch_url': f'bad-{tag}-NA'}, {'id': region, 'patch_url': url if name == patchline else f'bad-{tag}'}, {'id': 'TR', 'patch_url': f'bad-{tag}-TR'}]},
            'mac': {'configurations': [{'id': region, 'patch_url': 'bad-mac'}]}}}
    return {f'keystone.products.league_of_legends.patchlines.{n}': line(n, n) for n in ('pbe', 'live', 'other')}


def game(url):
    return {'releases': [{'release': {}, 'download': {'url': url, 'scd_required': True}}]}


class Server:
    def __init__(self, env, patchline, cc=CC):
        self.env = env
        self.region, self.platform = ('PBE', 'PBE1') if patchline == 'pbe' else ('EUW', 'EUW1')
        self.patchline = patchline
        self.cc = cc
        self.client = self.game = None
        self.fail = None
        env.http_handler = self.handle

    def handle(self, method, url, kw):
        env = self.env
        what = 'client' if url == self.cc else 'game' if url.startswith(SIEVE + self.platform + '?') and 'q[platform]=windows' in url and 'q[published]=true' in url else None
        if what is None:
            return None
        if self.fail and self.fail[0] == what:
            k = self.fail[1]
            if k == 'connection':
                return env.connection_error()
            if k == 'status':
                return env.response(json={'x': 1}, status=403)
            if k == 'status with data':
                return env.response(json=config(self.patchline, self.region, 'old') if what == 'client' else game('old'), status=500)
            if k == 'timeout':
                return env.timeout_error()
            if k == 'not JSON':
                return env.response(b'<html>')
            if k == 'no entry':
                return env.response(json=game(self.game) if what == 'client' else config(self.patchline, self.region, self.client))
            if k == 'none':
                return env.response(json=config('zz', 'zz', 'x') if what == 'client' else {'releases': []})
        return env.response(json=config(self.patchline, self.region, self.client) if what == 'client' else game(self.game))


def history(env, base):
    """Releases of the storage, latest first"""
    out = []
    if not env.os.path.isdir(base):
        return out
    for n in sorted((int(n) for n in env.os.listdir(base) if n.isdigit()), reverse=True):
        if env.os.path.isfile(f'{base}/{n}/release.json'):
            out.append((n, env.read_json(f'{base}/{n}/release.json')))
    return out


FAILS = ('connection', 'status', 'status with data', 'timeout', 'not JSON', 'no entry', 'none')


def updates(env, n, patchline, fails=(), fault=None, source='cdn'):
    m = env.load('cdtb.patcher')
    cc = CC
    if source == 'url':
        cc = env.choose('scheme', ('http', 'https')) + '://proxy/config'
    srv = Server(env, patchline, cc)
    s = m.PatcherStorage(BASE, patchline) if patchline != 'live' or env.flag('patchline given') else m.PatcherStorage(BASE)
    if source == 'url':
        s.clientconfig_data = cc
    elif source == 'file':
        s.clientconfig_data = '/conf/data.json'
        srv.cc = 'none'
    base = f'{BASE}/cdtb/releases/{patchline}'
    env.now = 99
    known = []
    at = env.choose('failing update', range(n)) if fails or fault else None
    for i in range(n):
        env.now = env.now + env.choose(f'delay{i}', (1, 901))
        c = 'https://x/' + env.str(f'client{i}', 1, DIGITS)
        g = 'https://y/' + env.str(f'game{i}', 1, DIGITS)
        srv.client, srv.game = c, g
        srv.fail = (env.choose('failing source', ('client', 'game')), env.choose('failure', fails)) if fails and i == at else None
        if source == 'file':
            env.fs.put('/conf/data.json', env.json_bytes(config(patchline, srv.region, c)))
        happened = False
        if fault and i == at:
            happened, r = run(env, fault, s.fetch_latest_update, limit=24)
        else:
            r = env.call(s.fetch_latest_update)
        now = history(env, base)
        if srv.fail:
            env.check(not r.ok, 'failure is raised')
            env.check(env.eq(now, known), 'history is unchanged by a failure')
            continue
        info = {'client_patch_url': c, 'game_patch_url': g}
        if not happened:
            env.check(r.ok, 'update succeeds')
        new = not known or not env.eq(known[0][1], info)
        if new and (not happened or len(now) > len(known)):
            env.check(len(now) == len(known) + 1, 'new release is recorded')
            env.check(env.eq(now[0][1], info), 'release has the current URLs')
            env.check(env.eq(now[1:], known), 'recorded releases are kept')
        else:
            env.check(env.eq(now, known), 'no release is recorded')
        known = now
        if happened:
            env.reach('fault')
    got = env.call(lambda: [(x.version, x.data) for x in s.iter_releases()])
    env.check(got.ok and env.eq(got.value, known), 'releases are listed, latest first')
    other = 'pbe' if patchline == 'live' else 'live'
    env.check(env.eq(list(m.PatcherStorage(BASE, other).iter_releases()), []), 'patchlines do not share releases')
    env.reach(f'{len(known)} releases')


def listing(env, foreign):
    m = env.load('cdtb.patcher')
    patchline = env.choose('patchline', ('live', 'pbe'))
    base = f'{BASE}/cdtb/releases/{patchline}'
    env.fs.put(f'{base}/latest.timestamp', '9\n')
    env.fs.put(f'{BASE}/cdtb/releases/{"pbe" if patchline == "live" else "live"}/77/release.json', env.json_bytes({'game_patch_url': 'x'}))
    exp = []
    urls = ('both', 'client', 'game', 'neither', 'absent') if not foreign else ('both', 'client')
    for v in (1000, 101, 20):
        k = env.choose(f'release {v}', urls + ('incomplete',))
        if k == 'incomplete':
            env.fs.makedirs(f'{base}/{v}/files')
            continue
        data = {}
        if k in ('both', 'client'):
            data['client_patch_url'] = f'c{v}'
        elif k == 'neither':
            data['client_patch_url'] = None
        if k in ('both', 'game'):
            data['game_patch_url'] = f'g{v}'
        elif k == 'neither':
            data['game_patch_url'] = ''
        env.fs.put(f'{base}/{v}/release.json', env.json_bytes(data))
        for n in ('game', 'client'):
            env.fs.put(f'{base}/{v}/patch_version.{n}', {'game': '14.2', 'client': '13.24'}[n])
        exp.append((v, data))
    if foreign:
        k = env.choose('foreign', ('file', 'dir', 'number', 'empty dir', 'tmp', 'name', 'float', 'hexa'))
        if k == 'file':
            env.fs.put(f'{base}/README.md', b'x')
        elif k == 'number':
            env.fs.put(f'{base}/5555', b'x')
        elif k == 'empty dir':
            env.fs.makedirs(f'{base}/5555')
        elif k == 'tmp':
            env.fs.put(f'{base}/5555/.cdtb-1-1.tmp', b'{"game')
        else:
            env.fs.put(f'{base}/' + {'dir': 'old', 'name': '5555-old', 'float': '5555.0', 'hexa': '0x55'}[k] + '/release.json', env.json_bytes({'game_patch_url': 'x'}))
    s = m.PatcherStorage(BASE, patchline)
    got = env.call(lambda: [(x.version, x.data) for x in s.iter_releases()])
    env.check(got.ok and env.eq(got.value, exp), 'releases are listed, latest first')
    pairs = []
    for x, (v, data) in zip(s.iter_releases(), exp):
        names = [n for n in ('game', 'client') if data.get(n + '_patch_url')]
        env.check(sorted(x.available_elements()) == sorted(names), 'available elements')
        es = list(x.elements())
        env.check(sorted(e.name for e in es) == sorted(names), 'elements')
        for e in es:
            env.check(e.release is x and e.manif_url == data[e.name + '_patch_url'], 'element of the release')
        for n in ('game', 'client'):
            one = x.element(n)
            env.check((one is not None) == (n in names), 'element by name')
            if one is not None:
                env.check(one.name == n and one.manif_url == data[n + '_patch_url'], 'element by name')
        pairs.append([(n, ('main' if patchline == 'pbe' else {'game': '14.2', 'client': '13.24'}[n])) for n in names])
    env.check(not env.http_log, 'nothing is requested')
    r = env.call(lambda: [(e.name, str(e.version), e.elem.release.version) for e in s.patch_elements(stored=True)])
    env.check(r.ok, 'patch elements')
    i = 0
    for (v, _), p in zip(exp, pairs):
        env.check(sorted(r.value[i:i + len(p)]) == sorted((n, w, v) for n, w in p), 'patch elements, latest release first')
        i += len(p)
    env.check(i == len(r.value), 'no other patch element')
    env.check(not env.http_log, 'nothing is requested for stored elements')
    env.reach('some' if exp else 'none')


def fresh(env):
    """Patch elements include the latest release"""
    m = env.load('cdtb.patcher')
    srv = Server(env, 'pbe')
    srv.client, srv.game = 'c1', 'g1'
    s = m.PatcherStorage(BASE, 'pbe')
    if env.flag('old'):
        env.fs.put(f'{BASE}/cdtb/releases/pbe/5/release.json', env.json_bytes({'client_patch_url': 'c0', 'game_patch_url': 'g0'}))
        env.fs.put(f'{BASE}/cdtb/releases/pbe/latest.timestamp', '5')
        old = 2
    else:
        old = 0
    env.check(len(list(s.patch_elements(stored=True))) == old, 'stored elements')
    got = [(e.name, e.elem.manif_url) for e in s.patch_elements()]
    env.check(sorted(got[:2]) == [('client', 'c1'), ('game', 'g1')], 'latest release first')
    env.check(sorted(got[2:]) == [('client', 'c0'), ('game', 'g0')][:old], 'older releases')
    env.check(len(env.http_log) == 2, 'fetched once')
    env.reach('done')


CASES = [
    Case('3 updates, live', 'updates', n=3, patchline='live', reach=['1 releases', '2 releases', '3 releases']),
    Case('3 updates, pbe', 'updates', n=3, patchline='pbe', reach=['1 releases', '2 releases', '3 releases']),
    Case('other URL', 'updates', n=2, patchline='live', source='url', reach=['1 releases', '2 releases']),
    Case('file', 'updates', n=2, patchline='pbe', source='file', reach=['1 releases', '2 releases']),
    Case('failures', 'updates', n=3, patchline='live', fails=FAILS, reach=['1 releases', '2 releases']),
    Case('failing operation', 'updates', n=3, patchline='live', fault='error', reach=['fault', '1 releases', '2 releases', '3 releases']),
    Case('kill', 'updates', n=3, patchline='pbe', fault='crash', reach=['fault', '1 releases', '2 releases', '3 releases']),
    Case('listing', 'listing', foreign=False, reach=['some', 'none']),
    Case('foreign entries', 'listing', foreign=True, reach=['some', 'none']),
    Case('latest', 'fresh', reach=['done']),
    Case('4 updates', 'updates', n=4, patchline='live', quick=False, reach=['1 releases', '4 releases']),
    Case('4 updates, failures', 'updates', n=4, patchline='pbe', fails=FAILS, quick=False, reach=['1 releases', '3 releases']),
    Case('4 updates, kill', 'updates', n=4, patchline='live', fault='crash', quick=False, reach=['fault', '4 releases']),
]
