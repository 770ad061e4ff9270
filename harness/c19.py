"""Protected writes"""
import errno
from symx.runner import Case
from harness.faults import Fault, half

META = {
    'bounds': 'files of up to 3 writes of up to 2 bytes (any content) and directories of up to 4 entries (files, subdirectories, links); an exception of 11 types (including those which are no Exception) at every point of the writing code; '
              'up to 2 file system operations failing at any point, or a kill at any point; output missing, existing with another content, or a link; existing or missing parent directories; nested and interleaved writes',
    'outside': 'output paths without directory part; file systems which lose written data; two processes writing the same path at once',
    'assumptions': ['a rename is atomic', 'a failing write may write a part of its data, other failing operations have no effect'],
}


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


EXC = {'ValueError': ValueError, 'OSError': OSError, 'FileNotFoundError': FileNotFoundError, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
       'GeneratorExit': GeneratorExit, 'StopIteration': StopIteration, 'MemoryError': MemoryError, 'RuntimeError': RuntimeError, 'Custom': Custom, 'CustomBase': CustomBase}
OUT = '/out'
PARENTS = {'existing': '/out', 'missing': '/out/a', 'deep': '/out/a/b/c', 'root': ''}


def other_files(env):
    env.fs.put('/out/other.txt', b'other')
    env.fs.put('/out/file.txt.json', b'json')
    env.fs.put('/keep/target.bin', b'target')
    env.fs.put('/keep/dir/x', b'x')


def others_kept(env):
    for p, c in (('/out/other.txt', b'other'), ('/out/file.txt.json', b'json'), ('/keep/target.bin', b'target'), ('/keep/dir/x', b'x')):
        env.check(env.fs.content(p) == c, 'other files are not touched')


def file_output(env, parents, states):
    """Path of an output, and its previous content"""
    base = PARENTS[env.choose('parent', parents)]
    path = base + '/file.txt'
    state = env.choose('before', states)
    old = None
    if state == 'file':
        old = env.bytes('old', 2)
        env.fs.put(path, old)
    elif state == 'empty':
        old = b''
        env.fs.put(path, old)
    elif state == 'dangling':
        env.fs.makedirs(base or '/', exist_ok=True)
        env.fs.symlink('nowhere', path)
    elif state == 'link':
        env.fs.makedirs(base or '/', exist_ok=True)
        env.fs.symlink('/keep/target.bin', path)
        old = b'target'
    return path, old


def writing(env, nwrites, text=False):
    data = [(env.str(f'data{i}', 1 + i % 2, 'abé\n') if text else env.bytes(f'data{i}', 2 - i % 2)) for i in range(nwrites)]
    total = '' if text else b''
    for d in data:
        total = total + d
    return data, (total.encode('utf-8') if text else total)


def attempt(cls, f):
    """The exception of this class raised by a function"""
    try:
        f()
    except cls as e:
        return e
    return None


def file_raises(env, nwrites, parents, states, text=False):
    """The code which writes ends, or raises at any point"""
    m = env.load('cdtb.tools')
    other_files(env)
    path, old = file_output(env, parents, states)
    data, total = writing(env, nwrites, text)
    at = env.choose('fails before write', list(range(nwrites + 1)) + [None])
    cls = EXC[env.choose('exception', EXC)] if at is not None else CustomBase
    exc = cls()
    ctx = []

    def go():
        with (m.write_file_or_remove(path, False) if text else m.write_file_or_remove(path) if nwrites != 2 else m.write_file_or_remove(path, binary=True)) as f:
            ctx.append(f)
            for i, d in enumerate(data):
                if at == i:
                    raise exc
                f.write(d)
            if at == nwrites:
                raise exc
    e = attempt(cls, go)
    env.check(len(ctx) == 1, 'output is opened for writing')
    env.check(ctx[0].closed, 'file is closed')
    if at is None:
        env.check(e is None, 'no exception')
        env.check(env.fs.content(path) == total, 'data is written')
        env.reach('written')
    else:
        env.check(e is exc, 'the original exception is raised')
        env.check(not env.os.path.lexists(path), 'nothing is left')
        env.reach('failed')
    others_kept(env)
    leftovers(env, [path])


def leftovers(env, paths):
    """No other file than known ones"""
    known = ['/out/other.txt', '/out/file.txt.json', '/keep/target.bin', '/keep/dir/x'] + paths
    for p in env.fs.files('/'):
        env.check(any('/' + p == k or ('/' + p).startswith(k + '/') for k in known), 'no other file is left')


def file_faults(env, nwrites, parents, states, kind='error', text=False, body=False, limit=9):
    """An operation fails, or the process is killed, while writing; with another failure in the code which writes"""
    m = env.load('cdtb.tools')
    other_files(env)
    path, old = file_output(env, parents, states)
    data, total = writing(env, nwrites, text)
    exc = Custom()
    progress = []

    def go():
        with m.write_file_or_remove(path, not text) as f:
            for d in data:
                f.write(d)
            progress.append('written')
            if body:
                raise exc
    fault = Fault(env, kind, limit)
    out = []
    killed = env.crashing(lambda: out.append(env.call(go)))
    happened = fault.stop()
    c = env.fs.content(path)
    if kind == 'crash' and happened:
        env.check(not out, 'killed')
        env.check(c is None and (old is None or body) or old is not None and c is not None and same(c, old) or not body and c is not None and same(c, total), 'complete or absent after a kill')
        env.reach('killed')
    else:
        r = out[0]
        if body:
            env.check(not r.ok and (r.exc is exc if 'written' in progress else isinstance(r.exc, OSError)), 'original exception is raised')
            removing = happened and fault.at[0] == 'remove'
        else:
            env.check(r.ok == (not happened), 'failure is raised')
            removing = False
            if happened:
                env.check(isinstance(r.exc, OSError) and r.exc.errno == errno.ENOSPC, 'original exception is raised')
        if r.ok:
            env.check(c == total, 'data is written')
            env.reach('written')
        else:
            if removing:
                env.check(c is None or old is not None and same(c, old), 'no partial output')
                env.reach('not removed')
            else:
                env.check(not env.os.path.lexists(path), 'nothing is left')
                leftovers(env, [path])
            env.reach('failed')
    others_kept(env)


def same(a, b):
    return len(a) == len(b) and a == b


class TwoFaults:
    """Two operations fail, with different errors"""

    def __init__(self, env, limit):
        self.env = env
        self.raised = []
        self.n = 0
        self.k = [env.int('first', 0, limit), env.int('second', 0, limit)]
        env.assume(self.k[0] < self.k[1])
        self.limit = limit
        env.fs.hook = self.hook

    def hook(self, op, path):
        i = len(self.raised)
        n = self.n
        self.n += 1
        if i < 2 and n <= self.limit and n == self.k[i]:
            e = OSError(errno.ENOSPC if i == 0 else errno.EACCES, 'failed')
            if op == 'write':
                e.partial = half
            self.raised.append((e, op))
            raise e


def two_faults(env, nwrites, states):
    """Cleaning up fails too"""
    m = env.load('cdtb.tools')
    other_files(env)
    path, old = file_output(env, ('existing', 'missing'), states)
    data, total = writing(env, nwrites)

    def go():
        with m.write_file_or_remove(path) as f:
            for d in data:
                f.write(d)
    fault = TwoFaults(env, 8)
    r = env.call(go)
    env.fs.hook = None
    c = env.fs.content(path)
    if fault.raised:
        env.check(not r.ok, 'failure is raised')
        env.check(r.exc is fault.raised[0][0], 'original exception is raised')
        env.check(c is None or old is not None and same(c, old), 'no partial output')
        env.reach(f'{len(fault.raised)} failures')
    else:
        env.check(r.ok and c == total, 'data is written')
    others_kept(env)
    again = env.call(go)
    env.check(again.ok and env.fs.content(path) == total, 'another attempt succeeds')


def nested(env):
    """Several outputs at once"""
    m = env.load('cdtb.tools')
    other_files(env)
    a, b = env.bytes('a', 2), env.bytes('b', 2)
    pa = '/out/d/file.txt'
    pb = env.choose('second', ('/out/d/file2.txt', '/out/d/file.txt.2', '/out/file.txt', '/out/d/.file.txt'))
    raises = env.choose('raises', ('none', 'inner', 'outer'))
    exc = Custom()

    def go():
        with m.write_file_or_remove(pa) as fa:
            fa.write(a[:1])
            inner()
            fa.write(a[1:])
            if raises == 'outer':
                raise exc

    def inner():
        try:
            with m.write_file_or_remove(pb) as fb:
                fb.write(b)
                if raises == 'inner':
                    raise exc
        except Custom:
            pass
    e = attempt(Custom, go)
    env.check(e is (exc if raises == 'outer' else None), 'original exception is raised')
    env.check((env.fs.content(pa) is None) if raises == 'outer' else env.fs.content(pa) == a, 'first output')
    env.check((env.fs.content(pb) is None) if raises == 'inner' else env.fs.content(pb) == b, 'second output')
    others_kept(env)
    leftovers(env, [pa, pb])
    env.reach(raises)


ENTRIES = {'file': 1, 'subdirectory': 2, 'link to file': 3, 'link to directory': 4, 'dangling link': 5}


def fill(env, path, kind, data):
    if kind == 'file':
        env.fs.put(path + '/file', data)
    elif kind == 'subdirectory':
        env.fs.put(path + '/sub/a/file', data)
        env.fs.makedirs(path + '/sub/empty')
    elif kind == 'link to file':
        env.fs.symlink('/keep/target.bin', path + '/link')
    elif kind == 'link to directory':
        env.fs.symlink('/keep/dir', path + '/linkdir')
    elif kind == 'dangling link':
        env.fs.symlink('nowhere', path + '/dangling')


def directory(env, kind='none', n=2, limit=10, entries=tuple(ENTRIES)):
    m = env.load('cdtb.tools')
    other_files(env)
    path = PARENTS[env.choose('parent', ('existing', 'missing', 'deep'))] + '/dir'
    before = env.choose('before', ('missing', 'empty', 'filled'))
    if before != 'missing':
        env.fs.makedirs(path, exist_ok=True)
    if before == 'filled':
        env.fs.put(path + '/old', b'old')
    what = [env.choose(f'entry{i}', [e for j, e in enumerate(entries) if j % n == i]) for i in range(n)]
    data = env.bytes('data', 2)
    at = env.choose('fails at', list(range(n + 1)) + [None]) if kind != 'crash' else None
    cls = EXC[env.choose('exception', EXC if kind == 'none' else ['Custom'])] if at is not None else CustomBase
    exc = cls()
    done = []

    def go():
        with m.write_dir_or_remove(path):
            env.check(env.os.path.isdir(path), 'directory exists')
            done.append('start')
            for i, k in enumerate(what):
                if at == i:
                    raise exc
                fill(env, path, k, data)
            if at == n:
                raise exc
            done.append('end')
    if kind == 'none':
        e = attempt(cls, go)
        ok, raised = e is None, e
        happened = None
    else:
        fault = Fault(env, kind, limit)
        out = []
        env.crashing(lambda: out.append(env.call(go)))
        happened = fault.stop()
        ok, raised = (out[0].ok, out[0].exc) if out else (False, None)
    others_kept(env)
    if ok:
        env.check(at is None, 'failure is raised')
        for i, k in enumerate(what):
            p = {'file': '/file', 'subdirectory': '/sub/a/file', 'link to file': '/link', 'link to directory': '/linkdir/x', 'dangling link': None}[k]
            if p:
                env.check(env.fs.content(path + p) == {'file': data, 'subdirectory': data, 'link to file': b'target', 'link to directory': b'x'}[k], 'content of the directory')
            else:
                env.check(env.os.path.islink(path + '/dangling'), 'content of the directory')
        env.check(before != 'filled' or env.fs.content(path + '/old') == b'old', 'other entries of the directory')
        env.reach('written')
        return
    if kind == 'none':
        env.check(raised is exc, 'original exception is raised')
        env.check(not env.os.path.lexists(path), 'nothing is left')
        leftovers(env, [])
        env.reach('failed')
    elif happened and fault.at[0] in ('remove', 'rmdir'):
        env.check(raised is exc, 'failing to clean up does not hide the original error')
        left = [p for p in env.fs.files(path)] if env.os.path.isdir(path) else []
        env.check(len(left) <= 1, 'cleaning up goes on after a failure')
        env.reach('not removed')
    else:
        env.check(raised is exc or isinstance(raised, OSError), 'original exception is raised')
        env.check(not env.os.path.lexists(path), 'nothing is left')
        env.reach('failed')


def not_a_directory(env):
    """The output can't be created"""
    m = env.load('cdtb.tools')
    other_files(env)
    case = env.choose('case', ('parent of file', 'parent of dir', 'file is a directory', 'dir is a file', 'long name'))
    ran = []

    def go():
        if case in ('parent of file', 'file is a directory', 'long name'):
            path = {'parent of file': '/out/other.txt/sub/file', 'file is a directory': '/keep/dir', 'long name': '/out/' + 'x' * 300}[case]
            with m.write_file_or_remove(path) as f:
                ran.append(1)
                f.write(b'data')
        else:
            with m.write_dir_or_remove('/out/other.txt' if case == 'dir is a file' else '/out/other.txt/sub'):
                ran.append(1)
    r = env.call(go)
    env.check(not r.ok and isinstance(r.exc, OSError), 'error is raised')
    env.check(env.os.path.isdir('/keep/dir') and env.fs.content('/keep/dir/x') == b'x', 'directory is kept')
    others_kept(env)
    leftovers(env, [])
    env.reach('done')


ALL = ('missing', 'file', 'empty', 'dangling', 'link')
CASES = [
    Case('file', 'file_raises', nwrites=2, parents=('existing', 'deep'), states=('missing', 'file', 'link'), reach=['written', 'failed']),
    Case('file states', 'file_raises', nwrites=1, parents=('missing', 'root'), states=ALL, reach=['written', 'failed']),
    Case('empty file', 'file_raises', nwrites=0, parents=('missing',), states=('missing', 'file'), reach=['written', 'failed']),
    Case('text', 'file_raises', nwrites=2, parents=('missing',), states=('missing', 'file'), text=True, reach=['written', 'failed']),
    Case('file, failing operation', 'file_faults', nwrites=2, parents=('existing', 'missing', 'deep'), states=('missing', 'file', 'link'), reach=['written', 'failed']),
    Case('text, failing operation', 'file_faults', nwrites=2, parents=('existing',), states=('missing', 'file'), text=True, reach=['written', 'failed']),
    Case('file, failing code and operation', 'file_faults', nwrites=2, parents=('existing', 'missing'), states=ALL, body=True, reach=['failed', 'not removed']),
    Case('file, kill', 'file_faults', nwrites=3, parents=('existing', 'deep'), states=ALL, kind='crash', reach=['written', 'killed']),
    Case('file, failing code and kill', 'file_faults', nwrites=1, parents=('existing',), states=('missing', 'file'), kind='crash', body=True, reach=['killed', 'failed']),
    Case('2 failing operations', 'two_faults', nwrites=1, states=('missing', 'file'), reach=['1 failures', '2 failures']),
    Case('2 outputs', 'nested', reach=['none', 'inner', 'outer']),
    Case('directory', 'directory', reach=['written', 'failed']),
    Case('directory, failing operation', 'directory', kind='error', entries=('file', 'subdirectory', 'link to file', 'dangling link'), limit=8, reach=['written', 'failed', 'not removed']),
    Case('no output', 'not_a_directory', reach=['done']),
    Case('file, more writes', 'file_faults', nwrites=6, parents=('deep',), states=ALL, limit=14, quick=False, reach=['written', 'failed']),
    Case('directory of 4', 'directory', n=4, entries=('file', 'subdirectory', 'link to file', 'link to directory', 'dangling link'), quick=False, reach=['written', 'failed']),
]
