"""Faults: one operation of the file system fails, or the process is killed there"""
import errno


class Fault:
    """The operation of a symbolic index fails; `at` is the operation which failed, or None"""

    def __init__(self, env, kind, limit, reads=True, name='failing operation'):
        self.env = env
        self.kind = kind
        self.at = None
        self.n = 0
        self.reads = reads
        self.k = env.int(name, 0, limit)
        self.limit = limit
        env.fs.hook = self.hook

    def hook(self, op, path):
        if self.at is not None or (op == 'open' and not self.reads):
            return
        self.n += 1
        if self.n <= self.limit and self.n - 1 == self.k:
            self.at = (op, path)
            if self.kind == 'crash':
                self.env.fs.crashed = True
                e = self.env.SimCrash()
            else:
                e = OSError(errno.ENOSPC, 'No space left on device')
            if op == 'write':
                e.partial = half
            raise e

    def stop(self):
        """The system works again"""
        self.env.fs.hook = None
        self.env.fs.crashed = False
        return self.at is not None


def half(data):
    return data[:len(data) // 2]


def run(env, kind, f, *args, limit=40, reads=True):
    """Runs with a fault; returns (fault happened, outcome or None when killed)"""
    fault = Fault(env, kind, limit, reads)
    out = []

    def go():
        out.append(env.call(f, *args))
    env.crashing(go)
    happened = fault.stop()
    return happened, (out[0] if out else None)
