"""The simulated world: event counter, fault plan, knobs, file system.

One World is current at a time (World.cur).  Every raw I/O request on the
simulated file system and every call into the native codec passes through
World.event(), which numbers it, logs it into a running digest, lets the
scheduler switch threads, and fires planned faults.  Nothing here reads a real
clock or an unseeded random source.
"""
import errno
import hashlib
import random


class SimAbort(BaseException):
    """Base of exceptions raised by the simulator itself (not by faults)."""


class StepBudget(SimAbort):
    """The code under test exceeded its step or event budget."""


class HarnessError(Exception):
    pass


IO_EVENTS = ('open', 'read', 'write', 'seek', 'close', 'stat', 'trunc',
             'sync', 'rename', 'unlink', 'link', 'mkdir')
NATIVE_EVENTS = ('compress', 'decompress', 'alloc')

# fault kind -> event kinds on which it can fire
ELIGIBLE = {
    'eio_read': ('read',),
    'eio_write': ('write',),
    'enospc': ('write',),
    'enospc_partial': ('write',),
    'eopen': ('open',),
    'eclose': ('close',),
    'eio_seek': ('seek',),
    'estat': ('stat',),
    'kbint': IO_EVENTS + NATIVE_EVENTS,
    'memerr': ('read', 'compress', 'decompress', 'alloc'),
    'shrink': ('read',),
    'grow': ('read', 'open', 'stat'),
    'codec_fail': ('compress', 'decompress'),
}


class World(object):
    cur = None

    def __init__(self, fs, knobs=None):
        self.fs = fs
        knobs = knobs or {}
        self.knobs = knobs
        self.n = 0                      # event counter (logical time)
        self.kind_counts = {}
        self.digest = hashlib.blake2b(digest_size=12)
        self.plan = []                  # armed faults
        self.fired = []                 # (kind, event number, event kind)
        self.counting = None            # dict kind->eligible count, dry run
        self.path_filter = None
        self.handles = set()
        self.dropped = []               # closed by the garbage collector only
        self.sched = None
        self.max_events = 2000000
        self.event_limit = None         # absolute event number limit
        self.steps = 0
        self.step_limit = None
        self.rng = random.Random(knobs.get('io_seed', 0))
        self.alloc_limit = None         # larger single allocations fail
        self.alloc_refused = 0
        self.full = None                # sticky ENOSPC active
        self.trace = None               # optional list of readable events
        self.stdout = None
        self.hooks = []                 # callables (kind, info)
        self.cur_read_path = None

    # -- events ---------------------------------------------------------
    def event(self, kind, path='', a=0, b=0, extra=None):
        self.n += 1
        self.kind_counts[kind] = self.kind_counts.get(kind, 0) + 1
        line = '%d %s %s %s %s' % (self.n, kind, path, a, b)
        self.digest.update(line.encode('utf-8', 'surrogateescape'))
        if self.trace is not None and len(self.trace) < 20000:
            self.trace.append(line)
        if self.event_limit is not None and self.n > self.event_limit:
            raise StepBudget('more than %d I/O events' % self.event_limit)
        if self.n > self.max_events:
            raise StepBudget('event cap')
        if self.sched is not None:
            self.sched.io_point(kind)
        for h in self.hooks:
            h(kind, path, a, b, extra)
        if self.plan:
            return self._faults(kind, path, a, b)
        return None

    def _faults(self, kind, path, a, b):
        """May raise; may return a dict modifying the operation."""
        out = None
        for f in self.plan:
            if f.get('done'):
                if f.get('sticky') and kind in ELIGIBLE[f['kind']] and \
                        (not f.get('path') or f['path'] == path) and \
                        (f['sticky'] is True or f.get('more', 0) < f['sticky']):
                    f['more'] = f.get('more', 0) + 1
                    self._fire(f, kind, path, a, b, again=True)
                continue
            ev = ELIGIBLE[f['kind']]
            ekind = kind
            if kind not in ev:
                continue
            if f.get('path') and f['path'] != path:
                continue
            f['seen'] = f.get('seen', 0) + 1
            if f['k'] is None:
                continue                # dry run: only count
            if f['seen'] == f['k'] + 1:
                f['done'] = True
                self.fired.append((f['kind'], self.n, ekind, path))
                r = self._fire(f, kind, path, a, b)
                if r:
                    out = r
        return out

    def _fire(self, f, kind, path, a, b, again=False):
        k = f['kind']
        if k == 'eio_read' or k == 'eio_write' or k == 'eio_seek' \
                or k == 'estat':
            raise OSError(f.get('errno', errno.EIO), 'simulated I/O error', path or None)
        if k == 'enospc':
            raise OSError(errno.ENOSPC, 'simulated: no space left', path)
        if k == 'enospc_partial':
            if again:
                raise OSError(errno.ENOSPC, 'simulated: no space left', path)
            return {'short': f.get('frac2', 0.5)}
        if k == 'eopen':
            raise OSError(f.get('errno', errno.EMFILE), 'simulated: open failed', path)
        if k == 'eclose':
            return {'close_error': f.get('errno', errno.EIO)}
        if k == 'kbint':
            raise KeyboardInterrupt('simulated')
        if k == 'memerr':
            raise MemoryError('simulated')
        if k == 'codec_fail':
            import blosc
            raise blosc.blosc_extension.error('simulated codec failure') \
                if hasattr(blosc, 'blosc_extension') else RuntimeError('codec')
        if k == 'shrink':
            ino = self.fs.paths.get(path)
            if ino is not None:
                self.fs.truncate_ino(ino, int(len(ino.data) * f.get('frac2', 0.5)))
            return None
        if k == 'grow':
            # somebody else appends to an input
            ino = self.fs.paths.get(path)
            if ino is not None:
                ino.data += bytes((i * 7 + 3) & 255 for i in range(1 + int(f.get('frac2', .5) ** 4 * 20000)))
            return None
        raise HarnessError('unknown fault %r' % k)

    # -- steps ----------------------------------------------------------
    def step(self):
        self.steps += 1
        if self.step_limit is not None and self.steps > self.step_limit:
            raise StepBudget('more than %d loop steps' % self.step_limit)

    def io_size(self, want, what):
        """How much of a raw transfer of `want` bytes really happens."""
        mode = self.knobs.get('gran', 'full')
        if want <= 1 or mode == 'full':
            return want
        if mode == 'one':
            return 1
        if mode == 'tiny':
            return min(want, self.rng.randint(1, 7))
        if mode == 'half':
            return (want + 1) // 2
        if mode == 'rare':
            return want if self.rng.random() < 0.9 else self.rng.randint(1, want)
        return self.rng.randint(1, want)

    def bufsize(self):
        return self.knobs.get('buf', 8192)

    def finish_digest(self, *parts):
        for p in parts:
            self.digest.update(repr(p).encode('utf-8', 'surrogateescape'))
        return self.digest.hexdigest()
