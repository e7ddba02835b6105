"""C11: no file handle outlives the operation that opened it."""
from .common import *
from .. import kit

ID = 'C11'
COUNTS = {'quick': 9000, 'thorough': 250000}
RULE = ('one run = one operation of the kit, good or bad, with or without faults at any I/O or '
        'codec event; as soon as it returns or raises (its exception and frames kept alive), no '
        'handle it opened by name may be open, and the file objects of the caller are open and '
        'usable; fingerprint = (operation, what is wrong with it, faults fired, outcome)')
PROBES = ('ok', 'failed', 'faulted', 'caller-fp', 'caller-fp-failed', 'eclose', 'eopen', 'kbint',
          'bad:damaged', 'bad:truncated', 'bad:version', 'bad:notarray')
# caller's file objects, mostly
FPOPS = ['pack:fp', 'unpack:fp', 'append:fp']


def scenario(rng, tier):
    scn = {'level': level(rng), 'knobs': gen.knobs(rng), 'faults': []}
    if rng.random() < .25:
        scn['op'] = kit.spec(rng, .4, surfaces=FPOPS)
        scn['keep'] = True
    else:
        scn['op'] = kit.spec(rng, .35)
        scn['keep'] = False
    if rng.random() < .6:
        scn['faults'] = [fault_spec(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    return scn


def run(scn, cx):
    set_level(scn['level'])
    w = cx.world(None)
    fs = w.fs
    r = kit.prepare(cx, fs, scn['op'], keep_fps=scn['keep'])
    states = []

    def call():
        # state of the handles at the moment the operation ends, before
        # anything can be garbage collected
        del r.fps[:]
        world = World.cur
        before = set(world.fs.fds)

        def note(exc):
            # descriptors made with dup: the same open file, another number
            dups = [(n, h.path) for n, h in world.fs.fds.items() if n not in before and n != h.fd]
            states.append((world, set(world.handles), list(r.fps), exc, list(world.dropped), dups))
        try:
            v = r.call()
        except BaseException as e:
            note(e)
            raise
        note(None)
        return v
    w, o, o1, fs1 = with_faults(cx, fs, scn['knobs'], call, scn['faults'])
    cx.no_abort(o, r.tag)
    for world, handles, fps, exc, dropped, dups in states:
        tag = '%s%s -> %s' % (r.tag, ' faults %s' % cx.resolved['faults'] if world is w else '',
                              type(exc).__name__ if exc is not None else 'returned')
        mine = set()
        for fp in fps:
            raw = getattr(fp, 'raw', None)
            cx.check(not fp.closed, 'caller-closed', lambda: '%s: closed the file object of the '
                     'caller' % tag)
            mine.add(raw)
        left = [h for h in handles if h not in mine]
        cx.check(not left, 'leak', lambda: '%s: still open: %s' % (tag, [h.path for h in left]))
        cx.check(not dups, 'leak', lambda: '%s: duplicated descriptors still open: %s' % (tag, dups))
        cx.check(not dropped, 'dropped', lambda: '%s: not closed but left to the garbage collector: %s'
                 % (tag, dropped))
        if fps:
            cx.probe('caller-fp' if exc is None else 'caller-fp-failed')
            prev, World.cur = World.cur, world
            try:
                for fp in fps:
                    try:
                        if fp.seekable():
                            fp.tell()
                    except ValueError as e:
                        cx.fail('caller-unusable', '%s: file object of the caller: %s' % (tag, e))
                    except OSError:
                        pass
                    try:
                        fp.close()
                    except Exception:
                        pass
            finally:
                World.cur = prev
        cx.evals += 1
    cx.probe('ok' if o.ok else 'failed')
    if w.fired:
        cx.probe('faulted')
    for f in w.fired:
        cx.probe(f[0])
    if r.bad:
        cx.probe('bad:' + r.bad)
    cx.fp(scn['op']['op'], r.bad, tuple(f[0] for f in w.fired), o.kind(), scn['keep'],
          bool(has_meta(scn['op']['cfg'])))
