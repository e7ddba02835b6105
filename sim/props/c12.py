"""C12: concurrent operations on separate outputs do not disturb each other."""
import hashlib

from .common import *
from .. import env
from .. import kit
from ..sched import Sched

ID = 'C12'
COUNTS = {'quick': 2600, 'thorough': 120000}
RULE = ('one run = 2 to 4 operations of the kit in threads under one seeded schedule, sharing '
        'argument objects, arrays, bytes, metadata and input files; the outcome, return value and '
        'output bytes of each must equal those of the same operation alone (in a pristine fork); '
        'fingerprint = hash of the sequence of switches with the code positions at which they happen')
MEASURE = 'distinct schedules: hash over (from thread, to thread, code position) of all switches'
PROBES = ('rand', 'pct', 'opcodes', 'lines', 'shared-blosc', 'shared-array', 'shared-data',
          'shared-archive', 'shared-meta', 'one-fails', 'faulted', '4-threads', 'append', 'rewrite',
          'nunpack', 'same-kind')
CAPS = {'quick': 120}
SHARE = ['blosc_args', 'bloscpack_args', 'metadata_args', 'metadata', 'array', 'data', 'input',
         'archive', 'narchive', 'newmd']
KINDS = ('pack', 'unpack', 'append', 'rewrite', 'npack', 'nunpack', 'mem', 'nmem')


def scenario(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    th = []
    same = rng.random() < .35
    first = None
    for i in range(n):
        s = kit.spec(rng, .12, kinds=KINDS if not (same and first) else (first,), cli=False)
        first = first or s['op'].partition(':')[0]
        s['cfg']['data']['n'] = min(s['cfg']['data']['n'], rng.choice([40, 400, 3000]))
        ch = s['cfg']['chunk']
        if isinstance(ch, int) and s['cfg']['data']['n'] // max(ch, 1) > 12:
            s['cfg']['chunk'] = s['cfg']['data']['n'] // 6
        if s['op'].startswith(('append', 'rewrite')):
            s['cfg']['data']['n'] = max(1, s['cfg']['data']['n'])
        if rng.random() < .12:
            s['fault'] = {'kind': rng.choice(['eio_read', 'eio_write', 'enospc', 'eopen', 'kbint']),
                          'at': rng.randrange(6)}
        th.append(s)
    gran = rng.choice(['full', 'full', 'half', 'one'])
    for s in th:
        if gran == 'one':
            s['cfg']['margs'] = None
            if len(json.dumps(s['cfg']['meta'])) > 300:
                s['cfg']['meta'] = [{'m': 'short'}]
    # bounded schedules: the zero filler of the metadata area is one point per
    # byte, and every chunk some hundred
    opcodes = rng.random() < .5
    pool_n = rng.choice([1, 64, 500, 4000])
    share = [x for x in SHARE if rng.random() < .5]
    for s in th:
        if len(json.dumps(s['cfg']['meta'])) > (600 if opcodes else 5000):
            s['cfg']['meta'] = [{'m': 'cut'}]
        ch = s['cfg']['chunk']
        if ('data' in share or 'input' in share) and isinstance(ch, int):
            s['cfg']['chunk'] = max(ch, pool_n // 12)
    pol = {'seed': rng.randrange(1 << 30)}
    if rng.random() < .55:
        pol.update(mode='rand', p=rng.choice([.01, .05, .2, .5]))
    else:
        pol.update(mode='pct', d=rng.choice([1, 2, 3, 5]), horizon=rng.choice([100, 600, 3000]))
    return {'threads': th, 'policy': pol, 'opcodes': opcodes,
            'share': share, 'level': level(rng),
            'pool': {'blosc': gen.blosc_args(rng, 0), 'bp': gen.bloscpack_args(rng, 0, offsets=True),
                     'margs': gen.meta_args(rng, 0), 'seed': rng.randrange(1000),
                     'n': pool_n},
            'gran': gran, 'buf': rng.choice([8192, 64])}


def mk_pool(cx, scn, fs):
    import numpy as np
    q = scn['pool']
    data = gen.realise({'kind': 'mixed', 'n': q['n'], 'seed': q['seed']})
    pool = {'blosc_args': gen.mk_blosc(q['blosc']), 'bloscpack_args': gen.mk_bloscpack(q['bp']),
            'metadata_args': gen.mk_meta(q['margs']), 'metadata': {'shared': [1, {'x': None}]},
            'newmd': {'new': 'value'}, 'data': data, 'input': R + '/shared.in',
            'archive': R + '/shared.blp', 'narchive': R + '/shared.npblp',
            'array': np.frombuffer((data * 8)[:q['n'] * 8], '<f8')}
    a = pool['array'] = pool['array'].copy()
    how = q['seed'] % 7
    if how in (0, 1):
        a = a[::2]
    elif how in (2, 3) and a.size >= 4:
        a = a[:a.size // 4 * 4].reshape((4, -1) if how == 2 else (2, -1, 2))
    elif how == 4 and a.size >= 4:
        a = a[:a.size // 2 * 2].reshape(2, -1).T
    elif how == 5 and a.size >= 6:
        a = a[:a.size // 6 * 6].reshape(3, -1, 2)[:, ::2]
    pool['array'] = a
    fs.put(pool['input'], data)
    w = cx.world(fs)
    c = {'chunk': max(1, q['n'] // 5), 'blosc': None, 'bp': None, 'meta': [{'m': 1}], 'margs': None}
    cx.must(attempt(w, lambda: ops.pack('bytes_file', c, data, pool['archive'])), 'shared archive')
    cx.must(attempt(w, lambda: ops.npack('nfile', dict(c, chunk=max(8, q['n'] // 10 * 8)), pool['array'],
                                         pool['narchive'])), 'shared array archive')
    return {k: v for k, v in pool.items() if k in scn['share']}


def digest(o, r, fs):
    """Comparable, picklable outcome of one operation."""
    k = o.kind()
    val = None
    if o.ok:
        val = r.result(o)
    files = [(p, fs.get(p) if fs.exists(p) else None) for p in r.outs]
    return (k, val if val is None or isinstance(val, (bytes, tuple)) else repr(val), files)


def arm1(world, reqs, specs, only=None):
    plan = []
    for i, (r, s) in enumerate(zip(reqs, specs)):
        f = s.get('fault')
        if not f or (only is not None and only != i):
            continue
        own = [p for p in r.outs + r.ins if 'shared' not in p]
        if not own:
            continue
        plan.append({'kind': f['kind'], 'k': f['at'], 'path': own[0], 'seen': 0,
                     'sticky': False})
    world.plan = plan


def process_state():
    """What every thread of the process shares and an operation could be disturbed by."""
    import gc
    import locale
    import os
    import signal
    import sys
    import bloscpack.log as log
    um = os.umask(0o22)
    os.umask(um)
    return {'working directory': os.getcwd(), 'umask': um, 'log level': log.LEVEL,
            'recursion limit': sys.getrecursionlimit(), 'gc': gc.isenabled(),
            'native state': dict(env.native_state), 'locale': locale.setlocale(locale.LC_ALL),
            'SIGINT': signal.getsignal(signal.SIGINT), 'environment': hash(tuple(os.environ.items())),
            'max str digits': sys.get_int_max_str_digits(),
            'streams': (id(sys.stdout), id(sys.stderr))}


def run(scn, cx):
    import sys
    set_level(scn['level'])
    kn = {'gran': scn['gran'], 'buf': scn['buf'], 'io_seed': 0}
    w = cx.world(None)
    fs = w.fs
    pool = mk_pool(cx, scn, fs)
    specs = scn['threads']
    reqs = [kit.prepare(cx, fs, s, 't%d' % i, pool) for i, s in enumerate(specs)]
    n = len(reqs)
    if n < 2:
        raise Skip()

    def solo(i):
        wi = cx.world(fs, dict(kn))
        arm1(wi, reqs, specs, i)
        o = attempt(wi, reqs[i].call)
        if o.abort is not None:
            return ('abort', str(o.abort))
        return digest(o, reqs[i], fs)
    alone = [cx.isolated(lambda: solo(i)) for i in range(n)]
    for i, a in enumerate(alone):
        if a[0] == 'abort':
            raise Skip()
    w = cx.world(fs, dict(kn))
    arm1(w, reqs, specs)
    outs = [None] * n

    def body(i):
        def f():
            o = ops.Outcome()
            ops._attempt(o, reqs[i].call)
            outs[i] = o
        return f
    s = Sched([body(i) for i in range(n)], scn['policy'], scn['opcodes'])
    moved = []
    with env.Captured(w):
        start = process_state()

        def look(m, what):
            st = process_state()
            if st != start and not moved:
                moved.append((m, what, {k: (start[k], v) for k, v in st.items() if start[k] != v}))
        s.on_switch = look
        s.run(w)
    cx.patch = {'policy': {'mode': 'list', 'switches': s.switches}}
    for i, o in enumerate(outs):
        if o.abort is not None:
            cx.fail('budget', 'thread %d (%s): %s' % (i, reqs[i].tag, o.abort))
    together = [digest(o, r, fs) for o, r in zip(outs, reqs)]
    for i, (a, b) in enumerate(zip(alone, together)):
        if a == b:
            continue
        def show(x):
            return '%s value %s outputs %s' % (
                x[0], brief(x[1]) if isinstance(x[1], bytes) else str(x[1])[:120],
                [(p, brief(d) if d is not None else None) for p, d in x[2]])
        cx.fail('disturbed', 'operation %d (%s) of %s gave %s together, %s alone; %s; shared %s' %
                (i, reqs[i].tag, [r.tag for r in reqs], show(b), show(a),
                 outs[i].describe(), scn['share']))
    for m, what, diff in moved:
        cx.fail('process-state', 'operation %d (%s) of %s, at %s: other threads run with %s' %
                (m, reqs[m].tag, [r.tag for r in reqs], what, diff))
    cx.patch = None
    pm = scn['policy']['mode']
    cx.probe(pm)
    cx.probe('opcodes' if scn['opcodes'] else 'lines')
    for k in scn['share']:
        cx.probe('shared-' + k.split('_')[0].replace('metadata', 'meta'))
    if n == 4:
        cx.probe('4-threads')
    if any(a[0] != 'ok' for a in alone) and any(a[0] == 'ok' for a in alone):
        cx.probe('one-fails')
    if w.fired:
        cx.probe('faulted')
    for r in reqs:
        cx.probe(r.kind)
    if len(set(r.kind for r in reqs)) < n:
        cx.probe('same-kind')
    cx.probe('switches', len(s.switches))
    cx.evals += n
    cx.fp(s.fingerprint)
