"""C18: reading any damaged archive ends quickly."""
from .common import *
from .. import damage

ID = 'C18'
COUNTS = {'quick': 12000, 'thorough': 500000}
RULE = ('one run = one archive with one to four random damages (or plain noise), given to one to '
        'three operations that read it; loop steps and raw I/O requests of each must stay below '
        '20000 + 40 per byte of archive and new data; fingerprint = (operation, kinds of damage, '
        'where it ended)')
PROBES = ('ok', 'refused', 'unpack', 'nunpack', 'info', 'append', 'rewrite', 'noise', 'alloc-refused',
          'accepted-damage', 'fault', 'memory-error', 'odd-array', 'odd-metadata')
# a run takes milliseconds; time in native code is not counted in steps
CPU_LIMIT = 20

DTYPES = ["[('%(w)s', '<f8')]#", "[('%(w)s', '<f8'), ('%(w)s\u00fc', '<i2')] !", "'%(w)s", "'<f8'%(w)s\x00", '(' * 90, '[' * 3000,
          '(' * 50 + "'<f8'" + ')' * 50, "'|V0'", "'|S0'", "[('a', '|V0')]", "('<f8', (1000000000,))",
          "[('a', '<f8', (100000, 100000))]", "[('a', '<f8', (0, 100000))]", '-' * 3000 + '1', '1' * 5000, "'u1' " * 2000,
          "[('a', " * 60 + "'u1'" + ')]' * 60, [['a', 'u1']] * 300, [[[[[[['a']]]]]]], "'" + ',u1' * 2000 + "'",
          "'<M8[1000000000ns]'", "'<U500000000'", "'|V2147483647'", "'<f8'", "'u1'"]
SHAPES = [[1 << 40], [1 << 20, 1 << 20], [0, 1 << 40], [1 << 62, 4], [1] * 32, [1] * 33, [1] * 2000, '10', 1e9, [-1],
          [[3]], None, True, {}, [1.5], [1 << 70], 1 << 40, 7, [], [0] * 20, '9' * 5000, {'1': 2}]
ORDERS = ['C', 'C', 'C', 'F', 'K', 'A', 7, None, 'C' * 5000, ['C']]


def odd(rng, numpy):
    """metadata that is well-formed, with values nobody would choose."""
    if numpy:
        w = rng.choice('abcxyz_09') * rng.choice([1, 20, 40, 200, 2000])
        d = rng.choice(DTYPES)
        if rng.random() < .12:
            d = rng.choice(['u1', ['a', 'u1'], 1, []])
            for i in range(rng.choice([3, 30, 60, 400])):
                d = [d] if rng.random() < .8 else rng.choice([['a', d], [d, d], [d, [2]]]) if i < 8 else ['a', d]
        return {'dtype': d % {'w': w} if isinstance(d, str) and '%(' in d else d, 'order': rng.choice(ORDERS),
                'shape': rng.choice(SHAPES) if rng.random() < .7 else [rng.randint(0, 99)], 'container': 'numpy'}
    v = rng.choice([1, -1.5, '', 'x', None, True, [], {}])
    for i in range(rng.choice([1, 10, 100, 900, 5000])):
        v = [v] if i % 2 or rng.random() < .5 else {'k': v}
    return v if rng.random() < .6 else rng.choice(['x' * 10000, list(range(2000)), '\\' * 3000, 1 << 4000,
                                                   {str(i): i for i in range(1000)}, '\ud800', 1e308, [[]] * 3000])

OPS = ['unpack:file', 'unpack:bytes_file', 'unpack:bytes', 'unpack:fp', 'unpack:cli', 'nunpack:nfile',
       'nunpack:nbytes', 'nunpack:nfp', 'info', 'append:file', 'append:fp', 'append:cli', 'append:meta',
       'rewrite', 'rewrite', 'append:file']


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=True, tiny=rng.random() < .5), 'numpy': rng.random() < .3,
           'dt': rng.choice(['u1', '<i4', '<f8', 'S3']), 'shape2': rng.random() < .3,
           'ops': [rng.choice(OPS) for _ in range(rng.choice([1, 2, 3]))],
           'damage': [damage.spec(rng) for _ in range(rng.choice([1, 1, 1, 2, 3, 4]))],
           'noise': rng.choice([0] * 15 + [rng.choice([0, 1, 31, 32, 33, 64, 100, 1000])]),
           'new': rng.choice([0, 1, 100, 5000]), 'level': level(rng), 'knobs': gen.knobs(rng, .7),
           'seed': rng.randrange(1 << 20),
           'odd': rng.randrange(1 << 30) if rng.random() < .2 else None,
           'fault': fault_spec(rng, ['eio_read', 'eio_seek', 'memerr', 'kbint', 'shrink'])
           if rng.random() < .05 else None}
    c = scn['cfg']
    c['data']['n'] = min(c['data']['n'], 20000)
    if rng.random() < .4 and c['bp']:
        c['bp']['checksum'] = 'None'
    if scn['numpy'] or rng.random() < .5:
        c['meta'] = [{'a': 'b' * rng.choice([1, 100, 2000]), 'n': [1, 2]}]
        c['margs'] = c['margs'] or gen.meta_args(rng)
        if rng.random() < .4 and c['margs']:
            c['margs']['meta_checksum'] = 'None'
    return scn


def base(scn):
    c = scn['cfg']
    data = gen.realise(c['data'])
    if scn['numpy']:
        import numpy as np
        dt = np.dtype(scn['dt'])
        k = len(data) // dt.itemsize // 2 * 2
        data = data[:k * dt.itemsize]
        c = dict(c, chunk=max(1, (c['chunk'] or 1) // dt.itemsize, k // 300) * dt.itemsize,
                 meta=[{'dtype': repr(dt.str), 'shape': [2, k // 2] if scn['shape2'] else [k],
                        'order': 'C', 'container': 'numpy'}])
    elif isinstance(c['chunk'], int):
        c = dict(c, chunk=max(1, c['chunk'], len(data) // 300))
    return ref_archive(c, data)


def stored_meta(blob, value, rng):
    """The same archive with other metadata, written out in full."""
    p = ref.parse(blob)
    return ref.write([blob[x.pos:x.pos + x.ct] for x in p.chunks], checksum=rng.randrange(9), typesize=p.typesize,
                     offsets=rng.random() < .6, max_app=rng.choice([0, 3]), chunk_size=p.chunk_size,
                     last_chunk=p.last_chunk, meta=value,
                     meta_opts={'checksum': rng.randrange(9), 'codec': rng.randrange(2),
                                'extra': rng.choice([0, 0, 100])})


def call_of(op, arc, out, new, seed):
    kind, _, surf = op.partition(':')
    if kind == 'unpack':
        return lambda: ops.unpack(surf, arc, out)
    if kind == 'nunpack':
        return lambda: ops.nunpack(surf, arc)
    if kind == 'info':
        return lambda: ops.info(arc)
    if kind == 'rewrite':
        v = [{'new': seed}, {'x': 'y' * 300}, {}][seed % 3]
        return lambda: ops.rewrite_meta(arc, v)
    if surf == 'meta':
        def f():
            World.cur.fs.put(R + '/m.json', b'{"q": 1}')
            return ops.append('cli', arc, new, None, R + '/m.json')
        return f
    return lambda: ops.append(surf, arc, new, None)


def run(scn, cx):
    arc, out, new = R + '/a.blp', R + '/out', R + '/new'
    set_level(scn['level'])
    if scn['odd'] is not None and not scn['noise']:
        import random
        rng = random.Random(scn['odd'])
        try:
            blob = stored_meta(base(scn), odd(rng, scn['numpy']), rng)
        except (struct_error, RecursionError):
            raise Skip()
        cx.probe('odd-array' if scn['numpy'] else 'odd-metadata')
        if rng.random() < .8:
            scn = dict(scn, damage=[])
    elif scn['noise']:
        blob = gen.realise({'kind': 'rand', 'n': scn['noise'], 'seed': scn['seed']})
        if scn['seed'] % 2:
            blob = (b'blpk\x03' + bytes([scn['seed'] % 4, scn['seed'] % 9]) + blob)[:scn['noise']]
        cx.probe('noise')
    else:
        try:
            blob = base(scn)
        except struct_error:
            raise Skip()
    blob = damage.apply(blob, scn['damage'])
    try:
        valid = ref.decode(blob) if not huge(blob) else None
    except ref.FormatError:
        valid = None
    names = sorted(set(d['how'] for d in scn['damage']))
    for op in scn['ops']:
        # debug output shows whole buffers; each of its lines is a step too
        limit = 20000 + 40 * (len(blob) + scn['new'])
        fs = SimFS()
        fs.put(arc, blob)
        fs.put(new, gen.realise({'kind': 'rand', 'n': scn['new'], 'seed': scn['seed']}))
        call = call_of(op, arc, out, new, scn['seed'])
        w = cx.world(fs, dict(scn['knobs'], gran='full', buf=max(512, scn['knobs']['buf'])))
        w.step_limit = limit
        w.event_limit = limit
        w.alloc_limit = 1 << 26
        if scn['fault']:
            w1 = cx.world(fs.clone(), dict(w.knobs))
            w1.step_limit = w1.event_limit = limit
            w1.alloc_limit = 1 << 26
            w1.plan = dry_plan([scn['fault']])
            attempt(w1, call)
            w.plan = arm([scn['fault']], [f['seen'] for f in w1.plan])
        o = attempt(w, call)
        tag = '%s on %d bytes (%s)' % (op, len(blob), '+'.join(names))
        cx.evals += 1
        if o.abort is not None:
            cx.fail('budget' if not isinstance(o.abort, env.MemoryViolation) else 'memory',
                    '%s: %s (limit %d)' % (tag, o.abort, limit))
        cx.check(w.steps <= limit and w.n <= limit, 'budget', lambda: '%s: %d steps, %d requests, limit %d' %
                 (tag, w.steps, w.n, limit))
        cx.probe(op.partition(':')[0])
        cx.probe('ok' if o.ok else 'refused')
        if w.alloc_refused:
            cx.probe('alloc-refused')
        if w.fired:
            cx.probe('fault')
        if o.exc is not None and isinstance(o.exc, MemoryError):
            cx.probe('memory-error')
        if o.ok and valid is None and op.startswith('unpack'):
            cx.probe('accepted-damage')
        cx.fp(op, '+'.join(names), o.kind(), bool(scn['noise']))


def huge(blob):
    try:
        return any(c.nbytes > 1 << 26 for c in ref.parse(blob).chunks)
    except ref.FormatError:
        return False


import struct
struct_error = struct.error
