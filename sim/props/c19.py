"""C19: appending never turns damaged data into data that verifies."""
import struct

from .common import *
from .. import damage

ID = 'C19'
COUNTS = {'quick': 9000, 'thorough': 350000}
RULE = ('one run = one archive after zero to three appends, damaged in the last chunk, its checksum, '
        'the metadata, elsewhere, or cut short, then one to three further append attempts (some '
        'interrupted by a fault); fingerprint = (where the damage is, what it is, checksum, surface, '
        'outcome)')
PROBES = ('last-chunk', 'last-digest', 'meta', 'meta-digest', 'cut', 'elsewhere', 'refused', 'appended',
          'still-reported', 'undetected-damage', 'history', 'fault',
          'empty-append', 'cli-meta', 'no-checksum')

WHERE = ['last', 'last', 'last', 'digest', 'digest', 'meta', 'meta', 'metadigest', 'cut', 'cut', 'cut',
         'random', 'random', 'random', 'early', 'early', 'nchunks', 'double']
SURF = ['file', 'file', 'fp', 'fp_bio', 'cli', 'cli-m']


def scenario(rng, tier):
    c = cfg(rng, small=True, tiny=rng.random() < .5, offsets=True)
    c['bp'] = gen.bloscpack_args(rng, 0, offsets=True, need_checksum=rng.random() < .85)
    if c['bp']['max_app'] in (0, 1, 2):
        c['bp']['max_app'] = 12
    c['data']['n'] = min(20000, max(1, c['data']['n']))
    c['chunk'] = max(1, c['chunk'] or 1, c['data']['n'] // 60)
    where = rng.choice(WHERE)
    if where in ('meta', 'metadigest') or rng.random() < .3:
        c['meta'] = [gen.metadata(rng, True) or {'k': 1}]
        c['margs'] = gen.meta_args(rng, need_checksum=rng.random() < .9)
    return {'cfg': c, 'where': where,
            'before': [rng.choice([0, 1, 3, 50, 400, 3000]) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))],
            'flip': [{'at': round(rng.random(), 4), 'x': rng.randint(1, 255),
                      'edge': rng.choice([None, None, None, 0, 1, 3, -1, -2])}
                     for _ in range(rng.choice([1, 1, 1, 2, 3]))],
            'damage': [damage.spec(rng) for _ in range(rng.choice([1, 1, 2]))],
            'cut': [rng.choice(['end', 'end', 'frac', 'lastpos', 'digest', 'header']), round(rng.random(), 4),
                    rng.choice([1, 1, 2, 3, 4, 8, 16, 17, 64])],
            'ops': [{'surf': rng.choice(SURF), 'n': rng.choice([0, 0, 1, 2, 7, 64, 300, 3000]),
                     'cs': rng.random() < .2, 'blosc': gen.blosc_args(rng, .6),
                     'fault': fault_spec(rng, ['eio_read', 'eio_write', 'enospc', 'enospc_partial', 'kbint',
                                               'memerr', 'codec_fail', 'eio_seek'])
                     if rng.random() < .12 else None}
                    for _ in range(rng.choice([1, 1, 2, 3]))],
            'seed': rng.randrange(1 << 20), 'knobs': gen.knobs(rng, .7), 'level': level(rng)}


def flips(b, lo, hi, specs):
    """Change bytes of b[lo:hi] so that the region really differs."""
    old = bytes(b[lo:hi])
    if hi <= lo:
        return False
    for f in specs:
        n = hi - lo
        e = f['edge']
        i = int(f['at'] * n) if e is None else max(0, min(n - 1, e if e >= 0 else n + e))
        b[lo + i] ^= f['x']
    if bytes(b[lo:hi]) == old:
        b[lo] ^= 1
    return True


def hurt(scn, blob, cx):
    """(damaged archive, must an append be refused)"""
    q = ref.parse(blob)
    b = bytearray(blob)
    last = q.chunks[-1]
    where = scn['where']
    must = False
    if where in ('last', 'double'):
        flips(b, last.pos, last.pos + last.ct, scn['flip'])
        must = q.checksum != 0
        cx.probe('last-chunk')
        if where == 'double' and len(q.chunks) > 1:
            c = q.chunks[scn['seed'] % (len(q.chunks) - 1)]
            flips(b, c.pos, c.end, scn['flip'])
    elif where == 'digest':
        must = flips(b, last.pos + last.ct, last.end, scn['flip'])
        cx.probe('last-digest')
    elif where == 'meta' and q.meta is not None:
        m = q.meta
        must = flips(b, m.payload_pos, m.payload_pos + m.comp_size, scn['flip']) and m.checksum != 0
        cx.probe('meta')
    elif where == 'metadigest' and q.meta is not None:
        must = flips(b, q.meta.digest_pos, q.meta.end, scn['flip'])
        cx.probe('meta-digest')
    elif where == 'cut':
        how, frac, n = scn['cut']
        at = {'end': q.end - n, 'frac': int(frac * q.end), 'lastpos': last.pos + n - 1,
              'digest': last.pos + last.ct, 'header': 31 + n}[how]
        at = max(0, min(q.end - 1, at))
        del b[at:]
        must = True
        cx.probe('cut')
    elif where == 'early' and len(q.chunks) > 1:
        c = q.chunks[scn['seed'] % (len(q.chunks) - 1)]
        flips(b, c.pos, c.end, scn['flip'])
        cx.probe('elsewhere')
    elif where == 'nchunks':
        # one more chunk than there is
        k = q.nchunks + 1 + scn['seed'] % 2
        b[16:24] = struct.pack('<q', k)
        if q.max_app >= k - q.nchunks:
            b[24:32] = struct.pack('<q', q.max_app - (k - q.nchunks))
        cx.probe('elsewhere')
    else:
        b = damage.apply(blob, scn['damage'])
        cx.probe('elsewhere')
    return bytes(b), must


def huge(blob):
    try:
        return any(c.nbytes > 1 << 24 for c in ref.parse(blob).chunks)
    except ref.FormatError:
        return False


def state(blob):
    """(decoded data or None, complaint)"""
    if huge(blob):
        return None, 'huge'
    try:
        return ref.decode(blob)[0], None
    except ref.FormatError as e:
        return None, str(e)


def run(scn, cx):
    set_level(scn['level'])
    arc, new, out = R + '/a.blp', R + '/new', R + '/out'
    c = scn['cfg']
    data = gen.realise(c['data'])
    w = pack_clean(cx, c, data, arc)
    fs = w.fs
    for i, n in enumerate(scn['before']):
        add = gen.realise({'kind': 'mixed', 'n': n, 'seed': scn['seed'] + i})
        fs.put(new, add)
        o = attempt(w, lambda: ops.append('file', arc, new, None))
        if o.ok:
            data += add
            cx.probe('history')
    whole = fs.get(arc)
    got, why = state(whole)
    cx.check(got == data, 'history', lambda: 'archive wrong before the damage: %s' % why)
    blob, must = hurt(scn, whole, cx)
    if blob == whole or huge(blob):
        raise Skip()
    csum = ref.parse(whole).checksum
    if not csum:
        cx.probe('no-checksum')
    fs.put(arc, blob)
    for i, op in enumerate(scn['ops']):
        cur = fs.get(arc)
        before, why = state(cur)
        rd = read(cx, fs, arc)
        n = op['n']
        if op['cs'] and before is not None and isinstance(c['chunk'], int):
            n = c['chunk']
        add = gen.realise({'kind': 'rand', 'n': n, 'seed': scn['seed'] + 100 + i})
        fs.put(new, add)
        mp = None
        if op['surf'] == 'cli-m':
            mp = R + '/m.json'
            fs.put(mp, json.dumps({'v': scn['seed'] + i}).encode())
            cx.probe('cli-meta')
        surf = 'cli' if op['surf'] == 'cli-m' else op['surf']
        call = lambda: ops.append(surf, arc, new, op['blosc'], mp)
        lim = 1 << 25
        if op['fault']:
            w1 = cx.world(fs.clone(), scn['knobs'])
            w1.alloc_limit = lim
            w1.plan = dry_plan([op['fault']])
            attempt(w1, call)
            plan = arm([op['fault']], [f['seen'] for f in w1.plan])
        else:
            plan = []
        w = cx.world(fs, scn['knobs'])
        w.alloc_limit = lim
        w.plan = plan
        o = attempt(w, call)
        cx.no_abort(o, 'append to a damaged archive')
        w.plan = []
        now = fs.get(arc)
        cx.evals += 1
        tag = 'damage %s, append of %d bytes via %s (%s)' % (describe(scn), len(add), op['surf'], o.kind())
        cx.probe('refused' if not o.ok else 'appended')
        if w.fired:
            cx.probe('fault')
        if n == 0:
            cx.probe('empty-append')
        cx.fp(scn['where'], '+'.join(d['how'] for d in scn['damage']) if scn['where'] == 'random' else
              scn['cut'][0] if scn['where'] == 'cut' else '', csum, op['surf'], o.kind(),
              bool(w.fired), min(n, 3))
        if must:
            cx.check(not o.ok, 'accepted', lambda: '%s: not refused (%s)' % (tag, why))
            cx.check(now == cur, 'changed', lambda: '%s: refused, but the file was changed at byte %d' %
                     (tag, first_diff(now, cur)))
            continue
        after, why2 = state(now)
        # (meta_size is no checksum: the reader does not use it, a rewrite renews it)
        if why is not None and not why.startswith('meta_size'):
            cx.check(after is None, 'laundered', lambda: '%s: the archive was damaged (%s), now it reads '
                     'without an error, %s data' % (tag, why, 'right' if after == data + add else 'wrong'))
            cx.probe('still-reported')
        if not rd.ok:
            rd2 = read(cx, fs, arc)
            cx.check(not rd2.ok, 'laundered', lambda: '%s: reading the archive failed with %s before and '
                     'succeeds now' % (tag, rd.describe()))
        if why is None and csum and not w.fired and o.ok and scn['where'] != 'random':
            # damage that no checksum covers
            cx.probe('undetected-damage')
            cx.check(after is None or after == before + add, 'misplaced', lambda:
                     '%s: reads without an error but is not the old and the new data' % tag)


def describe(scn):
    w = scn['where']
    if w == 'random':
        w += ' ' + '+'.join(d['how'] for d in scn['damage'])
    elif w == 'cut':
        w += ' ' + str(scn['cut'])
    return w


def read(cx, fs, arc):
    w = cx.world(fs.clone())
    w.alloc_limit = 1 << 25
    o = attempt(w, lambda: ops.unpack('bytes_file', arc, None))
    cx.no_abort(o, 'reading the damaged archive')
    return o
