"""C03: any history of appends reads back as the concatenation."""
import math

from .common import *

ID = 'C03'
COUNTS = {'quick': 4000, 'thorough': 120000}
RULE = ('one run = one archive and a random history of appends (surface, blosc arguments, '
        'sizes biased to the free space of the last chunk and the reservation), checked '
        'after every step against a reference model and an independent parser; fingerprint '
        '= (base class, per-step (surface, fill class, chunks needed class, outcome))')
PROBES = ('fits-last', 'exact-fill', 'new-chunks', 'nospace', 'empty-piece', 'empty-base',
          'null-meta', 'ref-base', 'cli', 'partial-input', 'exact-reservation')


def piece(rng, tier):
    r = rng.random()
    if r < .08:
        size = ['abs', 0]
    elif r < .3:
        size = ['fill', rng.choice([-2, -1, 0, 0, 1, 2]), 0]
    elif r < .6:
        size = ['fill', rng.choice([-1, 0, 0, 1]), rng.randint(1, 4)]
    elif r < .7:
        size = ['need', rng.choice([-1, 0, 0, 1]), rng.choice([-1, 0, 1])]
    elif r < .85:
        size = ['frac', round(rng.random(), 3)]
    else:
        size = ['abs', rng.randint(1, 3000)]
    b = None
    r = rng.random()
    if r < .45:
        b = gen.blosc_args(rng, 0)
    elif r < .6:
        b = {'raw': {k: v if rng.random() < .5 else None
                     for k, v in gen.blosc_args(rng, 0).items()}}
    return {'size': size, 'bargs': b, 'dkind': gen.data_kind(rng), 'seed': rng.randrange(1 << 30),
            'surface': rng.choice(['file', 'file', 'fp', 'fp_bio', 'cli', 'fp_mid']),
            'read': rng.choice(ops.UNPACK), 'knobs': gen.knobs(rng)}


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=rng.random() < .7, offsets=True), 'level': level(rng),
           'knobs': gen.knobs(rng), 'base': rng.choice(['real', 'real', 'real', 'ref', 'nd']),
           'pack': rng.choice(['file', 'bytes_file', 'bytes', 'fp', 'pack_file'])}
    if scn['cfg']['data']['n'] > 60000:
        scn['cfg']['data']['n'] = 60000
    if rng.random() < .06:
        scn['cfg']['data']['n'] = 0
    if scn['base'] == 'ref':
        scn['nullmeta'] = rng.random() < .3
        scn['trail'] = rng.choice([0, 0, 0, 5, 700])
    k = rng.choice([1, 1, 2, 2, 3, 4, 6] if tier == 'quick' else [1, 2, 3, 4, 6, 10, 16])
    scn['ops'] = [piece(rng, tier) for _ in range(k)]
    return scn


class Model(object):
    pass


def resolve(size, m):
    fill = m.cs - m.last
    if size[0] == 'abs':
        return size[1]
    if size[0] == 'fill':
        return max(0, fill + size[1] + size[2] * m.cs)
    if size[0] == 'need':
        return max(0, fill + (m.app + size[2]) * m.cs + size[1])
    return int(size[1] * (fill + m.app * m.cs))


def run(scn, cx):
    c = scn['cfg']
    set_level(scn['level'])
    data = gen.realise(c['data'])
    arc = R + '/a.blp'
    if scn['base'] == 'nd':
        import numpy as np
        a = np.frombuffer(data, dtype='u1')
        w = cx.world(None, scn['knobs'])
        o = attempt(w, lambda: ops.npack('nfile', c, a, arc))
        cx.must(o, 'packing the array')
    elif scn['base'] == 'ref':
        cx.probe('ref-base')
        blob = ref_archive(c, data)
        if scn.get('nullmeta') and not has_meta(c):
            p = ref.parse(blob)
            chunks = [x.comp for x in p.chunks]
            blob = nullmeta_archive(p, chunks)
            cx.probe('null-meta')
        blob += b'\xee' * scn.get('trail', 0)
        w = cx.world(None, scn['knobs'])
        w.fs.put(arc, blob)
    else:
        w = pack_clean(cx, c, data, arc, scn['pack'], scn['knobs'])
    p = ref.parse(w.fs.get(arc))
    m = Model()
    m.data, m.cs, m.last = data, p.chunk_size, p.last_chunk
    m.nch, m.app = p.nchunks, p.max_app
    fixed = (p.version, p.options, p.checksum, p.typesize, p.chunk_size)
    total = m.nch + m.app
    md0 = ref.meta_value(p.meta) if p.meta is not None else None
    meta_raw = p.meta and w.fs.get(arc)[32:p.meta.end]
    if not data:
        cx.probe('empty-base')
    hist = [cfg_class(c)[:4], scn['base']]
    for step, op in enumerate(scn['ops']):
        n = resolve(op['size'], m)
        if n > 400000:
            n = 400000
        new = gen.realise({'kind': op['dkind'], 'n': n, 'seed': op['seed']})
        surf = op['surface']
        need = 0 if n <= m.cs - m.last else -(-(n - (m.cs - m.last)) // m.cs) if m.cs else None
        old = w.fs.get(arc)
        w = cx.world(w.fs, gen.tame(op['knobs'], max(n, len(data))))
        pre = b''
        post = b''
        if surf == 'fp_mid':
            pre, post = b'PRE' * 7, b'POST' * 9
        w.fs.put(R + '/new.dat', pre + new + post)
        bargs = op['bargs']
        if bargs is not None and 'raw' in bargs:
            bargs = ops.RawArgs(bargs['raw'])
        if surf == 'cli':
            cx.probe('cli')
            if isinstance(bargs, ops.RawArgs):
                bargs = None
        ts = 8 if surf == 'cli' and bargs is None else \
            (bargs or {}).get('typesize') or p.typesize
        if surf == 'fp_mid':
            cx.probe('partial-input')

            def do():
                import bloscpack.append as ap
                with open(arc, 'r+b') as f, open(R + '/new.dat', 'rb') as g:
                    g.seek(len(pre))
                    return ap.append_fp(f, g, n, blosc_args=dict(bargs) if isinstance(
                        bargs, ops.RawArgs) else gen.mk_blosc(bargs))
        else:
            def do():
                return ops.append(surf, arc, R + '/new.dat', bargs)
        o = attempt(w, do)
        cx.no_abort(o, 'append')
        tag = 'step %d: append of %d bytes via %s to %d chunks of %d (last %d, reserved %d)' % (
            step, n, surf, m.nch, m.cs, m.last, m.app)
        now = w.fs.get(arc)
        cls = ('0' if n == 0 else 'in' if need == 0 and n < m.cs - m.last else 'full' if need == 0
               else 'new' if need is not None and need < m.app else 'last' if need == m.app else 'over')
        if not data and m.cs == 0:
            # chunk size 0: an append may be refused, or must be right
            if not o.ok:
                cx.check(now == old, 'refused-changed', tag + ': refused but the file changed')
                cx.fp('empty-refused', surf, cls)
                return
        elif need > m.app:
            cx.probe('nospace')
            cx.check(not o.ok, 'overcommit', tag + ': needs %s chunks but succeeded' % need)
            cx.check(type(o.exc).__name__ == 'NotEnoughSpace', 'wrong-error',
                     lambda: tag + ': needs %s chunks, raised %s' % (need, o.describe()))
            cx.check(now == old, 'refused-changed', tag + ': refused but the file changed')
            hist.append((surf, cls, 'nospace'))
            continue
        else:
            cx.check(o.ok, 'refused', lambda: tag + ': needs %s chunks, refused: %s; %s' %
                     (need, o.describe(), o.out[-300:]))
        cx.probe({'0': 'empty-piece', 'in': 'fits-last', 'full': 'exact-fill', 'new': 'new-chunks',
                  'last': 'exact-reservation'}.get(cls, 'other'))
        m.data = m.data + new
        if surf not in ('cli', 'file'):
            cx.check(o.value == need, 'return-value', lambda: tag + ': returned %r, added %s' %
                     (o.value, need))
        try:
            q = ref.parse(now)
        except ref.FormatError as e:
            cx.fail('format', tag + ': result not parsable: %s' % e)
        cx.check((q.version, q.options, q.checksum, q.typesize, q.chunk_size) == fixed or m.cs == 0,
                 'header', lambda: tag + ': other header fields changed: %r' % (vars(q),))
        if m.cs:
            m.nch += need
            m.app -= need
            m.last = n - (m.cs - m.last) - (need - 1) * m.cs if need else m.last + n
            cx.check((q.nchunks, q.max_app, q.last_chunk) == (m.nch, m.app, m.last), 'header',
                     lambda: tag + ': header says %d chunks, reserved %d, last %d; expected %d, %d, %d'
                     % (q.nchunks, q.max_app, q.last_chunk, m.nch, m.app, m.last))
        else:
            m.nch, m.app, m.last, m.cs = q.nchunks, q.max_app, q.last_chunk, q.chunk_size
        cx.check(q.nchunks + q.max_app == total or not data, 'reservation',
                 tag + ': nchunks + max_app_chunks changed')
        bad = ref.conformance(now, payload=m.data, allow_trailing=True)
        cx.check(not bad, 'conformance', lambda: tag + ': ' + '; '.join(bad))
        if meta_raw:
            cx.check(now[32:q.meta.end] == meta_raw, 'metadata', tag + ': metadata section changed')
        w2 = cx.world(w.fs, gen.tame(op['knobs'], len(m.data)))
        u = ops.unpack_bytes(w2, op['read'], arc, R + '/out.dat')
        out, md = cx.must(u, tag + ': reading back via %s' % op['read'])
        cx.check(out == m.data, 'data', lambda: tag + ': read back %s instead of %s, first '
                 'difference at %d' % (brief(out), brief(m.data), first_diff(out, m.data)))
        if md is not ops.CLI_META:
            cx.check(same_json(md, md0), 'metadata', lambda: tag + ': metadata %r' % (md,))
        if need and m.cs:
            k = q.chunks[-1]
            cx.check(k.typesize == ts or k.nbytes == 0 or ts > 255, 'typesize', lambda: tag +
                     ': chunk typesize %d, expected %s' % (k.typesize, ts))
        hist.append((surf, cls, 'ok'))
        cx.evals += 1
        cx.fp(tuple(hist[-3:]), cls, surf, op['bargs'] is None, scn['base'],
              p.checksum, bool(p.meta))


def nullmeta_archive(p, chunks):
    """Archive with a metadata section holding JSON null."""
    out = ref.write(chunks, checksum=p.checksum, typesize=p.typesize, offsets=True,
                    max_app=p.max_app, chunk_size=p.chunk_size, last_chunk=p.last_chunk,
                    meta={'x': 1}, meta_opts={'raw': b'null', 'extra': 6})
    return out
