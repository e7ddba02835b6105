"""C05: in-place metadata rewrite is exact, contained and crash-safe."""
import zlib

from .common import *
from ..simfs import CrashImages, base_of

ID = 'C05'
COUNTS = {'quick': 4000, 'thorough': 120000}
RULE = ('one run = one archive and a history of in-place metadata rewrites, checked after each '
        'against a model; the last one is cut at every recorded write boundary and sector tear '
        '(sampled above 120 points), or ended by an injected error, and the image read back; fingerprint = (archive class, '
        'value size class, overrides, outcome, crash image outcome)')
PROBES = ('ok', 'toosmall', 'nochange', 'crash-old', 'crash-new', 'crash-error', 'codec-dropped',
          'compressed', 'exact-fit', 'after-append', 'cli', 'numpy', 'ended-by-exception')
EXTRA = {'crash_model': 'process death at any raw write, or at any 512-byte sector boundary inside '
                        'one'}

SAME = {4: ['adler32', 'crc32'], 16: ['md5'], 20: ['sha1'], 28: ['sha224'], 32: ['sha256'],
        48: ['sha384'], 64: ['sha512'], 0: ['None']}


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=True, with_meta=True), 'level': level(rng),
           'knobs': gen.knobs(rng), 'seed': rng.randrange(1 << 30),
           'numpy': rng.random() < .15, 'append': rng.choice([0, 0, 0, 100, 3000])}
    c = scn['cfg']
    if rng.random() < .6:
        c['margs'] = gen.meta_args(rng, 0, need_checksum=True)
    if c['meta'][0] is None:
        c['meta'] = [{'a': 1}]
    scn['ops'] = [{'how': rng.choice(['rand', 'rand', 'rand', 'fit', 'fit', 'over', 'same', 'compfit',
                                      'empty', 'nondict']),
                   'v': gen.metadata(rng), 'seed': rng.randrange(1 << 30),
                   'd': rng.choice([-1, 0, 0, 1]),
                   'codec': rng.choice(['def', 'def', 'zlib', 'None', None]),
                   'lvl': rng.choice(['def', 'def', 0, 1, 6, 9, None]),
                   'cs': rng.random() < .4, 'magic': rng.random() < .3,
                   'cli': rng.random() < .15,
                   'knobs': gen.knobs(rng)}
                  for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    scn['crash'] = rng.random() < .75
    scn['faults'] = [fault_spec(rng, ['kbint', 'kbint', 'memerr', 'codec_fail', 'enospc',
                                      'enospc_partial', 'eio_write', 'eio_seek', 'eio_read', 'eclose'])
                     for _ in range(rng.choice([0, 1, 2, 3]))]
    return scn


def ser(v):
    return json.dumps(v, separators=(',', ':')).encode()


def mkval(op, maxsize, cur):
    import random
    r = random.Random(op['seed'])
    if op['how'] == 'same':
        return json.loads(json.dumps(cur))
    if op['how'] in ('fit', 'over'):
        n = maxsize + (op['d'] if op['how'] == 'fit' else r.randint(2, 300))
        s = ''.join(chr(r.randint(35, 91)) for _ in range(max(0, n - 8)))
        return {'n': s}
    if op['how'] == 'compfit':
        return {'z': 'ab' * (maxsize + 50), 'i': op['seed']}
    if op['how'] == 'empty':
        return {}
    return op['v']


def run(scn, cx):
    c = scn['cfg']
    set_level(scn['level'])
    data = gen.realise(c['data'])
    arc = R + '/a.blp'
    if scn['numpy']:
        import numpy as np
        cx.probe('numpy')
        w = cx.world(None)
        o = attempt(w, lambda: ops.npack('nfile', c, np.frombuffer(data, 'u1'), arc))
        cx.must(o, 'packing the array')
        cur = ref.meta_value(ref.parse(w.fs.get(arc)).meta)
    else:
        w = pack_clean(cx, c, data, arc)
        cur = meta_val(c)
    fs = w.fs
    if scn['append'] and eff_offsets(c['bp']) and data:
        fs.put(R + '/p', bytes(range(256)) * (scn['append'] // 256 + 1))
        o = attempt(cx.world(fs), lambda: ops.append('file', arc, R + '/p'))
        if o.ok:
            cx.probe('after-append')
            data += fs.get(R + '/p')
        fs.remove(R + '/p')
    codec0 = ref.parse(fs.get(arc)).meta.codec
    for i, op in enumerate(scn['ops']):
        old = fs.get(arc)
        p = ref.parse(old)
        m = p.meta
        val = mkval(op, m.max_size, cur)
        codec = 'zlib' if op['codec'] == 'def' else op['codec']
        lvl = 6 if op['lvl'] == 'def' else op['lvl']
        over = {}
        if op['codec'] != 'def':
            over['codec'] = op['codec']
        if op['lvl'] != 'def':
            over['level'] = op['lvl']
        if op['magic']:
            over['magic_format'] = b'JSON'
        cs = ref.CHECKSUMS[m.checksum]
        if op['cs']:
            import random
            cs = random.Random(op['seed']).choice(SAME[ref.SIZES[m.checksum]])
            over['checksum'] = cs
        use_cli = op['cli'] and p.has_offsets and data and p.chunk_size
        if use_cli:
            over, codec, lvl, cs = {}, 'zlib', 6, ref.CHECKSUMS[m.checksum]
        # a null codec / level argument means: keep what the header has
        ecodec = {0: 'None', 1: 'zlib'}[m.codec] if codec is None else codec
        elvl = m.level if lvl is None else lvl
        raw = ser(val)
        comp = len(zlib.compress(raw, elvl)) if ecodec == 'zlib' else len(raw)
        need = min(comp, len(raw))
        w = cx.world(fs, op['knobs'])
        base = base_of(fs)
        start = fs.clone()
        fs.log = []
        if use_cli:
            cx.probe('cli')
            fs.put(R + '/m.json', json.dumps(val).encode())
            fs.put(R + '/none', b'')
            base = base_of(fs)
            fs.log = []
            o = attempt(w, lambda: ops.cli(['append', '-m', R + '/m.json', arc, R + '/none']))
        else:
            o = attempt(w, lambda: ops.rewrite_meta(arc, val, **over))
        log, fs.log = fs.log, None
        now = fs.get(arc)
        tag = 'rewrite %d (%d bytes, allocated %d, %r, %s)' % (i, len(raw), m.max_size, over, op['how'])
        cx.no_abort(o, tag)
        if cur == val:
            cx.probe('nochange')
            cx.check(not o.ok, 'nochange', tag + ': unchanged metadata accepted')
            cx.check(now == old, 'changed', tag + ': refused but changed')
            continue
        if need > m.max_size:
            cx.probe('toosmall')
            cx.check(not o.ok, 'toosmall', tag + ': does not fit but was accepted')
            cx.check(now == old, 'changed', tag + ': refused but changed')
            continue
        cx.must(o, tag)
        cx.probe('ok')
        if need == m.max_size:
            cx.probe('exact-fit')
        cx.check(len(now) == len(old) or use_cli, 'length', lambda: tag + ': length %d -> %d' % (len(old), len(now)))
        try:
            q = ref.parse(now)
            got = ref.meta_value(q.meta)
        except ref.FormatError as e:
            cx.fail('format', tag + ': %s' % e)
        cx.check(same_json(got, val), 'metadata', lambda: tag + ': reads %r' % (got,))
        cx.check(q.meta.max_size == m.max_size and q.meta.end == m.end, 'allocation',
                 lambda: tag + ': allocation %d -> %d' % (m.max_size, q.meta.max_size))
        if not use_cli:
            cx.check(now[:32] == old[:32] and now[m.end:] == old[m.end:], 'contained', lambda: tag +
                     ': changed bytes outside the metadata section, first at %d' %
                     (first_diff(now[:32] + now[m.end:], old[:32] + old[m.end:])))
        cx.check(q.meta.checksum == ref.CHECKSUMS.index(cs), 'checksum-kind', lambda: tag +
                 ': checksum %d, expected %s' % (q.meta.checksum, cs))
        bad = ref.conformance(now, payload=data, metadata=val, has_meta=True, allow_trailing=True)
        cx.check(not bad, 'conformance', lambda: tag + ': ' + '; '.join(bad))
        if q.meta.codec:
            cx.probe('compressed')
        elif ecodec == 'zlib':
            cx.probe('codec-dropped')
        w2 = cx.world(fs, op['knobs'])
        u = ops.unpack_bytes(w2, ['bytes_file', 'file', 'fp', 'fp_bio'][i % 4], arc, R + '/out')
        out, md = cx.must(u, tag + ': reading back')
        cx.check(same_json(md, val), 'metadata', lambda: tag + ': read %r instead of %r' % (md, val))
        cx.check(out == data, 'data', tag + ': data changed')
        cx.evals += 1
        cx.fp(cfg_class(c)[2:], op['how'], op['codec'], op['lvl'], q.meta.codec, 'ok', use_cli)
        if scn['crash'] and i == len(scn['ops']) - 1 and m.checksum and not use_cli:
            for f in scn.get('faults', []):
                broken(cx, start.clone(), op, over, f, arc, old, m, data, cur, val, tag)
            crash(cx, scn, base, log, arc, old, m, data, cur, val, tag)
        cur = val


def crash(cx, scn, base, log, arc, old, m, data, cur, val, tag):
    import random
    ci = CrashImages(base, log)
    pts = list(ci.points())
    if len(pts) > 120:
        pts = sorted(random.Random(scn['seed']).sample(pts, 120))
    for i, t in pts:
        cx.fault('crash')
        judge(cx, ci.image(i, t)[arc], tag + ', cut at write %d+%d' % (i, t), old, m, data, cur, val)


def broken(cx, fs, op, over, f, arc, old, m, data, cur, val, tag):
    """The rewrite is ended by an error instead of a crash."""
    _, o, _, _ = with_faults(cx, fs, op['knobs'], lambda: ops.rewrite_meta(arc, val, **over), [f])
    if not o.ok:
        cx.probe('ended-by-exception')
        judge(cx, fs.get(arc), tag + ', ended by %s (%s)' % (cx.resolved, o.describe()),
              old, m, data, cur, val)
    cx.resolved = None


def judge(cx, img, tag, old, m, data, cur, val):
    arc = R + '/a.blp'
    cx.check(img[:32] == old[:32] and img[m.end:] == old[m.end:], 'crash-contained',
             lambda: tag + ': bytes outside the section changed')
    w = cx.world(None)
    w.fs.put(arc, img)
    u = ops.unpack_bytes(w, 'bytes_file', arc, None)
    cx.no_abort(u, 'reading a crash image')
    if not u.ok:
        cx.probe('crash-error')
        r = 'err'
    else:
        out, md = u.value
        r = 'old' if same_json(md, cur) else 'new' if same_json(md, val) else None
        if r is None:
            cx.fail('mixture', tag + ': metadata reads %r, neither old %r nor new %r' %
                    (md, cur, val))
        cx.check(out == data, 'crash-data', tag + ': data differs')
        cx.probe('crash-' + r)
    cx.evals += 1
    d = first_diff(img, old)
    cx.fp('crash', r, m.checksum, m.codec, 'same' if d == len(old) else 'header' if d < m.payload_pos
          else 'payload')

