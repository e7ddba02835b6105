"""C20: every conforming archive is read, whoever wrote it."""
import struct

from .common import *
from .c15 import DT, descr, np_dtype

ID = 'C20'
COUNTS = {'quick': 9000, 'thorough': 350000}
RULE = ('one run = one archive from the independent writer with random liberties the format gives '
        '(or one violation of it), read through two to all surfaces under random I/O granularity; '
        'fingerprint = (liberties taken, checksum, metadata encoding, violation, surface)')
PROBES = ('bytes', 'array', 'nonuniform', 'unknown-chunk-size', 'unknown-last', 'unfilled-offsets',
          'no-offsets', 'trailing', 'prealloc', 'space-magic', 'indent', 'utf8', 'user-codec', 'bitshuffle',
          'blocks', 'mixed-codecs', 'empty-chunk', 'dtype-old', 'dtype-nested', 'rejected', 'info',
          'invalid-version', 'invalid-options', 'invalid-checksum', 'invalid-moptions', 'invalid-mchecksum',
          'invalid-mcodec', 'invalid-magic', 'invalid-nchunks', 'invalid-file-magic', 'append-refused')

INVALID = ['version', 'version', 'options', 'options', 'checksum', 'moptions', 'mchecksum', 'mcodec', 'magic',
           'nchunks', 'file-magic']
NSURF = ['nfile', 'nbytes', 'nfp', 'nunpack_file', 'nunpack_str']
OLD = ['plain', 'list', 'repr', 'repr', 'urepr', 'spaces']


def scenario(rng, tier):
    array = rng.random() < .35
    k = rng.choice([1, 1, 2, 2, 3, 4, 6, 10, 40])
    uniform = rng.random() < .5
    size = rng.choice([1, 2, 7, 16, 64, 255, 1000, 4096])
    scn = {'array': array, 'seed': rng.randrange(1 << 20), 'kind': gen.data_kind(rng),
           'pieces': [size if uniform else rng.choice([0, 1, 3, 17, 100, 999, 5000]) for _ in range(k)],
           'tail': rng.choice([None, None, 1, 5]),
           'codecs': [{'typesize': rng.choice([1, 2, 3, 4, 8, 16, 100, 255]), 'clevel': rng.choice([0, 1, 5, 9]),
                       'shuffle': rng.choice([0, 1, 1, 2]), 'cname': rng.choice(gen.CNAMES)}
                      for _ in range(rng.choice([1, 1, 3]))],
           'block': rng.choice([0, 0, 0, 128, 512, 4096]),
           'typesize': rng.choice([0, 1, 4, 8, 255]), 'checksum': rng.randrange(9),
           'offsets': rng.random() < .7, 'max_app': rng.choice([0, 0, 1, 3, 30, 500]),
           'fill': rng.random() < .75, 'cs': rng.choice(['exact', 'exact', 'unknown', 'larger']),
           'lc': rng.choice(['exact', 'exact', 'unknown']), 'trailing': rng.choice([0] * 6 + [1, 7, 16, 100]),
           'meta': None, 'mo': None, 'invalid': rng.choice(INVALID) if rng.random() < .3 else None,
           'pick': rng.randrange(1 << 16), 'knobs': gen.knobs(rng, .5), 'level': level(rng),
           'all': rng.random() < .15,
           'dt': rng.randrange(len(DT)), 'old': rng.choice(OLD), 'order': rng.choice(['C', 'F']),
           'dims': rng.choice([0, 1, 1, 2, 3])}
    if array or rng.random() < .6 or scn['invalid'] in ('moptions', 'mchecksum', 'mcodec', 'magic'):
        if not array:
            scn['meta'] = [gen.metadata(rng)]
        codec = rng.choice([0, 0, 1, 1])
        scn['mo'] = {'checksum': rng.randrange(9), 'codec': codec,
                     'level': rng.choice([0, 1, 6, 9]) if codec else 0,
                     'extra': rng.choice([0, 0, 1, 10, 300, 5000]), 'indent': rng.choice([None, None, 0, 2]),
                     'ensure_ascii': rng.random() < .7, 'pre': rng.choice([0, 0, 32, 255, 123]),
                     'magic': rng.choice(['JSON', 'JSON', 'JSON    ', 'JSON ', 'JSON  ']),
                     'user': rng.choice(['', '', 'abcd', 'LZMA\1\2\3\4', '\xff' * 8, '\0x'])}
    return scn


def prepare_array(scn, payload, cx):
    spec = DT[scn['dt']]
    dt = np_dtype(spec)
    n = len(payload) // dt.itemsize
    payload = payload[:n * dt.itemsize]
    shape = [n]
    if scn['dims'] == 0 and n == 1:
        shape = []
    elif scn['dims'] >= 2:
        a = [x for x in (2, 3, 5, 1) if n % x == 0][0] if n else 0
        shape = [a, n // a if n else 4]
        if scn['dims'] == 3:
            shape.insert(scn['pick'] % 3, 1)
    d = descr(spec)
    old = scn['old']
    if old == 'plain' or old == 'list':
        d = spec
        cx.probe('dtype-old')
    elif old == 'urepr':
        d = d.replace("'", "u'", 1) if isinstance(spec, str) else \
            d.replace("('", "(u'").replace(", '", ", u'")
    elif old == 'spaces':
        d = d.replace(', ', ' ,  ')
    if not isinstance(spec, str) and any(not isinstance(f[1], str) or len(f) > 2 for f in spec):
        cx.probe('dtype-nested')
    return payload, dt, {'dtype': d, 'shape': shape, 'order': scn['order'], 'container': 'numpy'}


def build(scn, cx):
    sizes = list(scn['pieces'])
    if scn['tail'] is not None and len(sizes) > 1:
        sizes[-1] = min(scn['tail'], max(1, sizes[0]))
    payload = gen.realise({'kind': scn['kind'], 'n': sum(sizes), 'seed': scn['seed']})
    meta, dt = (scn['meta'][0], None) if scn['meta'] else (None, None)
    if scn['array']:
        payload, dt, meta = prepare_array(scn, payload, cx)
    has_meta = scn['mo'] is not None
    pieces, pos = [], 0
    for s in sizes:
        pieces.append(payload[pos:pos + s])
        pos += s
    while scn['array'] and len(pieces) > 1 and not pieces[-1]:
        pieces.pop()
    chunks = []
    for i, p in enumerate(pieces):
        c = scn['codecs'][i % len(scn['codecs'])]
        f = (lambda d, **k: ref.compress_blocks(d, scn['block'], **k)) if scn['block'] else ref.compress
        chunks.append(f(p, **c))
        if c['shuffle'] == 2:
            cx.probe('bitshuffle')
    if scn['block']:
        cx.probe('blocks')
    if len(scn['codecs']) > 1 and len(pieces) > 1:
        cx.probe('mixed-codecs')
    if any(not p for p in pieces):
        cx.probe('empty-chunk')
    big = max(len(p) for p in pieces)
    uniform = all(len(p) == big for p in pieces[:-1])
    if not uniform:
        cx.probe('nonuniform')
    cs, lc = big, len(pieces[-1])
    if scn['cs'] == 'unknown':
        cs = -1
        cx.probe('unknown-chunk-size')
    elif scn['cs'] == 'larger' and (len(pieces) == 1 or not uniform):
        cs = big + 1000
    if scn['lc'] == 'unknown':
        lc = -1
        cx.probe('unknown-last')
    kw = {'checksum': scn['checksum'], 'typesize': scn['typesize'], 'offsets': scn['offsets'],
          'max_app': scn['max_app'] if scn['offsets'] else 0, 'chunk_size': cs, 'last_chunk': lc,
          'fill_offsets': scn['fill'], 'trailing': gen.realise({'kind': 'rand', 'n': scn['trailing'],
                                                                'seed': scn['seed']})}
    cx.probe('no-offsets' if not scn['offsets'] else 'unfilled-offsets' if not scn['fill'] else 'bytes')
    if scn['trailing']:
        cx.probe('trailing')
    if has_meta:
        m = scn['mo']
        kw['meta_opts'] = {'checksum': m['checksum'], 'codec': m['codec'], 'level': m['level'],
                           'extra': m['extra'], 'indent': m['indent'], 'ensure_ascii': m['ensure_ascii'],
                           'prealloc_byte': bytes([m['pre']]), 'magic': m['magic'].encode('latin1'),
                           'user_codec': m['user'].encode('latin1')}
        for p, v in (('prealloc', m['extra']), ('space-magic', ' ' in m['magic']), ('indent', m['indent'] is not None),
                     ('utf8', not m['ensure_ascii']), ('user-codec', m['user'])):
            if v:
                cx.probe(p)
    return chunks, payload, meta, has_meta, dt, kw


def run(scn, cx):
    import ctypes
    set_level(scn['level'])
    arc, out, new = R + '/a.blp', R + '/out', R + '/new'
    chunks, payload, meta, has_meta, dt, kw = build(scn, cx)
    bad = scn['invalid']
    pick = scn['pick']
    if bad == 'nchunks':
        kw.update(nchunks=[-1, -1, -1, -2, -(1 << 63)][pick % 5], max_app=0)
    blob = bytearray(write(chunks, meta, has_meta, kw))
    if bad:
        bad = breach(bad, blob, pick, has_meta)
    blob = bytes(blob)
    if bad is None:
        try:
            q = ref.parse(blob)
        except ref.FormatError as e:
            raise Skip()
    tag0 = '%d chunks, %s' % (len(chunks), ' '.join('%s=%s' % (k, v) for k, v in sorted(kw.items())
                                                  if k != 'trailing'))
    surf = list(ops.UNPACK) + ['info']
    if scn['array']:
        surf += ['n:' + s for s in NSURF] * 2
    if not scn['all']:
        k = pick
        pick_ = []
        for _ in range(2 + pick % 2):
            pick_.append(surf[k % len(surf)])
            k = k // 3 + 7
        surf = pick_
    cls = (scn['cs'], scn['lc'], scn['offsets'], scn['fill'], bool(scn['trailing']), scn['checksum'],
           (scn['mo'] or {}).get('codec'), (scn['mo'] or {}).get('magic'), bad)
    for s in surf:
        fs = SimFS()
        fs.put(arc, blob)
        w = cx.world(fs, scn['knobs'])
        cx.evals += 1
        cx.fp(s, *cls)
        tag = '%s via %s' % (tag0, s)
        if s == 'info':
            o = attempt(w, lambda: ops.info(arc))
            cx.no_abort(o, tag)
            cx.probe('info')
            if bad is None:
                cx.check(o.ok, 'info-refused', lambda: '%s: %s' % (tag, o.describe()))
            elif bad != 'nchunks':
                cx.check(not o.ok, 'misread', lambda: '%s: info accepts an archive with invalid %s' % (tag, bad))
            continue
        if s.startswith('n:'):
            cx.probe('array')
            o = attempt(w, lambda: ops.nunpack(s[2:], arc))
            cx.no_abort(o, tag)
            if bad:
                cx.check(not o.ok, 'misread', lambda: '%s: read although its %s is invalid' % (tag, bad))
                cx.probe('rejected')
                continue
            cx.check(o.ok, 'refused', lambda: '%s: dtype %r: %s' % (tag, meta['dtype'], o.describe()))
            a = o.value
            mem = a.tobytes('A') if a.size else b''
            cx.check(list(a.shape)[:len(meta['shape'])] == meta['shape'], 'shape',
                     lambda: '%s: shape %s, expected %s' % (tag, a.shape, meta['shape']))
            cx.check(a.dtype == dt, 'dtype', lambda: '%s: dtype %s, expected %s' % (tag, a.dtype, dt))
            if a.ndim > 1 and a.size:
                cx.check(a.flags.f_contiguous if scn['order'] == 'F' else a.flags.c_contiguous, 'order',
                         lambda: '%s: memory order' % tag)
            raw = ctypes.string_at(a.__array_interface__['data'][0], a.nbytes)
            cx.check(raw == payload, 'data', lambda: '%s: array differs at byte %d' %
                     (tag, first_diff(raw, payload)))
            continue
        o = ops.unpack_bytes(w, s, arc, out)
        cx.no_abort(o, tag)
        if bad:
            cx.check(not o.ok, 'misread', lambda: '%s: read although its %s is invalid' % (tag, bad))
            cx.probe('rejected')
            continue
        cx.check(o.ok, 'refused', lambda: '%s: %s' % (tag, o.describe()))
        got, md = o.value
        cx.check(got == payload, 'data', lambda: '%s: %s instead of %s, first difference at %d' %
                 (tag, brief(got), brief(payload), first_diff(got, payload)))
        if md is not ops.CLI_META:
            cx.check(same_json(md, meta if has_meta else None), 'metadata',
                     lambda: '%s: metadata %r instead of %r' % (tag, md, meta))
    if bad:
        cx.probe('invalid-' + bad)
        # what can not be read must not be extended either
        fs = SimFS()
        fs.put(arc, blob)
        fs.put(new, b'new content')
        w = cx.world(fs, scn['knobs'])
        sf = ['file', 'fp', 'cli'][pick % 3]
        o = attempt(w, lambda: ops.append(sf, arc, new, None))
        cx.no_abort(o, 'append')
        cx.check(not o.ok and fs.get(arc) == blob, 'misread', lambda:
                 '%s: append via %s to an archive with invalid %s: %s, file %s' %
                 (tag0, sf, bad, o.describe(), 'unchanged' if fs.get(arc) == blob else 'changed'))
        cx.probe('append-refused')


def write(chunks, meta, has_meta, kw):
    if not has_meta:
        return ref.write(chunks, **kw)
    if meta is None:
        # null metadata: the writer takes None for "no metadata section"
        mo = dict(kw['meta_opts'], raw=b'null')
        return ref.write(chunks, **dict(kw, meta=0, meta_opts=mo))
    return ref.write(chunks, **dict(kw, meta=meta))


def breach(bad, b, pick, has_meta):
    """Break one rule of the format; returns the name or None if not applicable."""
    if bad in ('moptions', 'mchecksum', 'mcodec', 'magic') and not has_meta:
        bad = 'version'
    if bad == 'version':
        b[4] = [0, 1, 2, 4, 5, 131, 255, (3 ^ 1 << pick % 8)][pick % 8]
    elif bad == 'options':
        b[5] |= [4, 8, 16, 32, 64, 128, 252, 132][pick % 8]
    elif bad == 'checksum':
        b[6] = 9 + pick % 247
    elif bad == 'moptions':
        b[32 + 8] = 1 + pick % 255
    elif bad == 'mchecksum':
        b[32 + 9] = 9 + pick % 247
    elif bad == 'mcodec':
        b[32 + 10] = 2 + pick % 254
    elif bad == 'magic':
        b[32:40] = [b'BSON\0\0\0\0', b'YAML    ', b'json\0\0\0\0', b'JSONX\0\0\0', b'\0' * 8, b'JSO\0\0\0\0\0',
                    b'        ', b'PROTOBUF'][pick % 8]
    elif bad == 'file-magic':
        b[:4] = [b'blpK', b'BLPK', b'\0\0\0\0', b'blp\0', b'klpb', b'blosc'[:4], b'blpl', b' blp'][pick % 8]
    return bad
