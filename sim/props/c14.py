"""C14: every archive written conforms to the documented format."""
import zlib

from .common import *

ID = 'C14'
COUNTS = {'quick': 6000, 'thorough': 200000}
RULE = ('one run = one archive written through a random surface with random arguments, then up to '
        'four appends and metadata rewrites; after each step the file is parsed by the independent '
        'implementation and every header field, offset, chunk header, checksum and metadata header '
        'field compared with what arguments and data demand; fingerprint = (surface, configuration '
        'class, array class, history so far)')
PROBES = ('bytes', 'array', 'append', 'rewrite', 'meta-dropped', 'meta-zlib', 'meta-none', 'no-offsets',
          'max-app-ignored', 'empty', 'debug', 'prealloc', 'huge-max-app', 'existing-longer')

NS = ['nfile', 'nbytes', 'nfp', 'npack_file', 'npack_str']


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=rng.random() < .7), 'level': level(rng), 'knobs': gen.knobs(rng),
           'numpy': rng.random() < .3, 'seed': rng.randrange(1 << 30)}
    scn['pack'] = rng.choice(NS if scn['numpy'] else ops.PACK)
    c = scn['cfg']
    scn['knobs'] = gen.tame(scn['knobs'], c['data']['n'])
    if scn['pack'] == 'cli':
        c['margs'] = None
        if c['bp']:
            c['bp']['max_app'] = None
        if c['meta'] and c['meta'][0] is None:
            c['meta'] = None
    if rng.random() < .03 and c['bp'] and scn['pack'] != 'cli':
        c['bp']['max_app'] = 3000 if scn['numpy'] else rng.choice([['mul', 2000], 3000])
        scn['knobs'] = gen.tame(scn['knobs'], 1 << 20)
    if scn['numpy']:
        scn['arr'] = gen.array_spec(rng)
        scn['items'] = rng.choice([1, 2, 5, 100, 100000])
    scn['exists'] = rng.random() < .2
    scn['ops'] = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
        if rng.random() < .6:
            scn['ops'].append({'op': 'append', 'size': [rng.choice([-1, 0, 0, 1, 7]), rng.choice([0, 1, 1, 2, 3])],
                               'blosc': gen.blosc_args(rng, .4), 'seed': rng.randrange(1000),
                               'surface': rng.choice(['file', 'fp', 'fp_bio', 'cli'])})
        else:
            scn['ops'].append({'op': 'rewrite', 'value': gen.metadata(rng),
                               'over': rng.choice([{}, {}, {'codec': 'None'}, {'codec': 'zlib'},
                                                   {'codec': 'zlib', 'level': rng.choice([0, 1, 9])},
                                                   {'level': rng.choice([1, 5])}])})
    return scn


DEF_B = {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}


def head(plain, b, ts):
    """First four bytes of the Blosc header that these arguments give."""
    return ref.compress(plain, ts, b['clevel'], int(b['shuffle']), b['cname'])[:4]


def want_meta(value, m):
    """Expected metadata header fields."""
    raw = json.dumps(value, separators=(',', ':')).encode()
    m = m or {'meta_checksum': 'adler32', 'meta_codec': 'zlib', 'meta_level': 6, 'max_meta_size': None}
    return raw, m


def check_meta(cx, tag, q, value, m, alloc=None):
    """alloc: allocation that must be kept, or None right after packing."""
    h = q.meta
    raw, m = want_meta(value, m)
    bad = []
    try:
        v = ref.meta_value(h)
        if not same_json(v, value):
            bad.append('value %r' % (v,))
    except ref.FormatError as e:
        bad.append(str(e))
        v = None
    if h.checksum != ref.CHECKSUMS.index(m['meta_checksum']):
        bad.append('meta-checksum %d for %s' % (h.checksum, m['meta_checksum']))
    if h.options != 0:
        bad.append('meta-options')
    n = h.size
    if not bad:
        body = h.payload if h.codec == 0 else zlib.decompress(h.payload)
        comp = zlib.compress(body, m['meta_level'])
        if m['meta_codec'] == 'None':
            codec = (0,)
        elif len(comp) > n:
            codec = (0,)
            cx.probe('meta-dropped')
        elif len(comp) == n:
            codec = (0, 1)
        else:
            codec = (1,)
        if h.codec not in codec:
            bad.append('meta-codec %d, %d bytes raw, %d compressed' % (h.codec, n, len(comp)))
        elif h.codec == 1 and (h.level != m['meta_level'] or h.comp_size != len(comp)):
            bad.append('meta-level %d (%d bytes) for %d (%d bytes)' %
                       (h.level, h.comp_size, m['meta_level'], len(comp)))
        elif h.codec == 0 and (h.level != 0 or h.comp_size != n):
            bad.append('meta-level %d, comp size %d of %d without codec' % (h.level, h.comp_size, n))
        cx.probe('meta-zlib' if h.codec else 'meta-none')
    mx = alloc
    if mx is None:
        f = m.get('max_meta_size')
        mx = 10 * n if f is None else gen.callable_or(f)(n) if isinstance(f, list) else f
    if h.max_size != mx:
        bad.append('max-meta-size %d instead of %d' % (h.max_size, mx))
    if h.max_size > h.comp_size:
        cx.probe('prealloc')
    if h.user_codec.strip(b'\0'):
        bad.append('user-codec %r' % h.user_codec)
    if not h.ok:
        bad.append('metadata checksum')
    cx.check(not bad, 'metadata', lambda: '%s: %s' % (tag, '; '.join(bad)))


def run(scn, cx):
    import numpy as np
    c = scn['cfg']
    set_level(scn['level'])
    arc = R + '/a.blp'
    w = cx.world(None, scn['knobs'])
    if scn['exists']:
        cx.probe('existing-longer')
        w.fs.put(arc, b'\xab' * 300000)
    b = dict(c.get('blosc') or DEF_B)
    mexp, mval = c.get('margs'), meta_val(c)
    hasm = has_meta(c)
    if scn['numpy']:
        try:
            a = gen.mk_array(scn['arr'])
        except (ValueError, IndexError, TypeError):
            raise Skip()
        isz = a.dtype.itemsize
        if a.dtype.hasobject or isz > 255 or isz == 0:
            raise Skip()
        c = dict(c, chunk=scn['items'] * isz)
        b['typesize'] = isz
        o = attempt(w, lambda: ops.npack(scn['pack'], c, a, arc))
        if not o.ok and not _descr_ok(a.dtype):
            raise Skip()
        cx.must(o, 'packing an array')
        data = np.asarray(a).tobytes('F' if np.isfortran(a) else 'C')
        if o.value is not None:
            w.fs.put(arc, o.value)
        hasm, mval = True, None
        cx.probe('array')
        padded = a.dtype.names is not None
    else:
        data = gen.realise(c['data'])
        w.fs.put(R + '/in', data)
        o = attempt(w, lambda: ops.pack(scn['pack'], c, data, arc, R + '/in'))
        cx.must(o, 'packing')
        if scn['pack'] in ('bytes', 'fp_bio'):
            w.fs.put(arc, o.value)
        cx.probe('bytes')
        padded = False
    if scn['level'] == 'DEBUG':
        cx.probe('debug')
    tag = '%s via %s' % ('array' if scn['numpy'] else '%d bytes' % len(data), scn['pack'])
    nch, cs, last = chunking(len(data), c['chunk'])
    offs = eff_offsets(c['bp'])
    app = eff_max_app(c['bp'], nch)
    if not offs:
        cx.probe('no-offsets')
        if c['bp'] and c['bp'].get('max_app'):
            cx.probe('max-app-ignored')
    if not data:
        cx.probe('empty')
    if app > 1000:
        cx.probe('huge-max-app')
    exp = {'version': 3, 'options': int(offs) | (2 if hasm else 0),
           'checksum': ref.CHECKSUMS.index(eff_checksum(c['bp'])), 'typesize': b['typesize'],
           'chunk_size': cs, 'last_chunk': last, 'nchunks': nch, 'max_app': app}
    margs = [b] * nch           # arguments with which each chunk was compressed
    first = None
    hist = [scn['pack'], cfg_class(c) if not scn['numpy'] else (a.dtype.kind, a.ndim, nch > 1)]
    alloc = None
    blob = verify(cx, tag, w, arc, exp, data, margs, hasm, False, padded)
    q = ref.parse(blob)
    if scn['numpy']:
        try:
            mval = ref.meta_value(q.meta)
        except ref.FormatError as e:
            cx.fail('metadata', '%s: %s' % (tag, e))
        want = {'shape': list(a.shape), 'order': 'F' if np.isfortran(a) else 'C',
                'container': 'numpy'}
        got = {k: mval.get(k) for k in want}
        cx.check(got == want, 'array-metadata', lambda: '%s: %r instead of %r' % (tag, got, want))
    if hasm:
        check_meta(cx, tag, q, mval, mexp)
        alloc = q.meta.max_size
    cx.fp(*hist)
    for i, op in enumerate(scn['ops']):
        w = cx.world(w.fs, gen.tame(scn['knobs'], len(data)))
        if op['op'] == 'append':
            if not offs or not cs:
                continue
            room = cs - last
            n = max(0, room + op['size'][0] + op['size'][1] * cs)
            n = min(n, room + app * cs, 200000)
            new = gen.realise({'kind': 'mixed', 'n': n, 'seed': op['seed']})
            w.fs.put(R + '/new', new)
            ob = op['blosc']
            o = attempt(w, lambda: ops.append(op['surface'], arc, R + '/new', ob))
            cx.must(o, '%s, then append %d' % (tag, n))
            if ob is None:
                ob = dict(DEF_B)
                if op['surface'] != 'cli':
                    ob['typesize'] = exp['typesize']
            need = 0 if n <= room else -(-(n - room) // cs)
            data += new
            # a last chunk that gets nothing added may be kept or recompressed
            margs = margs[:nch - 1] + [ob if room and n else None] + [ob] * need
            last = last + n if not need else n - room - (need - 1) * cs
            nch += need
            app -= need
            exp.update(nchunks=nch, max_app=app, last_chunk=last)
            tag += ', append %d via %s' % (n, op['surface'])
            cx.probe('append')
        else:
            if not hasm:
                continue
            old = w.fs.get(arc)
            o = attempt(w, lambda: ops.rewrite_meta(arc, op['value'], **op['over']))
            cx.no_abort(o, 'rewrite')
            if not o.ok:
                cx.check(w.fs.get(arc) == old, 'refused-changed', tag + ': refused rewrite changed the file')
                continue
            cx.probe('rewrite')
            mval = op['value']
            h0 = q.meta
            m = {'meta_checksum': ref.CHECKSUMS[h0.checksum],
                 # compression is tried again on every rewrite (documented policy)
                 'meta_codec': op['over'].get('codec', 'zlib'),
                 'meta_level': op['over'].get('level', 6)}
            mexp = m
            tag += ', rewrite %s' % op['over']
        blob = verify(cx, tag, w, arc, exp, data, margs, hasm, True, padded)
        q = ref.parse(blob)
        if hasm:
            if op['op'] == 'rewrite':
                check_meta(cx, tag, q, mval, mexp, alloc)
            else:
                cx.check(same_json(ref.meta_value(q.meta), mval), 'metadata', tag + ': metadata changed')
        hist.append(op['op'])
        cx.evals += 1
        cx.fp(*hist)


def _descr_ok(dt):
    try:
        dt.descr
        return True
    except ValueError:
        return False


def verify(cx, tag, w, arc, exp, data, margs, hasm, trailing, padded):
    blob = w.fs.get(arc)
    bad = ref.conformance(blob, payload=None if padded else data, expect=exp, allow_trailing=trailing)
    try:
        q = ref.parse(blob)
    except ref.FormatError as e:
        cx.fail('format', '%s: %s' % (tag, e))
    if (q.meta is not None) != hasm:
        bad.append('metadata section present: %s' % (q.meta is not None))
    if not bad:
        cs = exp['chunk_size']
        for i, (ch, b) in enumerate(zip(q.chunks, margs)):
            if b is None or padded:
                continue
            plain = data[i * cs:(i + 1) * cs] if cs else b''
            h = head(plain, b, b['typesize'])
            if ch.comp[:4] != h:
                bad.append('blosc header of chunk %d starts %s, arguments give %s' %
                           (i, ch.comp[:4].hex(), h.hex()))
                break
            if i > 6 and i < len(q.chunks) - 4:
                continue
    cx.check(not bad, 'conformance', lambda: '%s: %s' % (tag, '; '.join(bad)))
    return blob
