"""C15: restoring an array never writes or exposes memory outside the data."""
import copy
import ctypes
import struct

from .common import *

ID = 'C15'
COUNTS = {'quick': 9000, 'thorough': 300000}
RULE = ('one run = one archive whose array metadata and chunks are made to disagree in a random way '
        '(or not at all), restored through every surface with fresh memory poisoned and every '
        'native write checked against the bounds of the array it goes to; fingerprint = '
        '(disagreements, dtype, where it ended, surface)')
PROBES = ('agrees', 'restored', 'refused', 'object-dtype', 'extra-chunk', 'missing-chunk', 'shape',
          'dtype', 'order', 'nbytes-forged', 'appended', 'memory-source', 'native-writes',
          'poisoned', 'zero-size', 'nonuniform', 'fault')

SURF = ['nfile', 'nbytes', 'nfp', 'nunpack_file', 'nmem']
DT = ['|u1', '<i2', '>i4', '<f8', '|S5', '<U2', '|V3', '<M8[ns]', '|b1',
      [['a', '<i2'], ['b', '>f4']], [['a', '|u1'], ['', '|V3'], ['b', '<i4']],
      [['a', '<i2', [2, 2]], ['b', [['x', '|u1'], ['y', '<f8']]]]]

# ways to make things disagree
HOW = ['extra', 'missing', 'bigger', 'smaller', 'shape+', 'shape-', 'shape0', 'shape-neg', 'shape-odd',
       'shape-huge', 'dtype-big', 'dtype-small', 'dtype-obj', 'dtype-obj2', 'dtype-junk', 'dtype-sub',
       'dtype-old', 'order', 'order-junk', 'container', 'nokey', 'nbytes+', 'nbytes-', 'nbytes-max',
       'append', 'none-meta', 'list-meta', 'nchunks+', 'nchunks-', 'swap', 'empty', 'shape-perm']


def scenario(rng, tier):
    isz = rng.choice([1, 1, 2, 4, 8])
    scn = {'dt': rng.randrange(len(DT)), 'shape': rng.choice([[], [1], [7], [64], [1000], [3, 5], [4, 4, 2],
                                                              [0], [2, 0, 3], [5000]]),
           'order': rng.choice(['C', 'C', 'F']), 'per': rng.choice([1, 2, 7, 16, 100, 1000, 100000]),
           'uneven': rng.random() < .2, 'seed': rng.randrange(1 << 20),
           'checksum': rng.choice([0, 0, 1, 2, 8]), 'offsets': rng.random() < .7,
           'cname': rng.choice(gen.CNAMES), 'clevel': rng.choice([0, 1, 5, 9]),
           'kind': rng.choice(['rand', 'seq', 'text', 'zeros']),
           'how': sorted(rng.sample(HOW, rng.choice([0, 1, 1, 1, 1, 2, 2, 3]))),
           'arg': rng.randrange(1 << 16), 'knobs': gen.knobs(rng, .6), 'level': level(rng),
           'surf': rng.sample(SURF, rng.choice([1, 2, 3])), 'repr': rng.random() < .9,
           'fault': fault_spec(rng, ['eio_read', 'memerr', 'kbint', 'codec_fail', 'shrink'])
           if rng.random() < .08 else None}
    return scn


def np_dtype(spec):
    """numpy dtype of a description (list form), built without numpy.lib.format."""
    import numpy as np
    if isinstance(spec, str):
        return np.dtype(spec)
    names, formats, offs, pos = [], [], [], 0
    for f in spec:
        d = np_dtype(f[1])
        if len(f) == 3:
            d = np.dtype((d, tuple(f[2])))
        if f[0]:
            names.append(f[0])
            formats.append(d)
            offs.append(pos)
        pos += d.itemsize
    return np.dtype({'names': names, 'formats': formats, 'offsets': offs, 'itemsize': pos})


def descr(spec):
    """repr() form of a description as stored in the archive."""
    def conv(s):
        if isinstance(s, str):
            return s
        return [tuple([f[0], conv(f[1])] + ([tuple(f[2])] if len(f) == 3 else [])) for f in s]
    return repr(conv(spec))


def build(scn, cx):
    """(chunks, header keywords, metadata, agrees)."""
    spec = DT[scn['dt']]
    dt = np_dtype(spec)
    n = 1
    for s in scn['shape']:
        n *= s
    data = gen.realise({'kind': scn['kind'], 'n': n * dt.itemsize, 'seed': scn['seed']})
    if not data:
        cx.probe('zero-size')
    step = scn['per'] * dt.itemsize
    pieces = [data[i:i + step] for i in range(0, len(data), step)] or [b'']
    if len(pieces) > 300:
        step = -(-len(data) // 300)
        pieces = [data[i:i + step] for i in range(0, len(data), step)]
    if scn['uneven'] and len(pieces) > 1:
        pieces[0], pieces[-1] = pieces[0] + pieces[1][:1], pieces[-1]
        pieces[1] = pieces[1][1:]
        if not pieces[1]:
            pieces.pop(1)
        cx.probe('nonuniform')
    ts = min(255, max(1, dt.itemsize))
    C = lambda d: ref.compress(d, ts, scn['clevel'], 1, scn['cname'])
    chunks = [C(p) for p in pieces]
    meta = {'dtype': descr(spec) if scn['repr'] else (spec if isinstance(spec, str) else spec),
            'shape': list(scn['shape']), 'order': scn['order'], 'container': 'numpy'}
    kw = {'chunk_size': max(len(pieces[0]), len(pieces[-1])), 'last_chunk': len(pieces[-1]),
          'typesize': ts, 'checksum': scn['checksum'], 'offsets': scn['offsets'],
          'max_app': 4 if scn['offsets'] else 0}
    arg = scn['arg']
    extra = gen.realise({'kind': 'rand', 'n': [1, dt.itemsize, 64, 5000][arg % 4], 'seed': arg})
    app = None
    for how in scn['how']:
        sh = meta.get('shape') if isinstance(meta, dict) else None
        if how in ('extra', 'append'):
            if how == 'append' and scn['offsets'] and kw['chunk_size'] and not scn['uneven']:
                app = extra
                cx.probe('appended')
            else:
                chunks.append(C(extra))
                cx.probe('extra-chunk')
        elif how == 'missing' and len(chunks) > 1:
            chunks.pop(arg % len(chunks))
            cx.probe('missing-chunk')
        elif how == 'bigger':
            i = arg % len(chunks)
            chunks[i] = C(pieces[min(i, len(pieces) - 1)] + extra)
        elif how == 'smaller':
            i = arg % len(chunks)
            chunks[i] = C(pieces[min(i, len(pieces) - 1)][:-1])
        elif how == 'empty':
            chunks[arg % len(chunks)] = C(b'')
        elif how == 'swap':
            chunks.reverse()
        elif how in ('nbytes+', 'nbytes-', 'nbytes-max'):
            i = arg % len(chunks)
            c = bytearray(chunks[i])
            nb = struct.unpack('<I', c[4:8])[0]
            nb = {'nbytes+': nb + 1 + arg % 97, 'nbytes-': max(0, nb - 1 - arg % 7),
                  'nbytes-max': [0x7fffffff, 0xffffffff, 0x80000000, 1 << 20][arg % 4]}[how]
            c[4:8] = struct.pack('<I', nb)
            chunks[i] = bytes(c)
            cx.probe('nbytes-forged')
        elif how in ('nchunks+', 'nchunks-'):
            kw['nchunks'] = max(0, len(chunks) + (1 if how == 'nchunks+' else -1))
        elif not isinstance(meta, dict):
            continue
        elif how.startswith('shape'):
            cx.probe('shape')
            if not isinstance(sh, list) and how in ('shape+', 'shape-', 'shape-neg', 'shape-perm') \
                    or isinstance(sh, list) and sh and type(sh[-1]) is not int:
                continue
            if how == 'shape+':
                meta['shape'] = (sh[:-1] + [sh[-1] + 1]) if sh else [2]
            elif how == 'shape-':
                meta['shape'] = (sh[:-1] + [max(0, sh[-1] - 1)]) if sh else [0]
            elif how == 'shape0':
                meta['shape'] = [0]
            elif how == 'shape-neg':
                meta['shape'] = [-1] if arg % 2 else sh + [-1, -1]
            elif how == 'shape-odd':
                meta['shape'] = [None, 'abc', 3, 2.5, [[1, 2]], [1.0], {}, ['3'], [True]][arg % 9]
            elif how == 'shape-huge':
                meta['shape'] = [[1 << 62, 4], [1 << 40], [1 << 63], [1 << 32, 1 << 32]][arg % 4]
            elif how == 'shape-perm':
                meta['shape'] = sh[::-1]
        elif how.startswith('dtype'):
            cx.probe('dtype')
            if how == 'dtype-big':
                meta['dtype'] = "'|V%d'" % (dt.itemsize + 1 + arg % 300)
            elif how == 'dtype-small':
                meta['dtype'] = "'|V%d'" % max(1, dt.itemsize - 1)
            elif how == 'dtype-obj':
                meta['dtype'] = "'|O'"
            elif how == 'dtype-obj2':
                meta['dtype'] = ["[('a', '<i4'), ('b', '|O')]", "[('a', [('c', 'O')])]",
                                 "('|O', (2,))", [['a', '|O']], '|O', "[('a', '|O', (1,))]"][arg % 6]
            elif how == 'dtype-junk':
                meta['dtype'] = ["'", '', "'zz9'", '[]', [], 17, None, "[('a',)]", "__import__('os')",
                                 '()', '{}', "'<f8,<i4'", "('<f8', 3)", "'<V0'", "'|S0'", '[[]]'][arg % 16]
            elif how == 'dtype-sub':
                meta['dtype'] = "(%s, (2,))" % descr(spec)
            elif how == 'dtype-old':
                meta['dtype'] = spec
        elif how == 'order':
            meta['order'] = {'C': 'F', 'F': 'C'}.get(meta.get('order'), 'C')
            cx.probe('order')
        elif how == 'order-junk':
            meta['order'] = ['A', 'K', 'X', '', None, 3, 'c'][arg % 7]
            cx.probe('order')
        elif how == 'container':
            meta['container'] = [None, 'pickle', 'NumPy', 1][arg % 4]
        elif how == 'nokey':
            if meta:
                meta.pop(sorted(meta)[arg % len(meta)], None)
        elif how == 'none-meta':
            meta = None
        elif how == 'list-meta':
            meta = [[], 'numpy', 5, {}, [1]][arg % 5]
    return chunks, kw, meta, app


def has_object(meta):
    if not isinstance(meta, dict):
        return False
    return 'O' in json.dumps(meta.get('dtype'))


def run(scn, cx):
    import numpy as np
    set_level(scn['level'])
    chunks, kw, meta, app = build(scn, cx)
    arc = R + '/a.blp'
    try:
        blob = ref.write(chunks, meta=meta, **kw)
    except struct.error:
        raise Skip()
    w0 = cx.world(None, scn['knobs'])
    w0.fs.put(arc, blob)
    if app:
        w0.fs.put(R + '/new', app)
        o = attempt(w0, lambda: ops.append('file', arc, R + '/new', None))
        cx.no_abort(o, 'append')
        blob = w0.fs.get(arc)
    huge = any(struct.unpack('<I', c[4:8])[0] > 1 << 26 for c in chunks)
    try:
        if any(c.nbytes > 1 << 26 for c in ref.parse(blob).chunks):
            raise ref.FormatError('forged size')        # do not allocate that much here
        payload, md = ref.decode(blob)
        why = None
    except ref.FormatError as e:
        payload, why = None, str(e)
    agrees = not scn['how'] or scn['how'] == ['dtype-old']
    if agrees:
        cx.probe('agrees')
    tag0 = '%s, dtype %s shape %s order %s' % (
        '+'.join(scn['how']) or 'agreeing', meta.get('dtype') if isinstance(meta, dict) else meta,
        meta.get('shape') if isinstance(meta, dict) else '-', scn['order'])
    if has_object(meta):
        cx.probe('object-dtype')
    forged = any(h.startswith('nbytes') for h in scn['how'])
    for s in scn['surf']:
        if s == 'nmem' and (meta is None or kw.get('nchunks') is not None or app):
            continue
        res = restore(scn, cx, w0, s, arc, chunks, meta, kw)
        tag = '%s via %s' % (tag0, s)
        cx.evals += 1
        for p, n in res['probes'].items():
            cx.probe(p, n)
        for k in res['faults']:
            cx.probe('fault')
        cx.check(res['violation'] is None, 'out-of-bounds', lambda: '%s: %s' % (tag, res['violation']))
        cx.check(res['abort'] is None, 'budget', lambda: '%s: %s' % (tag, res['abort']))
        cx.fp('+'.join(scn['how']), scn['dt'], res['kind'], s, len(chunks) > 1)
        if not res['ok']:
            cx.probe('refused')
            # whether a refusal of agreeing metadata is right is left to C02 and C20
            if agrees and not scn['fault'] and not scn['uneven'] and why is None:
                cx.fail('refused', '%s: refused: %s' % (tag, res['what']))
            continue
        cx.probe('restored')
        cx.check(not res['hasobject'], 'objects', lambda: '%s: array with Python objects from stored bytes' % tag)
        if s == 'nmem':
            try:
                if huge:
                    raise ValueError
                pay = b''.join(ref._decompress(c) for c in chunks)
            except Exception as e:
                pay = None
        else:
            pay = payload
        if pay is None:
            cx.fail('invented', '%s: array returned although the archive is invalid: %s' % (tag, why))
        cx.check(res['nbytes'] == len(pay), 'size', lambda:
                 '%s: array of %d bytes from %d bytes of data' % (tag, res['nbytes'], len(pay)))
        cx.check(res['mem'] == pay, 'invented', lambda: '%s: array differs from the data at byte %d' %
                 (tag, first_diff(res['mem'], pay)))
        sh = meta['shape']
        if isinstance(sh, list) and 'dtype-sub' not in scn['how']:
            cx.check(list(res['shape'])[:len(sh)] == [int(x) for x in sh], 'shape',
                     lambda: '%s: shape %r' % (tag, res['shape']))


def restore(scn, cx, w0, s, arc, chunks, meta, kw):
    """Restore once; returns a description of what came back."""
    from bloscpack.numpy_io import unpack_ndarray
    from bloscpack.memory_io import CompressedMemorySink, CompressedMemorySource
    w = cx.world(w0.fs.clone(), scn['knobs'])
    w.mem = []
    if s == 'nmem':
        def call():
            sink = CompressedMemorySink()
            sink.configure(None, _header(kw, len(chunks)))
            sink.write_bloscpack_header()
            sink.write_metadata(copy.deepcopy(meta), None)
            sink.init_offsets()
            for i, c in enumerate(chunks):
                sink.put(i, c)
            sink.finalize()
            return unpack_ndarray(CompressedMemorySource(sink))
    else:
        call = lambda: ops.nunpack(s, arc)
    if scn['fault']:
        # dry run in the same process to locate the fault
        w1 = cx.world(w0.fs.clone(), scn['knobs'])
        w1.plan = dry_plan([scn['fault']])
        attempt(w1, call)
        w.plan = arm([scn['fault']], [f['seen'] for f in w1.plan])
    o = attempt(w, call)
    r = {'ok': o.ok, 'kind': o.kind(), 'what': o.describe(), 'violation': getattr(w, 'mem_violation', None),
         'abort': None if o.abort is None or isinstance(o.abort, env.MemoryViolation) else str(o.abort),
         'faults': [f[0] for f in w.fired],
         'probes': {'native-writes': getattr(w, 'mem_checked', 0), 'poisoned': getattr(w, 'poisoned', 0)}}
    if s == 'nmem':
        r['probes']['memory-source'] = 1
    if o.ok:
        a = o.value
        r['hasobject'] = bool(a.dtype.hasobject)
        r['nbytes'], r['shape'] = a.nbytes, a.shape
        if not r['hasobject']:
            if a.flags.c_contiguous or a.flags.f_contiguous:
                r['mem'] = ctypes.string_at(a.__array_interface__['data'][0], a.nbytes)
            else:
                r['mem'] = a.tobytes('A')
        if r['hasobject']:          # tearing it down would follow wild pointers
            ctypes.pythonapi.Py_IncRef(ctypes.py_object(a))
    return r


def _header(kw, n):
    from bloscpack.headers import BloscpackHeader
    return BloscpackHeader(checksum='None', typesize=kw['typesize'], chunk_size=kw['chunk_size'],
                           last_chunk=kw['last_chunk'], nchunks=n, max_app_chunks=0, offsets=False,
                           metadata=True)
