"""C02: numpy round trip: dtype, shape, order, element bytes."""
import numpy as np

from .common import *

ID = 'C02'
COUNTS = {'quick': 9000, 'thorough': 200000}
RULE = ('one run = one random array (dtype incl. nested/sub-array/padded/aligned structs, '
        'memory layout, shape) packed through one surface and restored through two, under '
        'random stream granularity; fingerprint = (dtype class, layout, ndim, zero-size, '
        'chunk-count class, surfaces, checksum, offsets, outcome)')
PROBES = ('struct', 'padded', 'fortran', 'zero-size', 'zero-dim', 'refused', 'multi-chunk', 'mem',
          'special')

SPECIALS = ['S0', 'U0', 'recarray', 'titles', 'overlap', 'empty-struct', 'matrix', 'sub-record',
            'V0', 'object', 'object-field', 'memmap-like', 'big-endian-complex', 'bool-f',
            'one-by-n-f', 'negative-stride-2d', 'subclass', 'aligned-nested', 'huge-item',
            'datetime-units', 'names-odd', 'zero-in-middle-f']


def scenario(rng, tier):
    scn = {'arr': gen.array_spec(rng, big=True), 'knobs': gen.knobs(rng), 'knobs2': gen.knobs(rng),
           'level': level(rng),
           'cfg': {'blosc': gen.blosc_args(rng), 'bp': gen.bloscpack_args(rng),
                   'margs': gen.meta_args(rng, .6), 'chunk': 0}}
    if rng.random() < .12:
        scn['special'] = rng.choice(SPECIALS)
    scn['chunkspec'] = rng.choice([['items', rng.randint(1, 50)], ['items', rng.randint(1, 4)],
                                   ['items', rng.randint(1, 4)],
                                   ['frac', rng.randint(1, 9)], ['abs', '1M'], ['abs', 1 << 20],
                                   ['abs', rng.choice([1, 7, 64, 100, 1024, 4096, '1K'])]])
    big = 1
    for x in scn['arr']['shape']:
        big *= x
    if big > 50000:
        scn['knobs'], scn['knobs2'] = (dict(gen.tame(scn[k], 1 << 20), **(
            {'gran': 'rare'} if scn[k]['gran'] != 'full' else {})) for k in ('knobs', 'knobs2'))
        scn['chunkspec'] = rng.choice([['abs', '1M'], ['abs', 1 << 20], ['abs', '512K'], ['frac', 3],
                                       ['items', 70000]])
    scn['pack'] = rng.choice(['nfile', 'nbytes', 'nfp', 'nmem', 'npack_file', 'npack_str',
                              'nfile', 'nbytes'])
    scn['unpack'] = [rng.choice(ops.NUNPACK), rng.choice(ops.NUNPACK)]
    return scn


def special(kind, r):
    if kind in ('S0', 'U0', 'V0'):
        return np.zeros(r.choice([0, 1, 3]), dtype=kind)
    if kind == 'recarray':
        return np.rec.array([(1, 2.5), (3, 4.5), (5, 6.5)], dtype=[('x', '<i4'), ('y', '<f8')])
    if kind == 'titles':
        a = np.zeros(5, dtype=[(('Title A', 'a'), '<i4'), (('Title B', 'b'), 'S3')])
        a['a'] = range(5)
        return a
    if kind == 'overlap':
        a = np.zeros(4, dtype={'names': ['a', 'b'], 'formats': ['<i4', '<i2'], 'offsets': [0, 2]})
        a['a'] = [70000, 2, 3, -1]
        return a
    if kind == 'empty-struct':
        return np.zeros(3, dtype=np.dtype([]))
    if kind == 'matrix':
        return np.matrix([[1, 2, 3], [4, 5, 6]])
    if kind == 'sub-record':
        a = np.zeros(4, dtype=[('p', [('q', [('r', '<i2', (2,))], (3,))]), ('z', 'u1')])
        a['p']['q']['r'] = np.arange(24).reshape(4, 3, 2)
        return a
    if kind == 'object':
        return np.array([1, 'a', None], dtype=object)
    if kind == 'object-field':
        return np.zeros(2, dtype=[('a', '<i4'), ('b', 'O')])
    if kind == 'memmap-like':
        return np.frombuffer(bytes(range(64)), dtype='<u4')[3:9]
    if kind == 'big-endian-complex':
        return (np.arange(7) * (1 + 2j)).astype('>c8').reshape(7, 1)
    if kind == 'bool-f':
        return np.asfortranarray(np.arange(12).reshape(3, 4) % 3 == 0)
    if kind == 'one-by-n-f':
        return np.array(np.arange(9).reshape(1, 9), order='F')
    if kind == 'negative-stride-2d':
        return np.arange(30, dtype='<i4').reshape(5, 6)[::-2, ::-1]
    if kind == 'subclass':
        class A(np.ndarray):
            pass
        return np.arange(10, dtype='<f4').view(A)
    if kind == 'aligned-nested':
        inner = np.dtype([('a', 'u1'), ('b', '<f8')], align=True)
        a = np.zeros(5, dtype=np.dtype([('x', 'u1'), ('i', inner, (2,)), ('y', 'u1')], align=True))
        a['i']['b'] = np.arange(10).reshape(5, 2)
        a['y'] = 7
        return a
    if kind == 'huge-item':
        return np.zeros(3, dtype=r.choice(['S255', 'S256', 'U63', 'U64', 'V1000']))
    if kind == 'datetime-units':
        return np.arange(6).astype(r.choice(['<M8[25s]', '<m8[7D]', '<M8[us]', '<m8']))
    if kind == 'names-odd':
        return np.ones(3, dtype=[('a b', '<i2'), ("it's", '<i2'), ('\u00e9"', 'u1'), ('dtype', 'u1')])
    if kind == 'zero-in-middle-f':
        return np.zeros((3, 0, 2), order='F', dtype='<f8')
    raise ValueError(kind)


def run(scn, cx):
    import random
    set_level(scn['level'])
    if scn.get('special'):
        arr = special(scn['special'], random.Random(scn['arr']['seed']))
        cx.probe('special')
    else:
        try:
            arr = gen.mk_array(scn['arr'])
        except (ValueError, IndexError, TypeError):
            raise Skip()
    dt = arr.dtype
    isz = dt.itemsize
    how, v = scn['chunkspec']
    if how == 'items':
        chunk = max(1, v * isz)
    elif how == 'frac':
        chunk = max(1, (arr.size // v) * isz)
    else:
        chunk = v
    c = dict(scn['cfg'], chunk=chunk)
    nbytes = arr.size * isz
    nch, cs, last = chunking(nbytes, chunk)
    kn, kn2 = (gen.tame(scn[k], nbytes) for k in ('knobs', 'knobs2'))
    w = cx.world(None, kn)
    arc = R + '/a.blp'
    before = np.array(arr, copy=True)
    if scn['pack'] == 'nmem':
        cx.probe('mem')
        o = attempt(w, lambda: ops.nmem_roundtrip(c, arr))
    else:
        o = attempt(w, lambda: ops.npack(scn['pack'], c, arr, arc))
    cx.no_abort(o, 'packing')
    try:
        back = np.dtype(dt.descr) if dt.names is not None else None
        descr_ok = True
    except ValueError:
        descr_ok = False        # numpy cannot describe it: overlapping fields
    refuse_ok = dt.hasobject or isz > 255 or isz == 0 or (cs and cs % isz) or not descr_ok
    must = dt.hasobject
    if not o.ok:
        cx.probe('refused')
        cx.check(refuse_ok, 'refused', lambda: 'array %s shape %s layout %s refused: %s' %
                 (dt, arr.shape, scn['arr']['layout'], o.describe()))
        cx.fp('refused', o.kind(), scn['pack'])
        return
    cx.check(not must, 'object-accepted', 'an array with Python objects was accepted')
    if dt.names is not None:
        cx.probe('struct')
        if any('' == f[0] for f in dt.descr):
            cx.probe('padded')
    if np.isfortran(arr):
        cx.probe('fortran')
    if arr.size == 0:
        cx.probe('zero-size')
    if arr.ndim == 0:
        cx.probe('zero-dim')
    if nch > 1:
        cx.probe('multi-chunk')
    outs = []
    if scn['pack'] == 'nmem':
        outs.append(('nmem', o.value))
    else:
        for s in scn['unpack']:
            w2 = cx.world(w.fs, kn2)
            u = attempt(w2, lambda: ops.nunpack(s, arc))
            outs.append((s, cx.must(u, 'restoring %s %s via %s' % (dt, arr.shape, s))))
    for s, b in outs:
        tag = '%s -> %s, %s %s %s' % (scn['pack'], s, dt, arr.shape, scn.get('special') or
                                      scn['arr']['layout'])
        cx.check(isinstance(b, np.ndarray), 'type', lambda: '%s: got %s' % (tag, type(b)))
        cx.check(b.dtype == dt and b.dtype.str == dt.str and b.dtype.names == dt.names, 'dtype',
                 lambda: '%s: dtype became %s' % (tag, b.dtype))
        cx.check(b.shape == arr.shape, 'shape', lambda: '%s: shape became %s' % (tag, b.shape))
        f = bool(np.isfortran(arr))
        cx.check(b.flags.f_contiguous if f else b.flags.c_contiguous, 'order',
                 lambda: '%s: order changed: fortran input %s, flags %s' % (tag, f, b.flags))
        cx.check(gen.same_elems(np.asarray(arr), b), 'data', lambda: '%s: elements differ: %r vs %r'
                 % (tag, np.asarray(arr).ravel()[:5], b.ravel()[:5]))
        cx.evals += 1
        cx.fp(dt.kind, dt.byteorder, bool(dt.names), scn['arr']['layout'], scn.get('special'),
              arr.ndim, arr.size == 0, min(nch, 3), scn['pack'], s,
              eff_checksum(c['bp']), eff_offsets(c['bp']))
    cx.check(gen.same_elems(np.asarray(arr), np.asarray(before)), 'modified',
             'the input array was modified')
