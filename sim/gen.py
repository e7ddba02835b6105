"""Generators of JSON-able specifications, and their realisation.

Every generator draws from the random.Random it is given; every realisation
(data, arrays, argument objects) is a pure function of the specification.
"""
import random

CNAMES = ['blosclz', 'lz4', 'lz4hc', 'zlib', 'zstd']
CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256',
             'sha384', 'sha512']


# -- bytes ------------------------------------------------------------------

def data_kind(rng):
    return rng.choice(['rand', 'rand', 'zeros', 'text', 'seq', 'mixed', 'small', 'spots'])


def realise(d):
    n, kind = d['n'], d['kind']
    r = random.Random(d.get('seed', 0))
    if kind == 'zeros':
        b = bytes(n)
    elif kind == 'rand':
        b = r.randbytes(n)
    elif kind == 'text':
        words = [b'blosc', b'pack', b' ', b'\n', b'chunk', b'-', b'0123456789']
        out = bytearray()
        while len(out) < n:
            out += r.choice(words)
        b = bytes(out[:n])
    elif kind == 'seq':
        st = r.randrange(1 << 16)
        m = n // 4 + 1
        import struct
        b = struct.pack('<%dI' % m, *range(st, st + m))[:n]
    elif kind == 'small':
        b = bytes(r.choice(b'\0\1\2\3\xff') for _ in range(n)) if n < 20000 \
            else (bytes(r.choice(b'\0\1\2\3\xff') for _ in range(9973)) * (n // 9973 + 1))[:n]
    elif kind == 'spots':
        # alike all over, except for a few bytes
        p = r.choice([b'\0', b'\0', b'ab', bytes(range(16))])
        out = bytearray((p * (n // len(p) + 1))[:n])
        if n:
            for _ in range(r.choice([0, 1, 1, 2, 3, 5, 20])):
                out[r.randrange(n)] ^= 1 << r.randrange(8)
        b = bytes(out)
    else:                       # mixed
        out = bytearray()
        while len(out) < n:
            k = r.randint(1, max(1, n // 3))
            out += r.randbytes(k) if r.random() < .5 else bytes([r.randrange(256)]) * k
        b = bytes(out[:n])
    return b


def sizes(rng, small=False, tiny=False):
    """(chunk_size, total) pairs with boundary bias."""
    r = rng.random()
    if r < .025:
        return rng.choice([1, 16, 1000, 1 << 20]), 0
    if r < .03 and not small and not tiny:
        c = rng.choice([1 << 20, 1 << 20, 1 << 19, 300000, 1500000])
        return c, rng.choice([c, c + 1, c * 2, c * 2 - 1, c * 3 + 12345, c // 2])
    if .03 < r < .034:
        c = rng.choice([1, 2, 3])
        return c, c * rng.choice([512, 513, 700, 1024, 1025, 1500, 2049, 4097])
    if tiny:
        c = rng.choice([1, 2, 3, 7, 8, 16, 33, 64, 100])
    elif small:
        c = rng.choice([1, 2, 5, 8, 13, 16, 31, 64, 100, 255, 256, 512, 1000, 1024, 2048])
    else:
        c = rng.choice([1, 2, 3, 7, 8, 16, 31, 64, 100, 256, 512, 1000, 1023,
                        1024, 4096, 5000, 8192, 16384, 65536, 100000, 1 << 17])
    nch = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 17])
    if c <= 64 and rng.random() < .1:
        nch = rng.choice([64, 127, 128, 255, 256, 257, 400])
    edge = rng.choice(['mult', 'one', 'less1', 'rand', 'rand', 'single', 'sub'])
    if edge == 'mult':
        n = c * nch
    elif edge == 'one':
        n = c * nch + 1
    elif edge == 'less1':
        n = c * nch - 1
    elif edge == 'single':
        n = c
    elif edge == 'sub':
        n = rng.randint(1, c)
    else:
        n = c * (nch - 1) + rng.randint(1, c)
    return c, max(0, n)


# -- arguments ----------------------------------------------------------------

def blosc_args(rng, p_none=.2):
    if rng.random() < p_none:
        return None
    return {'typesize': rng.choice([1, 1, 2, 3, 4, 4, 7, 8, 8, 8, 12, 16, 17, 32, 100, 254, 255]),
            'clevel': rng.choice([0, 1, 1, 2, 3, 5, 7, 7, 8, 9, 9]),
            'shuffle': rng.choice([True, True, False]),
            'cname': rng.choice(CNAMES)}


def max_app(rng):
    return rng.choice([None, 0, 0, 1, 2, 3, 5, 10, 40, 100, ['mul', 1], ['mul', 3],
                       ['add', 1], ['add', 7]])


def bloscpack_args(rng, p_none=.2, offsets=None, checksum=None, need_checksum=False):
    if rng.random() < p_none and offsets is None and checksum is None:
        return None
    cs = checksum if checksum is not None else \
        rng.choice(CHECKSUMS[1:] if need_checksum else CHECKSUMS + ['adler32', 'None'])
    return {'offsets': rng.random() < .75 if offsets is None else offsets,
            'checksum': cs,
            'max_app': max_app(rng)}


def jsonable(rng, depth=0, p_unicode=.3):
    r = rng.random()
    if depth > 2 or r < .45:
        return rng.choice([
            None, True, False, 0, 1, -1, 3.5, 1e300, 12345678901234567890,
            '', 'x', 'value', 'a' * rng.randint(1, 200), 'line\nbreak "q" \\',
            'h\u00e9llo \u4e16\u754c' if p_unicode else 'hello',
            '\U0001f600' if p_unicode else ':)',
            -0.0, 5e-324, -(1 << 70), '\ud800', '\0\x1f\x7f', '\u2028', 1e-7,
            rng.randrange(1 << 30), ''.join(chr(rng.randint(33, 126)) for _ in range(rng.randint(1, 60)))])
    if r < .6:
        return [jsonable(rng, depth + 1) for _ in range(rng.randint(0, 5))]
    return {rng.choice(['dtype', 'shape', 'k', 'name', '', 'long key with spaces',
                        'u\u00fc', 'n%d' % rng.randrange(99)]): jsonable(rng, depth + 1)
            for _ in range(rng.randint(0, 5))}


def metadata(rng, dict_only=False):
    r = rng.random()
    if r < .08:
        return {}
    if r < .2:
        return {'pad': 'ab' * rng.choice([10, 100, 1000, 5000])}
    if r < .3:
        return {'noise': ''.join(chr(rng.randint(33, 126))
                                 for _ in range(rng.choice([1, 5, 20, 200, 3000])))}
    if r < .31:
        v = 'deep'
        for _ in range(rng.choice([5, 20, 60])):
            v = [v] if rng.random() < .5 else {'d': v}
        return {'deep': v}
    if r < .38 and not dict_only:
        return rng.choice([[], [1, 2], 0, '', 'str', False, True, 42, 1.5, [None]])
    v = {}
    for _ in range(rng.randint(1, 5)):
        x = jsonable(rng)
        v['k%d' % rng.randrange(20)] = x
    return v


def big_metadata(rng):
    """Metadata of more than 64 KB, with arguments that keep the reservation small."""
    n = rng.choice([65500, 65530, 66000, 70000, 100000, 140000])
    v = {'big': rng.randbytes(n // 2).hex()} if rng.random() < .7 else {'big': 'ab' * (n // 2)}
    if rng.random() < .5:
        v['more'] = jsonable(rng)
    return v, {'meta_checksum': rng.choice(CHECKSUMS[1:]),
               'meta_codec': rng.choice(['None', 'None', 'zlib']),
               'meta_level': rng.choice([1, 6]),
               'max_meta_size': rng.choice([['mul', 1], ['add', 0], ['add', 7], ['add', 5000]])}


def near(v, rng):
    """Metadata equal or nearly equal to v in Python, but not in JSON."""
    how = rng.choice(['bool', 'bool', 'float', 'add', 'str', 'order'])
    done = []

    def go(x):
        if not done:
            if how == 'bool' and type(x) in (bool, int) and x in (0, 1):
                done.append(1)
                return int(x) if isinstance(x, bool) else bool(x)
            if how == 'float' and type(x) is int and abs(x) < 1 << 50:
                done.append(1)
                return float(x)
            if how == 'str' and isinstance(x, str) and x:
                done.append(1)
                return ('z' if x[0] != 'z' else 'y') + x[1:]
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            if how == 'order' and len(x) > 1 and not done:
                done.append(1)
                return dict(reversed(list(x.items())))
            return {k: go(y) for k, y in x.items()}
        return x
    r = go(v)
    if not done:
        r = dict(v, one=1) if isinstance(v, dict) else [v]
    return r


def meta_args(rng, p_none=.4, need_checksum=False):
    if rng.random() < p_none:
        return None
    return {'meta_checksum': rng.choice(CHECKSUMS[1:] if need_checksum else CHECKSUMS),
            'meta_codec': rng.choice(['None', 'zlib', 'zlib']),
            'meta_level': rng.choice([0, 1, 3, 6, 9]),
            'max_meta_size': rng.choice([None, ['mul', 1], ['mul', 2], ['mul', 10],
                                         ['add', 0], ['add', 1], ['add', 8], ['add', 1000],
                                         ['max', 60000], ['add', rng.choice([255, 256, 512, 1024, 4096,
                                                                             65536])],
                                         ['max', rng.choice([32, 128, 256, 1024, 4096, 65535, 65536])]])}


def knobs(rng, plain=.35):
    """I/O granularity: buffer size and raw transfer splitting."""
    if rng.random() < plain:
        return {'gran': 'full', 'buf': 8192, 'io_seed': 0}
    return {'gran': rng.choice(['full', 'full', 'rand', 'half', 'rare', 'tiny', 'one']),
            'buf': rng.choice([1, 2, 16, 31, 64, 512, 1000, 4096, 8192, 65536, 1 << 20]),
            'io_seed': rng.randrange(1 << 30)}


def tame(kn, n):
    """Avoid absurd event counts for large data."""
    if n > 20000 and kn['gran'] in ('one', 'tiny'):
        kn = dict(kn, gran='rand')
    if n > 20000 and kn['buf'] < 64:
        kn = dict(kn, buf=512)
    return kn


class Fn(object):
    """Picklable/printable callable for max_app_chunks / max_meta_size."""

    def __init__(self, how, k):
        self.how, self.k = how, k

    def __call__(self, x):
        if self.how == 'mul':
            return x * self.k
        if self.how == 'max':
            return max(x, self.k)
        if self.how == 'const':
            return self.k
        return x + self.k

    def __eq__(self, o):
        return isinstance(o, Fn) and (o.how, o.k) == (self.how, self.k)

    def __repr__(self):
        return 'Fn(%s,%r)' % (self.how, self.k)

    __hash__ = None


def callable_or(v):
    return Fn(v[0], v[1]) if isinstance(v, list) else v


def mk_blosc(spec):
    if spec is None:
        return None
    from bloscpack import BloscArgs
    return BloscArgs(typesize=spec['typesize'], clevel=spec['clevel'],
                     shuffle=spec['shuffle'], cname=spec['cname'])


def mk_bloscpack(spec):
    if spec is None:
        return None
    from bloscpack import BloscpackArgs
    kw = {'offsets': spec['offsets'], 'checksum': spec['checksum']}
    if spec.get('max_app') is not None:
        kw['max_app_chunks'] = callable_or(spec['max_app'])
    return BloscpackArgs(**kw)


def mk_meta(spec):
    if spec is None:
        return None
    from bloscpack import MetadataArgs
    kw = {'meta_checksum': spec['meta_checksum'], 'meta_codec': spec['meta_codec'],
          'meta_level': spec['meta_level']}
    if spec.get('max_meta_size') is not None:
        kw['max_meta_size'] = callable_or(spec['max_meta_size'])
    return MetadataArgs(**kw)


# -- arrays -------------------------------------------------------------------

SIMPLE = ['u1', 'i1', '<i2', '>i2', '<u4', '>i4', '<i8', '>u8', '<f2', '<f4', '>f4',
          '<f8', '>f8', '<c8', '>c16', '?', 'S1', 'S5', '<U1', '<U3', '>U2', 'V3',
          '<M8[s]', '<M8[ns]', '<m8[us]', '>M8[D]', 'g', 'S20', 'V100']


def dtype_spec(rng, depth=0):
    r = rng.random()
    if depth == 0 and r < .6:
        return rng.choice(SIMPLE)
    n = rng.randint(1, 4)
    fields = []
    names = ['a', 'b', 'field c', 'd_1', 'e', 'f0', 'f1', '\u00fc', 'a_rather_long_name_of_a_field_with_units_m2']
    rng.shuffle(names)
    titled = rng.random() < .04
    for i in range(n):
        x = rng.random()
        if titled and rng.random() < .6:
            names[i] = ['title %d' % i, names[i]]
        if x < .15 and depth < 2:
            t = dtype_spec(rng, depth + 1)
        else:
            t = rng.choice(SIMPLE)
        f = [names[i], t]
        if rng.random() < .2:
            f.append(rng.choice([[2], [3], [2, 2], [1], [3, 1, 2]]))
        fields.append(f)
    return {'fields': fields, 'align': rng.random() < .35,
            'pad': rng.choice([0, 0, 0, 1, 3, 8])}


def mk_dtype(spec):
    import numpy as np
    if isinstance(spec, str):
        return np.dtype(spec)
    lst = []
    for f in spec['fields']:
        name = tuple(f[0]) if isinstance(f[0], list) else f[0]
        if len(f) == 3:
            lst.append((name, mk_dtype(f[1]), tuple(f[2])))
        else:
            lst.append((name, mk_dtype(f[1])))
    dt = np.dtype(lst, align=bool(spec.get('align')))
    if (spec.get('gaps') or spec.get('pad')) and \
            not any(isinstance(f[0], list) for f in spec['fields']):
        names = dt.names
        off = [dt.fields[n][1] for n in names]
        fm = [dt.fields[n][0] for n in names]
        g = spec.get('gaps') or 0
        off = [o + g * i for i, o in enumerate(off)]
        dt = np.dtype({'names': list(names), 'formats': fm, 'offsets': off,
                       'itemsize': dt.itemsize + spec.get('pad', 0) + g * len(names)})
    return dt


def _fill(dt, n, r):
    """1-d array of n valid elements."""
    import numpy as np
    a = np.zeros(n, dtype=dt)
    if n == 0:
        return a
    if dt.names is not None:
        for nm in dt.names:
            sub = dt.fields[nm][0]
            base, shp = (sub.subdtype if sub.subdtype else (sub, ()))
            m = 1
            for s in shp:
                m *= s
            v = _fill(base, n * m, r)
            a[nm] = v.reshape((n,) + tuple(shp))
        return a
    k = dt.kind
    if k == 'b':
        return np.frombuffer(bytes(r.randrange(2) for _ in range(n)), dtype='?').copy()
    if k == 'U':
        w = dt.itemsize // 4
        return np.array([''.join(r.choice('ab\u00e9\u4e16\U0001f600z') for _ in range(r.randint(0, w)))
                         for _ in range(n)], dtype=dt)
    if dt.char == 'g':
        a = np.array([r.uniform(-1e9, 1e9) for _ in range(n)], dtype=dt)
        a.view('u1').reshape(n, -1)[:, 10:] = 0     # padding, else stack garbage
        return a
    if r.random() < .5:
        raw = r.randbytes(n * dt.itemsize)
    else:
        raw = (r.randbytes(dt.itemsize * 3) * n)[:n * dt.itemsize]
    if k == 'S':
        raw = bytes(x or 65 for x in raw)
    return np.frombuffer(raw, dtype=dt).copy()


LAYOUTS = ['C', 'C', 'C', 'F', 'F', 'step', 'rev', 'T', 'bcast', 'ro', 'offset',
           'revF', 'stepF', 'swap', 'field', 'cols', 'cols', 'rows', 'colsF', 'window']


def array_spec(rng, small=True, big=False):
    if big and rng.random() < .006:
        dt = rng.choice(['<f8', '>i8', '<u4', 'u1', '<c16', '<M8[us]'])
        n = rng.choice([1 << 20, (1 << 20) + 16, 3 << 19, 1 << 21, (1 << 21) + 8, 100]) // 4
        return {'dtype': dt, 'shape': rng.choice([[n], [n // 4, 4], [2, n // 2]]),
                'layout': rng.choice(LAYOUTS), 'seed': rng.randrange(1 << 30)}
    nd = rng.choice([0, 1, 1, 1, 1, 2, 2, 2, 3, 4])
    if rng.random() < .02:
        nd = rng.choice([5, 6, 8, 12, 20, 31, 32])
        shape = [1] * nd
        for _ in range(rng.randint(0, 5)):
            shape[rng.randrange(nd)] = rng.choice([1, 2, 2, 3])
        return {'dtype': dtype_spec(rng) if nd < 21 else rng.choice(SIMPLE), 'shape': shape,
                'layout': rng.choice(LAYOUTS), 'seed': rng.randrange(1 << 30)}
    shape = []
    tot = 1
    for i in range(nd):
        cap = (60 if nd == 1 else 12 if nd == 2 else 5)
        if nd == 1 and rng.random() < .3:
            cap = 3000 if small else 40000
        s = rng.choice([0, 1, 2, 3]) if rng.random() < .25 else rng.randint(1, cap)
        shape.append(s)
    return {'dtype': dtype_spec(rng), 'shape': shape, 'layout': rng.choice(LAYOUTS),
            'seed': rng.randrange(1 << 30)}


def mk_array(spec):
    import numpy as np
    dt = mk_dtype(spec['dtype'])
    shape = tuple(spec['shape'])
    r = random.Random(spec.get('seed', 0))
    lay = spec['layout']
    n = 1
    for s in shape:
        n *= s
    nd = len(shape)

    def fill(shp):
        m = 1
        for s in shp:
            m *= s
        return _fill(dt, m, r).reshape(shp)
    if nd == 0:
        a = fill((1,)).reshape(())
        return a
    if lay == 'C':
        return fill(shape)
    if lay == 'F':
        return np.array(fill(shape), order='F', copy=True)
    if lay == 'step':
        big = fill(shape[:-1] + (shape[-1] * 2 + 1,))
        return big[..., 1::2][..., :shape[-1]]
    if lay == 'stepF':
        big = np.array(fill(shape[:-1] + (shape[-1] * 2,)), order='F')
        return big[..., ::2]
    if lay == 'cols':
        return fill(shape[:-1] + (shape[-1] + 1 + r.randrange(3),))[..., :shape[-1]]
    if lay == 'rows':
        return fill((shape[0] * 2 + 1,) + shape[1:])[1::2]
    if lay == 'colsF':
        return np.array(fill((shape[0] + 2,) + shape[1:]), order='F')[:shape[0]]
    if lay == 'window':
        m = sum((s - 1) for s in shape) + 1 if 0 not in shape else 0
        b = fill((max(m, 1),))
        return np.lib.stride_tricks.as_strided(b, shape, (b.itemsize,) * nd, writeable=False)
    if lay == 'rev':
        return fill(shape)[::-1]
    if lay == 'revF':
        return np.array(fill(shape), order='F')[..., ::-1]
    if lay == 'T':
        return fill(tuple(reversed(shape))).T
    if lay == 'bcast':
        return np.broadcast_to(fill((1,) + shape[1:]), shape)
    if lay == 'ro':
        a = fill(shape)
        a.flags.writeable = False
        return a
    if lay == 'offset':
        big = fill((shape[0] + 3,) + shape[1:])
        return big[2:2 + shape[0]]
    if lay == 'swap':
        if nd < 2:
            return fill(shape)
        a = fill(tuple(shape[1:]) + (shape[0],))
        return np.moveaxis(a, -1, 0)
    if lay == 'field':
        big = np.zeros(shape, dtype=[('x', 'u1'), ('y', dt), ('z', '<i2')])
        big['y'] = fill(shape)
        return big['y'] if big['y'].dtype == dt else fill(shape)
    raise ValueError(lay)


def same_elems(a, b):
    """Element-wise bytes equality, ignoring padding of structured types."""
    import numpy as np
    if a.dtype.names is not None:
        if b.dtype.names != a.dtype.names:
            return False
        return all(same_elems(a[n], b[n]) for n in a.dtype.names)
    if a.shape != b.shape:
        return False
    return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
