"""Pieces shared by the property modules."""
import errno
import json

from .. import env, gen, ops, ref
from ..ops import R, Outcome, attempt
from ..world import World
from ..runner import Skip, Violation
from ..simfs import SimFS


def cfg(rng, small=False, tiny=False, offsets=None, need_checksum=False,
        with_meta=None, dict_meta=False, need_meta_checksum=False, big_meta=.004):
    c, n = gen.sizes(rng, small, tiny)
    d = {'data': {'kind': gen.data_kind(rng), 'n': n, 'seed': rng.randrange(1 << 30)},
         'chunk': c,
         'blosc': gen.blosc_args(rng),
         'bp': gen.bloscpack_args(rng, offsets=offsets, need_checksum=need_checksum),
         'meta': None, 'margs': None}
    if need_checksum and d['bp'] is None:
        pass                                # default is adler32
    m = rng.random() < .5 if with_meta is None else with_meta
    if m:
        d['meta'] = [gen.metadata(rng, dict_meta)]
        d['margs'] = gen.meta_args(rng, need_checksum=need_meta_checksum)
        if not tiny and rng.random() < big_meta:
            d['meta'][0], d['margs'] = gen.big_metadata(rng)
    return d


def level(rng):
    return rng.choice(['NORMAL'] * 6 + ['VERBOSE', 'DEBUG'])


def set_level(lv):
    import bloscpack.log as log
    log.LEVEL = getattr(log, lv)


def eff_checksum(bp):
    return 'adler32' if bp is None else bp['checksum']


def eff_offsets(bp):
    return True if bp is None else bp['offsets']


def eff_max_app(bp, nchunks):
    """Reservation expected in the header."""
    if not eff_offsets(bp):
        return 0
    m = None if bp is None else bp.get('max_app')
    if m is None:
        return 10 * nchunks
    if isinstance(m, list):
        return gen.callable_or(m)(nchunks)
    return m


def chunking(n, chunk):
    """(nchunks, chunk_size, last) expected for n bytes."""
    if n == 0:
        return 1, 0, 0
    if isinstance(chunk, str):
        k = {'B': 1, 'K': 1024, 'M': 1 << 20, 'G': 1 << 30, 'T': 1 << 40}
        chunk = int(float(chunk[:-1]) * k[chunk[-1]])
    chunk = min(chunk, n)
    q, r = divmod(n, chunk)
    return (q, chunk, chunk) if r == 0 else (q + 1, chunk, r)


def eff_typesize(c):
    return 8 if c.get('blosc') is None else c['blosc']['typesize']


def has_meta(c):
    return c.get('meta') is not None and c['meta'][0] is not None


def meta_val(c):
    return c['meta'][0] if c.get('meta') is not None else None


def cfg_class(c):
    """Coarse class of a configuration, for state fingerprints."""
    n = c['data']['n'] if 'data' in c else 0
    nch, cs, last = chunking(n, c['chunk'])
    return (min(nch, 4), 'e' if n == 0 else 'm' if last == cs else '1' if last == 1 else 'r',
            eff_checksum(c.get('bp')), eff_offsets(c.get('bp')),
            (c.get('blosc') or {}).get('cname', 'def'),
            bool(has_meta(c)))


def ref_archive(c, data):
    """Archive bytes for a configuration from the independent writer."""
    nch, cs, last = chunking(len(data), c['chunk'])
    b = c.get('blosc') or {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}
    chunks = [ref.compress(data[i * cs:(i + 1) * cs] if cs else b'', b['typesize'],
                           b['clevel'], int(b['shuffle']), b['cname'])
              for i in range(nch)]
    ma = eff_max_app(c.get('bp'), nch)
    kw = {}
    if has_meta(c):
        m = c.get('margs') or {'meta_checksum': 'adler32', 'meta_codec': 'zlib',
                               'meta_level': 6, 'max_meta_size': None}
        kw['meta'] = meta_val(c)
        raw = json.dumps(meta_val(c), separators=(',', ':')).encode()
        import zlib
        codec = 1 if m['meta_codec'] == 'zlib' and \
            len(zlib.compress(raw, m['meta_level'])) <= len(raw) else 0
        size = len(zlib.compress(raw, m['meta_level'])) if codec else len(raw)
        mx = m.get('max_meta_size')
        mx = 10 * len(raw) if mx is None else gen.callable_or(mx)(len(raw)) \
            if isinstance(mx, list) else mx
        kw['meta_opts'] = {'checksum': ref.CHECKSUMS.index(m['meta_checksum']),
                           'codec': codec, 'level': m['meta_level'] if codec else 0,
                           'extra': max(0, mx - size)}
        if kw['meta'] is None:
            kw.pop('meta')
    return ref.write(chunks, checksum=ref.CHECKSUMS.index(eff_checksum(c.get('bp'))),
                     typesize=b['typesize'], offsets=eff_offsets(c.get('bp')),
                     max_app=ma, **kw)


def pack_clean(cx, c, data, arc, surface='bytes_file', knobs=None, fs=None):
    """Create an archive with the real code, no faults; returns world."""
    w = cx.world(fs, knobs)
    w.fs.put(R + '/in.dat', data)
    o = attempt(w, lambda: ops.pack(surface, c, data, arc, R + '/in.dat'))
    cx.must(o, 'creating the archive')
    if surface in ('bytes', 'fp_bio'):
        w.fs.put(arc, o.value)
    return w


def brief(b, n=24):
    b = bytes(b)
    return '%d bytes %s%s' % (len(b), b[:n].hex(), '...' if len(b) > n else '')


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def same_json(a, b):
    """Equality after a JSON round trip, types included."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


# -- fault plans ------------------------------------------------------------------

FAULTS = ['eio_read', 'eio_write', 'enospc', 'enospc_partial', 'eopen', 'eclose', 'eio_seek',
          'estat', 'kbint', 'memerr', 'codec_fail']


# other errors than EIO: some have exception classes of their own
_ERR = [errno.EINTR, errno.EAGAIN, errno.EPIPE, errno.EDQUOT, errno.ESTALE, errno.ETIMEDOUT,
        errno.EACCES, errno.EPERM, errno.ENOMEM, errno.ECONNRESET, errno.EFBIG, errno.EROFS]
ERRNOS = {'eio_read': [errno.EINTR, errno.EAGAIN, errno.ESTALE, errno.ETIMEDOUT, errno.EACCES,
                       errno.ENOMEM, errno.ECONNRESET, errno.EISDIR],
          'eio_write': _ERR, 'eclose': [errno.EDQUOT, errno.ENOSPC, errno.EINTR, errno.ESTALE],
          'eio_seek': [errno.ESPIPE, errno.EINVAL, errno.ESTALE, errno.EOVERFLOW],
          'estat': [errno.EACCES, errno.ELOOP, errno.ESTALE, errno.ETIMEDOUT, errno.EINTR,
                    errno.ENOMEM]}


def fault_spec(rng, kinds=FAULTS):
    k = rng.choice(kinds)
    f = {'kind': k, 'frac': rng.random()}
    if rng.random() < .25:
        f['edge'] = rng.choice([0, 1, 2, -1, -2, -3])
    if k in ('shrink', 'grow', 'enospc_partial'):
        f['frac2'] = round(rng.random(), 3)
    if k in ('enospc', 'enospc_partial'):
        f['sticky'] = rng.random() < .8
    elif k in ('estat', 'eopen', 'eio_read', 'eio_write', 'eio_seek', 'memerr', 'codec_fail') and rng.random() < .3:
        f['sticky'] = rng.choice([1, 2, 5, True, True])         # the condition lasts
    if k == 'eopen':
        f['errno'] = rng.choice([24, 13, 28, 5])
    elif k in ERRNOS and rng.random() < .5:
        f['errno'] = rng.choice(ERRNOS[k])
        if f['errno'] == errno.EINTR:
            f.pop('sticky', None)       # retried for as long as it is returned
    return f


def dry_plan(specs):
    return [dict(f, k=None, seen=0) for f in specs]


def arm(specs, seen):
    """Resolve fractions against the number of eligible events of a dry run."""
    plan = []
    for f, n in zip(specs, seen):
        if not n:
            continue
        if f.get('k') is not None:
            k = f['k']
        elif f.get('edge') is not None:
            k = f['edge'] if f['edge'] >= 0 else n + f['edge']
        else:
            k = int(f['frac'] * n)
        plan.append(dict(f, k=max(0, min(n - 1, k)), seen=0))
    return plan


def with_faults(cx, fs, knobs, fn, specs):
    """Dry run on a copy to locate the faults, then the faulted run on fs.

    Returns (world, outcome, dry outcome, copy of the file system after the dry run)."""
    fs1 = fs.clone()
    w1 = cx.world(fs1, dict(knobs))
    w1.plan = dry_plan(specs)
    o1 = attempt(w1, fn)
    w = cx.world(fs, dict(knobs))
    w.plan = arm(specs, [f['seen'] for f in w1.plan])
    resolved = [{k: v for k, v in f.items() if k != 'seen'} for f in w.plan]
    cx.resolved = {'faults': resolved}
    o = attempt(w, fn)
    w.plan = []
    return w, o, o1, fs1
