"""Operations on the system under test, each through every public surface."""
import io
import json
import sys

from . import env, gen
from .world import World, SimAbort, HarnessError

R = '/simfs'


class Outcome(object):
    """Result of one operation."""
    __slots__ = ('ok', 'value', 'exc', 'out', 'code', 'abort')

    def __init__(self):
        self.ok = False
        self.value = None
        self.exc = None
        self.out = ''
        self.code = None
        self.abort = None

    def kind(self):
        if self.abort is not None:
            return 'abort:' + type(self.abort).__name__
        if self.ok:
            return 'ok'
        if self.exc is None:
            return 'exit:%s' % self.code
        if isinstance(self.exc, SystemExit):
            return 'exit:%s' % self.code
        return 'exc:' + type(self.exc).__name__

    def describe(self):
        s = self.kind()
        if self.exc is not None and not isinstance(self.exc, SystemExit):
            s += '(%s)' % (str(self.exc)[:200],)
        return s


def attempt(world, fn, capture=True):
    """Run fn in the world; classify how it ended."""
    o = Outcome()
    if capture:
        with env.Captured(world) as cap:
            _attempt(o, fn)
        o.out = cap.out.getvalue()
    else:
        _attempt(o, fn)
    return o


def _attempt(o, fn):
    try:
        o.value = fn()
        o.ok = True
    except SimAbort as e:
        o.abort = e
    except SystemExit as e:
        o.exc = e
        o.code = exit_code(e)
        o.ok = o.code == 0
    except HarnessError:
        raise
    except BaseException as e:
        o.exc = e
        # a simulator abort may have been converted by the code under test
        c = e
        for _ in range(20):
            c = c.__context__ or c.__cause__
            if c is None:
                break
            if isinstance(c, SimAbort):
                o.abort = c
                break


def exit_code(e):
    c = e.code
    if c is None:
        return 0
    if isinstance(c, int):
        return c & 0xff
    return 1


def cli(argv):
    """Run the command in-process; returns None (exit 0) or raises."""
    import bloscpack.cli as c
    import bloscpack.log as log
    old = sys.argv, log.LEVEL, log.PREFIX
    sys.argv = ['blpk'] + list(argv)
    try:
        c.main()
    finally:
        sys.argv = old[0]
        log.LEVEL = old[1]
        log.PREFIX = old[2]


# -- packing bytes --------------------------------------------------------------

PACK = ['file', 'bytes_file', 'bytes', 'fp', 'fp_bio', 'cli', 'pack_file',
        'pack_bytes_file']
PACK_TO_FILE = ['file', 'bytes_file', 'fp', 'cli', 'pack_file', 'pack_bytes_file']
UNPACK = ['file', 'bytes_file', 'bytes', 'fp', 'fp_bio', 'cli', 'unpack_file',
          'unpack_bytes_file']


def args_of(cfg):
    return dict(chunk_size=cfg['chunk'],
                metadata=cfg['meta'][0] if cfg.get('meta') is not None else None,
                blosc_args=gen.mk_blosc(cfg.get('blosc')),
                bloscpack_args=gen.mk_bloscpack(cfg.get('bp')),
                metadata_args=gen.mk_meta(cfg.get('margs')))


def cli_ok(cfg):
    """Can this configuration be expressed on the command line?"""
    bp = cfg.get('bp')
    return cfg.get('margs') is None and (bp is None or bp.get('max_app') is None) \
        and not (cfg.get('meta') is not None and cfg['meta'][0] is None)


def cli_argv(cfg, meta_path=None, verb='compress'):
    a = []
    b = cfg.get('blosc')
    if b is not None:
        a += ['-t', str(b['typesize']), '-l', str(b['clevel']), '-c', b['cname']]
        if not b['shuffle']:
            a.append('-s')
    if verb in ('compress', 'c'):
        bp = cfg.get('bp')
        if bp is not None:
            a += ['-k', bp['checksum']]
            if not bp['offsets']:
                a.append('-o')
        a += ['-z', str(cfg['chunk'])]
    if meta_path is not None:
        a += ['-m', meta_path]
    return a


def pack(surface, cfg, data, out, inp=None, pre=None):
    """Perform one compression of `data` (bytes) to path `out`.

    For surfaces producing bytes, the archive is returned; for the others it is
    in the file `out`.  `inp` names the input file holding data already.
    `pre` may supply ready-made argument objects (kwargs).
    """
    bp = env.bp
    kw = pre if pre is not None else args_of(cfg)
    if surface in ('file', 'pack_file'):
        fn = bp.pack_file_to_file if surface == 'file' else bp.pack_file
        return fn(inp, out, **kw)
    if surface in ('bytes_file', 'pack_bytes_file'):
        fn = bp.pack_bytes_to_file if surface == 'bytes_file' else bp.pack_bytes_file
        return fn(data, out, **kw)
    if surface == 'bytes':
        return bp.pack_bytes_to_bytes(data, **kw)
    if surface == 'cli':
        mp = None
        if kw['metadata'] is not None:
            mp = out + '.meta.json'
            World.cur.fs.put(mp, json.dumps(kw['metadata']).encode())
        argv = (['-f'] if cfg.get('force', True) else []) + \
            [cfg.get('verb', 'compress')] + cli_argv(cfg, mp) + [inp, out]
        return cli(argv)
    from bloscpack.abstract_io import pack as core
    from bloscpack.file_io import PlainFPSource, CompressedFPSink
    from bloscpack.args import calculate_nchunks
    nch, cs, lc = calculate_nchunks(len(data), kw.pop('chunk_size') if pre is None
                                    else kw['chunk_size'])
    kw = {k: v for k, v in kw.items() if k != 'chunk_size'}
    if surface == 'fp_bio':
        bio = io.BytesIO()
        core(PlainFPSource(io.BytesIO(data)), CompressedFPSink(bio), nch, cs, lc, **kw)
        return bio.getvalue()
    if surface == 'fp':
        with open(inp, 'rb', **cfg.get('in_open', {})) as i, \
                open(out, cfg.get('out_mode', 'wb')) as o:
            core(PlainFPSource(i), CompressedFPSink(o), nch, cs, lc, **kw)
        return None
    raise HarnessError(surface)


def unpack(surface, arc, out):
    """Decompress archive file `arc`.  Returns (bytes or None, metadata).

    bytes is None when the data went to the file `out`."""
    bp = env.bp
    if surface in ('file', 'unpack_file'):
        fn = bp.unpack_file_from_file if surface == 'file' else bp.unpack_file
        return None, fn(arc, out)
    if surface in ('bytes_file', 'unpack_bytes_file'):
        fn = bp.unpack_bytes_from_file if surface == 'bytes_file' else bp.unpack_bytes_file
        return fn(arc)
    if surface == 'bytes':
        return bp.unpack_bytes_from_bytes(World.cur.fs.get(arc))
    if surface == 'cli':
        cli(['-f', 'd', '-e', arc, out])
        return None, CLI_META
    from bloscpack.abstract_io import unpack as core
    from bloscpack.file_io import CompressedFPSource, PlainFPSink
    if surface == 'fp_bio':
        src = CompressedFPSource(io.BytesIO(World.cur.fs.get(arc)))
        bio = io.BytesIO()
        core(src, PlainFPSink(bio))
        return bio.getvalue(), src.metadata
    if surface == 'fp':
        with open(arc, 'rb') as i, open(out, 'wb') as o:
            src = CompressedFPSource(i)
            core(src, PlainFPSink(o))
        return None, src.metadata
    raise HarnessError(surface)


CLI_META = object()


def unpack_bytes(world, surface, arc, out):
    """attempt(unpack) and gather the delivered bytes."""
    o = attempt(world, lambda: unpack(surface, arc, out))
    if o.ok:
        data, md = o.value if o.value is not None else (None, CLI_META)
        if data is None:
            data = world.fs.get(out)
        o.value = (bytes(data), md)
    return o


def mem_roundtrip(cfg, data, chunked=True, fixed=True):
    """Through in-memory chunk lists."""
    from bloscpack.abstract_io import pack as core_p, unpack as core_u
    from bloscpack.file_io import PlainFPSource
    from bloscpack.memory_io import (PlainMemorySource, CompressedMemorySource,
                                     PlainMemorySink, CompressedMemorySink)
    from bloscpack.args import calculate_nchunks
    kw = args_of(cfg)
    nch, cs, lc = calculate_nchunks(len(data), kw.pop('chunk_size'))
    if chunked:
        chunks = [data[i * cs:(i + 1) * cs] for i in range(nch)] if cs else [data]
        src = PlainMemorySource(chunks)
    else:
        src = PlainFPSource(io.BytesIO(data))
    sink = CompressedMemorySink()
    core_p(src, sink, nch, cs, lc, **kw)
    csrc = CompressedMemorySource(sink)
    psink = PlainMemorySink(nch if fixed else None)
    core_u(csrc, psink)
    return b''.join(psink.chunks), csrc.metadata, len(psink.chunks), nch


# -- append / metadata -------------------------------------------------------------

def append(surface, arc, new, bargs=None, meta_path=None):
    """Append file `new` to archive `arc`.  bargs: spec or ready object."""
    import bloscpack.append as ap
    obj = gen.mk_blosc(bargs) if isinstance(bargs, dict) and not isinstance(bargs, RawArgs) else bargs
    if isinstance(bargs, RawArgs):
        obj = dict(bargs)
    if surface == 'file':
        return ap.append(arc, new, blosc_args=obj)
    if surface == 'fp':
        size = len(World.cur.fs.get(new))
        with open(arc, 'r+b') as o, open(new, 'rb') as i:
            return ap.append_fp(o, i, size, blosc_args=obj)
    if surface == 'fp_bio':
        fs = World.cur.fs
        size = len(fs.get(new))
        bio = io.BytesIO(fs.get(arc))
        try:
            return ap.append_fp(bio, io.BytesIO(fs.get(new)), size, blosc_args=obj)
        finally:
            fs.put(arc, bio.getvalue())
    if surface == 'cli':
        a = ['append', '-e']
        if isinstance(bargs, dict):
            a += cli_argv({'blosc': bargs}, None, 'append')
        if meta_path:
            a += ['-m', meta_path]
        return cli(a + [arc, new])
    raise HarnessError(surface)


class RawArgs(dict):
    """Marks a plain dict of blosc args to be handed over as dict."""


def rewrite_meta(arc, value, **over):
    import bloscpack.append as ap
    with open(arc, 'r+b') as fp:
        ap._seek_to_metadata(fp)
        ap._rewrite_metadata_fp(fp, value, **over)


def info(arc):
    return cli(['info', arc])


# -- numpy -------------------------------------------------------------------------

NPACK = ['nfile', 'nbytes', 'nfp', 'nmem', 'npack_file', 'npack_str']
NUNPACK = ['nfile', 'nbytes', 'nfp', 'nunpack_file', 'nunpack_str']


def npack(surface, cfg, arr, out, pre=None):
    bp = env.bp
    kw = pre if pre is not None else args_of(cfg)
    kw = {k: v for k, v in kw.items() if k != 'metadata'}
    fs = World.cur.fs
    if surface in ('nfile', 'npack_file'):
        fn = bp.pack_ndarray_to_file if surface == 'nfile' else bp.pack_ndarray_file
        fn(arr, out, **kw)
        return None
    if surface in ('nbytes', 'npack_str'):
        fn = bp.pack_ndarray_to_bytes if surface == 'nbytes' else bp.pack_ndarray_str
        b = fn(arr, **kw)
        fs.put(out, b)
        return b
    if surface == 'nfp':
        from bloscpack.numpy_io import pack_ndarray
        from bloscpack.file_io import CompressedFPSink
        with open(out, 'wb') as o:
            pack_ndarray(arr, CompressedFPSink(o), **kw)
        return None
    raise HarnessError(surface)


def nunpack(surface, arc):
    bp = env.bp
    fs = World.cur.fs
    if surface in ('nfile', 'nunpack_file'):
        fn = bp.unpack_ndarray_from_file if surface == 'nfile' else bp.unpack_ndarray_file
        return fn(arc)
    if surface in ('nbytes', 'nunpack_str'):
        fn = bp.unpack_ndarray_from_bytes if surface == 'nbytes' else bp.unpack_ndarray_str
        return fn(fs.get(arc))
    if surface == 'nfp':
        from bloscpack.numpy_io import unpack_ndarray
        from bloscpack.file_io import CompressedFPSource
        with open(arc, 'rb') as i:
            return unpack_ndarray(CompressedFPSource(i))
    raise HarnessError(surface)


def nmem_roundtrip(cfg, arr):
    from bloscpack.numpy_io import pack_ndarray, unpack_ndarray
    from bloscpack.memory_io import CompressedMemorySink, CompressedMemorySource
    kw = args_of(cfg)
    kw.pop('metadata')
    sink = CompressedMemorySink()
    pack_ndarray(arr, sink, **kw)
    return unpack_ndarray(CompressedMemorySource(sink))
