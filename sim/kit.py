"""A kit of operations, good and bad, for the properties that hold for all of them
(C10 containment, C11 handles, C12 threads, C13 statelessness)."""
import io
import json
import os

from . import env, gen, ops, ref
from .ops import R
from .world import World

GOOD = ['pack:file', 'pack:bytes_file', 'pack:fp', 'pack:cli', 'pack:bytes', 'pack:pack_file',
        'pack:fp_bio', 'unpack:file', 'unpack:bytes_file', 'unpack:fp', 'unpack:cli',
        'unpack:bytes', 'unpack:fp_bio', 'append:file', 'append:fp', 'append:cli', 'append:cli-m',
        'rewrite', 'info', 'npack:nfile', 'npack:nbytes', 'npack:nfp', 'nunpack:nfile',
        'nunpack:nbytes', 'nunpack:nfp', 'nunpack:nunpack_file', 'mem', 'nmem']

# what is wrong with the request; per kind of operation
BAD = {
    'pack': ['noinput', 'badlevel', 'badmeta', 'outdir', 'badchecksum', 'badmaxapp', 'badchunk',
             'same', 'same-hard', 'same-sym'],
    'unpack': ['damaged', 'truncated', 'noarchive', 'version', 'empty', 'meta-damaged', 'outdir',
               'same', 'same-hard', 'same-sym', 'garbage'],
    'append': ['damaged', 'truncated', 'noarchive', 'noinput', 'version', 'nospace', 'badlevel',
               'same', 'same-hard', 'same-sym', 'empty', 'garbage'],
    'rewrite': ['damaged-meta', 'noarchive', 'version', 'toolarge', 'unchanged', 'badmeta', 'garbage'],
    'info': ['damaged', 'truncated', 'noarchive', 'version', 'empty', 'garbage'],
    'npack': ['badlevel', 'object', 'outdir', 'badchunk', 'badchecksum'],
    'nunpack': ['damaged', 'truncated', 'noarchive', 'version', 'empty', 'notarray', 'garbage',
                'shape', 'dtype'],
    'mem': ['badlevel', 'badchunk'],
    'nmem': ['object', 'badlevel'],
}


def spec(rng, p_bad=.3, kinds=None, surfaces=None, small=True, cli=True):
    """One operation as JSON data."""
    from .props.common import cfg
    op = rng.choice([o for o in (surfaces or GOOD) if (cli or ('cli' not in o and o != 'info'))
                     and (kinds is None or o.partition(':')[0] in kinds)])
    kind, _, surf = op.partition(':')
    d = {'op': op, 'cfg': cfg(rng, small=small, tiny=rng.random() < .3), 'bad': None,
         'seed': rng.randrange(1 << 20), 'size': [rng.choice([-1, 0, 1, 5]), rng.randint(0, 3)],
         'dt': rng.choice(['u1', '<u2', '<i4', '<f8', 'V3', 'S5', [['a', '<i2'], ['b', '<f4']],
                           rng.choice(['S20', '>f8', 'V100', '<M8[us]', '<c16', 'S255',
                                       [['a', '<i2'], ['s', 'S40'], ['c', '>u4', [2, 3]]]])]),
         'order': rng.choice(['C', 'F', 'step', 'rev']), 'exists': rng.random() < .3}
    if kind == 'append' and rng.random() < .6:
        d['ablosc'] = [None if rng.random() < .5 else gen.blosc_args(rng, 0)]
        if d['ablosc'][0] and 'cli' not in op and rng.random() < .5:
            # left for the archive or the defaults to decide
            for k in d['ablosc'][0]:
                if rng.random() < .6:
                    d['ablosc'][0][k] = None
    c = d['cfg']
    c['data']['n'] = min(c['data']['n'], 30000)
    if kind in ('append', 'rewrite'):
        c['data']['n'] = max(1, c['data']['n'])
        if c['bp']:
            c['bp']['offsets'] = True
    if 'cli' in op and kind == 'pack':
        c['margs'] = None
        if c['bp']:
            c['bp']['max_app'] = None
        if c['meta'] and c['meta'][0] is None:
            c['meta'] = None
    if op in ('append:cli-m', 'rewrite') or rng.random() < .2:
        c['meta'] = [{'a': 'some value', 'n': list(range(10))}]
    if op == 'append:cli-m':
        c['margs'] = None
    if rng.random() < .12:
        d['foreign'] = rng.randrange(1 << 20)
    if rng.random() < p_bad:
        d['bad'] = rng.choice(BAD[kind])
        if d['bad'] in ('meta-damaged', 'damaged-meta'):
            c['meta'] = [{'a': 'some value'}]
            c['margs'] = None
        if d['bad'] == 'damaged':
            c['bp'] = gen.bloscpack_args(rng, 0, offsets=True, need_checksum=True)
            if 'cli' in op:
                c['bp']['max_app'] = None
    return d


class Req(object):
    """A prepared operation: files are in place, call() performs it."""

    def __init__(self):
        self.call = None
        self.outs = []          # files the operation may write
        self.ins = []
        self.result = None      # () -> comparable value after success
        self.args = {}          # objects passed in
        self.fps = []           # file objects of the caller: [(fp)]
        self.expect_refused = False
        self.tag = ''


def np_array(d, data):
    import numpy as np
    dt = d['dt']
    dt = np.dtype([tuple(x[:2] + [tuple(x[2])] if len(x) > 2 else x) for x in dt]
                  if isinstance(dt, list) else dt)
    k = len(data) // dt.itemsize
    a = np.frombuffer(data[:k * dt.itemsize], dtype=dt)
    if d['order'] == 'F' and k >= 4:
        a = np.array(a[:k // 2 * 2].reshape(2, -1), order='F')
    elif d['order'] == 'step' and k >= 4:
        a = a[::2]
    elif d['order'] == 'rev':
        a = a[::-1]
    return a


def chunk_for(c, isz):
    ch = c['chunk']
    if isinstance(ch, str):
        return ch
    return max(1, (ch or isz) // isz) * isz


def args_objects(d, pool=None):
    """Argument objects; from the pool if it offers some."""
    c = d['cfg']
    kw = ops.args_of(c)
    for k in ('blosc_args', 'bloscpack_args', 'metadata_args', 'metadata'):
        if pool and k in pool and kw[k] is not None:
            kw[k] = pool[k]
    return kw


def foreign(b, arr, seed):
    """The archive as another implementation (or an old version) might have written it."""
    import random
    rng = random.Random(seed)
    p = ref.parse(b)
    m = ref.meta_value(p.meta) if p.meta is not None else None
    mo = None
    if m is not None:
        mo = {'checksum': rng.randrange(9), 'codec': rng.randrange(2), 'extra': rng.choice([0, 0, 3, 200]),
              'indent': rng.choice([None, 1]), 'ensure_ascii': rng.random() < .7,
              'magic': rng.choice([b'JSON', b'JSON    '])}
        if arr is not None and isinstance(m, dict) and rng.random() < .7:
            m['dtype'] = arr.dtype.descr if arr.dtype.names else arr.dtype.str
    return ref.write([b[x.pos:x.pos + x.ct] for x in p.chunks], checksum=rng.randrange(9),
                     typesize=p.typesize, offsets=rng.random() < .6, max_app=rng.choice([0, 0, 3]),
                     chunk_size=rng.choice([p.chunk_size, -1]),
                     last_chunk=rng.choice([p.last_chunk, -1]), meta=m, meta_opts=mo,
                     fill_offsets=rng.random() < .7, trailing=rng.choice([b'', b'', b'rest']))


def prepare(cx, fs, d, pre='t', pool=None, keep_fps=False):
    """Put the files in place with the real code; returns a Req."""
    r = Req()
    c = d['cfg']
    op, bad = d['op'], d['bad']
    kind, _, surf = op.partition(':')
    if bad and bad.startswith('same') and surf not in ('file', 'pack_file', 'unpack_file', 'cli'):
        bad = None              # no input and output named by the request
    P = lambda n: R + '/' + pre + n
    arc, inp, out, new, mp = P('a.blp'), P('in.dat'), P('out.dat'), P('new.dat'), P('m.json')
    data = gen.realise(c['data'])
    r.tag = '%s bad=%s' % (op, bad)
    w = cx.world(fs)

    def mk(fn):
        return cx.must(ops.attempt(w, fn), 'preparing %s' % r.tag)
    kw = args_objects(d, pool)
    arr = None
    if kind in ('npack', 'nunpack', 'nmem'):
        import numpy as np
        arr = np_array(d, data)
        if pool and 'array' in pool:
            arr = pool['array']
        if bad == 'object':
            arr = np.array([1, 'x', None], dtype=object)
        kw['chunk_size'] = chunk_for(c, arr.dtype.itemsize)
        if pool is not None and not isinstance(kw['chunk_size'], str):
            isz = arr.dtype.itemsize
            kw['chunk_size'] = max(kw['chunk_size'], arr.size // 12 * isz)
        kw.pop('metadata')
    if kind in ('pack', 'mem') and pool and 'data' in pool:
        data = pool['data']
        kw['chunk_size'] = max(1, min(c['chunk'] if isinstance(c['chunk'], int) else 1 << 20,
                                      1 << 20), len(data) // 40)
    r.data, r.arr = data, arr
    # the archive the operation works on
    if kind in ('unpack', 'append', 'rewrite', 'info') or bad == 'notarray':
        mk(lambda: ops.pack('bytes_file', c, data, arc))
        if pool and 'archive' in pool and kind in ('unpack', 'info') and bad is None:
            arc = pool['archive']
    elif kind == 'nunpack':
        ncfg = dict(c, chunk=kw['chunk_size'])
        mk(lambda: ops.npack('nfile', ncfg, arr, arc))
        if pool and 'narchive' in pool and bad is None:
            arc = pool['narchive']
    if d.get('foreign') is not None and kind in ('unpack', 'nunpack', 'info') and \
            arc == P('a.blp'):
        fs.put(arc, foreign(fs.get(arc), arr, d['foreign']))
    if kind == 'pack' and surf in ('file', 'pack_file', 'fp', 'cli'):
        fs.put(inp, data)
        if pool and 'input' in pool and bad is None:
            inp = pool['input']
            kw['chunk_size'] = max(1, len(fs.get(inp)) // 10)
            r.data = data = fs.get(inp)
    if kind == 'append':
        p = ref.parse(fs.get(arc))
        room = p.chunk_size - p.last_chunk
        n = max(0, room + d['size'][0] + d['size'][1] * p.chunk_size)
        n = min(n, room + p.max_app * p.chunk_size)
        if bad == 'nospace':
            n = room + p.max_app * p.chunk_size + 1
            if n > 2000000:
                bad = 'noinput'
        if bad != 'noinput':
            fs.put(new, gen.realise({'kind': 'mixed', 'n': n, 'seed': d['seed']}))
    # damage
    if bad == 'damaged':
        b = bytearray(fs.get(arc))
        p = ref.parse(bytes(b))
        b[p.chunks[-1].end - 1] ^= 4
        fs.put(arc, bytes(b))
    elif bad == 'truncated':
        b = fs.get(arc)
        p = ref.parse(b)
        fs.put(arc, b[:max(33, p.end - 1 - d['seed'] % 20)])
    elif bad == 'noarchive':
        fs.remove(arc)
    elif bad == 'noinput':
        if fs.exists(inp):
            fs.remove(inp)
    elif bad == 'version':
        b = bytearray(fs.get(arc))
        b[4] = 2
        fs.put(arc, bytes(b))
    elif bad == 'empty':
        fs.put(arc, b'')
    elif bad == 'garbage':
        fs.put(arc, gen.realise({'kind': 'rand', 'n': 300, 'seed': d['seed']}))
    elif bad in ('meta-damaged', 'damaged-meta'):
        b = bytearray(fs.get(arc))
        p = ref.parse(bytes(b))
        b[p.meta.payload_pos] ^= 16
        fs.put(arc, bytes(b))
    elif bad in ('shape', 'dtype'):
        b = fs.get(arc)
        p = ref.parse(b)
        m = ref.meta_value(p.meta)
        if bad == 'shape':
            m['shape'] = [x + 1 for x in m['shape']] or [2]
        else:
            m['dtype'] = "'<f12345'"
        fs.put(arc, ref.write([b[x.pos:x.pos + x.ct] for x in p.chunks], checksum=p.checksum,
                              typesize=p.typesize, offsets=p.has_offsets, meta=m,
                              chunk_size=p.chunk_size, last_chunk=p.last_chunk))
    # bad arguments
    if bad == 'badlevel':
        if kind == 'append':
            d = dict(d, cfg=dict(c, blosc={'typesize': 8, 'clevel': 10, 'shuffle': True,
                                           'cname': 'blosclz'}))
        else:
            kw['blosc_args'] = env.bp.BloscArgs(clevel=10)
    elif bad == 'badmeta':
        kw['metadata'] = {'x': object()}
    elif bad == 'badchecksum':
        kw['bloscpack_args'] = env.bp.BloscpackArgs(checksum='nosuch')
    elif bad == 'badmaxapp':
        kw['bloscpack_args'] = env.bp.BloscpackArgs(max_app_chunks='many')
    elif bad == 'badchunk':
        kw['chunk_size'] = -3
    elif bad == 'outdir':
        out = R + '/nodir/' + pre + 'out'
        if kind in ('pack', 'npack'):
            arc = R + '/nodir/' + pre + 'a.blp'
    elif bad and bad.startswith('same'):
        a, b = {'pack': (inp, arc), 'unpack': (arc, out), 'append': (new, arc)}[kind]
        if fs.exists(a):
            if bad == 'same':
                name = a
            else:
                name = P('link.blp')
                fs.hardlink(a, name) if bad == 'same-hard' else fs.symlink(a, name)
            if kind == 'pack':
                arc = name
            elif kind == 'unpack':
                out = name
            else:
                new = arc
                if bad != 'same':
                    new = P('link.blp')
                    fs.remove(new)
                    fs.hardlink(arc, new) if bad == 'same-hard' else fs.symlink(arc, new)
    default = False
    if surf == 'cli' and d['seed'] % 3 == 0 and bad != 'outdir' and not (bad or '').startswith('same'):
        # let the command choose the name of its output
        if kind == 'unpack' and arc == P('a.blp'):
            out, default = P('a'), True
        elif kind == 'pack' and inp == P('in.dat'):
            arc, default = P('in.dat.blp'), True
    if d.get('exists') and not (bad or '').startswith('same') and bad != 'outdir':
        if kind in ('pack', 'npack'):
            fs.put(arc, b'older content' * 40)
        elif kind == 'unpack':
            fs.put(out, b'older content' * 40)
    newmd = {'z': 'replaced', 'k': [1, 2]}
    if pool and 'newmd' in pool:
        newmd = pool['newmd']
    r.args = {k: v for k, v in kw.items() if v is not None and k != 'chunk_size'}
    if arr is not None:
        r.args['array'] = arr
    ab = d['ablosc'][0] if d.get('ablosc') and bad != 'badlevel' else d['cfg']['blosc']
    bargs = gen.mk_blosc(ab)
    if pool and 'blosc_args' in pool and bad is None and bargs is not None:
        bargs = pool['blosc_args']
    if kind == 'append' and bargs is not None and 'cli' not in surf:
        r.args['append_blosc'] = bargs
    fs0 = fs
    val = lambda p: World.cur.fs.get(p) if World.cur else fs0.get(p)

    if kind == 'pack':
        if surf == 'cli':
            mpath = None
            if 'metadata' in r.args:
                if bad == 'badmeta':
                    mpath = P('bad.json')
                    fs.put(mpath, b'{nonsense')
                else:
                    mpath = mp
                    fs.put(mp, json.dumps(kw['metadata']).encode())
            cc = dict(c, chunk=kw['chunk_size'])
            if bad == 'badchecksum':
                cc['bp'] = {'checksum': 'nosuch', 'offsets': True}
            if bad == 'badlevel':
                cc['blosc'] = {'typesize': 8, 'clevel': 10, 'shuffle': True, 'cname': 'blosclz'}
            if bad == 'badmaxapp':
                bad = None
            argv = ['-f', 'c'] + ops.cli_argv(cc, mpath) + ([inp] if default else [inp, arc])
            r.call = lambda: ops.cli(argv)
            r.ins = [inp, mpath]
        elif surf in ('bytes', 'fp_bio'):
            if surf == 'bytes' and bad in ('outdir', 'noinput', 'same', 'same-hard', 'same-sym'):
                bad = None
            r.call = lambda: ops.pack(surf, c, data, arc, inp, pre=dict(kw))
        else:
            if surf == 'fp' and keep_fps:
                r.call = lambda: caller_fp_pack(r, c, kw, data, inp, arc)
            else:
                r.call = lambda: ops.pack(surf, c, data, arc, inp, pre=dict(kw))
            r.ins = [inp]
        r.outs = [arc] if surf not in ('bytes', 'fp_bio') else []
        r.result = lambda o: bytes(o.value) if surf in ('bytes', 'fp_bio') else fs.get(arc)
    elif kind == 'unpack':
        if surf == 'fp' and keep_fps:
            r.call = lambda: caller_fp_unpack(r, arc, out)
        elif surf == 'cli':
            argv = ['-f', 'd', arc] if default else ['-f', 'd', '-e', arc, out]
            r.call = lambda: ops.cli(argv)
        else:
            r.call = lambda: ops.unpack(surf, arc, out)
        r.outs = [out] if surf in ('file', 'fp', 'cli') else []
        r.ins = [arc]
        r.result = lambda o: (fs.get(out) if r.outs else bytes(o.value[0]),
                              'cli' if surf == 'cli' else json.dumps(o.value[1], sort_keys=True))
    elif kind == 'append':
        if surf == 'cli-m':
            fs.put(mp, json.dumps(newmd).encode())
            r.call = lambda: ops.cli(['append', '-e', '-m', mp, arc, new])
            r.ins = [new, mp]
        elif surf == 'fp' and keep_fps:
            r.call = lambda: caller_fp_append(r, arc, new, bargs)
            r.ins = [new]
        else:
            b = ab if surf == 'cli' else bargs
            r.call = lambda: ops.append(surf, arc, new, b)
            r.ins = [new]
        r.outs = [arc]
        r.result = lambda o: (fs.get(arc), o.value if surf in ('fp', 'fp_bio') else None)
    elif kind == 'rewrite':
        v = newmd
        if bad == 'toolarge':
            v = {'k': [gen.realise({'kind': 'rand', 'n': 30000, 'seed': 1}).hex()]}
        elif bad == 'unchanged':
            v = c['meta'][0]
        elif bad == 'badmeta':
            v = {'x': object()}
        r.args['newmd'] = v
        r.call = lambda: ops.rewrite_meta(arc, v)
        r.outs = [arc]
        r.result = lambda o: fs.get(arc)
    elif kind == 'info':
        r.call = lambda: ops.cli(['info', arc])
        r.ins = [arc]
        r.result = lambda o: o.out
    elif kind == 'npack':
        if surf == 'nbytes':
            def do():
                from . import env as e
                return e.bp.pack_ndarray_to_bytes(arr, **kw)
            r.call = do
            if bad == 'outdir':
                bad = None
        else:
            r.call = lambda: ops.npack(surf, c, arr, arc, pre=dict(kw))
            r.outs = [arc]
        r.result = lambda o: bytes(o.value) if surf == 'nbytes' else fs.get(arc)
    elif kind == 'nunpack':
        r.call = lambda: ops.nunpack(surf, arc)
        r.ins = [arc]
        r.result = lambda o: (o.value.dtype.str, str(o.value.dtype.descr), o.value.shape,
                              bool(o.value.flags.f_contiguous), o.value.tobytes())
    elif kind == 'mem':
        r.call = lambda: memrt(kw, data)
        r.result = lambda o: o.value
    elif kind == 'nmem':
        r.call = lambda: nmemrt(kw, arr)
        r.result = lambda o: (o.value.dtype.str, o.value.shape, o.value.tobytes())
    if kind in ('pack', 'mem', 'append'):
        r.args['data'] = data
    r.bad = bad
    r.ins = [i for i in r.ins if i]
    r.expect_refused = bool(bad) and bad.startswith('same') and surf not in ('bytes', 'fp_bio',
                                                                              'bytes_file', 'fp')
    r.surf, r.kind = surf, kind
    return r


def memrt(kw, data):
    from bloscpack.abstract_io import pack as core_p, unpack as core_u
    from bloscpack.memory_io import (PlainMemorySource, CompressedMemorySource,
                                     PlainMemorySink, CompressedMemorySink)
    from bloscpack.args import calculate_nchunks
    k = dict(kw)
    nch, cs, lc = calculate_nchunks(len(data), k.pop('chunk_size'))
    src = PlainMemorySource([data[i * cs:(i + 1) * cs] for i in range(nch)] if cs else [data])
    sink = CompressedMemorySink()
    core_p(src, sink, nch, cs, lc, **k)
    csrc = CompressedMemorySource(sink)
    ps = PlainMemorySink(nch)
    core_u(csrc, ps)
    return b''.join(ps.chunks), json.dumps(csrc.metadata)


def nmemrt(kw, arr):
    from bloscpack.numpy_io import pack_ndarray, unpack_ndarray
    from bloscpack.memory_io import CompressedMemorySink, CompressedMemorySource
    sink = CompressedMemorySink()
    pack_ndarray(arr, sink, **kw)
    return unpack_ndarray(CompressedMemorySource(sink))


# operations on file objects that stay with the caller

def caller_fp_pack(r, c, kw, data, inp, arc):
    from bloscpack.abstract_io import pack as core
    from bloscpack.file_io import PlainFPSource, CompressedFPSink
    from bloscpack.args import calculate_nchunks
    k = dict(kw)
    nch, cs, lc = calculate_nchunks(len(data), k.pop('chunk_size'))
    i = open(inp, 'rb')
    r.fps.append(i)
    o = open(arc, 'wb')
    r.fps.append(o)
    core(PlainFPSource(i), CompressedFPSink(o), nch, cs, lc, **k)
    o.flush()


def caller_fp_unpack(r, arc, out):
    from bloscpack.abstract_io import unpack as core
    from bloscpack.file_io import CompressedFPSource, PlainFPSink
    i = open(arc, 'rb')
    r.fps.append(i)
    o = open(out, 'wb')
    r.fps.append(o)
    s = CompressedFPSource(i)
    core(s, PlainFPSink(o))
    o.flush()
    return None, s.metadata


def caller_fp_append(r, arc, new, bargs):
    import bloscpack.append as ap
    size = len(World.cur.fs.get(new))
    o = open(arc, 'r+b')
    r.fps.append(o)
    i = open(new, 'rb')
    r.fps.append(i)
    n = ap.append_fp(o, i, size, blosc_args=bargs)
    o.flush()
    return n
