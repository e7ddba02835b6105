"""C01: byte data and metadata round trip, every surface and stream granularity."""
import io

from .common import *

ID = 'C01'
COUNTS = {'quick': 5000, 'thorough': 150000}
RULE = ('one run = one random configuration and data, compressed through one surface and '
        'decompressed through two, under random buffer sizes and raw transfer splitting; '
        'fingerprint = (chunk-count class, last-chunk class, checksum, offsets, codec, '
        'metadata, surfaces, granularity, log level)')
PROBES = ('raw-short', 'raw-ok', 'raw-raised', 'empty', 'big', 'many-chunks', 'cli', 'mem', 'pre', 'wrapped')
WRAPPED = ('bytes', 'bytes_file', 'pack_bytes_file', 'fp_bio')


def scenario(rng, tier):
    scn = {'cfg': cfg(rng), 'knobs': gen.knobs(rng), 'knobs2': gen.knobs(rng),
           'level': level(rng), 'kind': 'plain'}
    c = scn['cfg']
    r = rng.random()
    if r < .05:
        c['data']['n'] = 0
    elif r < .08:
        c['chunk'] = rng.choice(['1K', '2K', '64K', '1M', '0.5K', '1B', '100B'])
        c['data']['n'] = rng.choice([1023, 1024, 1025, 2048, 5000, 65536 * 2 + 1]) \
            if c['chunk'] != '1B' else 300
    elif r < .10:
        c['chunk'] = rng.choice([1 << 20, 1 << 21, 1500000, '1M'])
        c['data']['n'] = rng.choice([(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20,
                                     (1 << 21) + 12345])
    elif r < .115:
        c['chunk'] = rng.choice([1, 2, 3])
        c['data']['n'] = rng.choice([1000, 1999, 2000, 2601])
    elif r < .14:
        c['chunk'] = rng.choice([2 ** 31 - 1 - 16, 2147483631, '1.5G', 10 ** 9])
    n = c['data']['n']
    scn['pack'] = rng.choice(ops.PACK)
    if scn['pack'] in WRAPPED and rng.random() < .15:
        scn['wrap'] = rng.choice(['bytearray', 'memoryview'])
    scn['unpack'] = [rng.choice(ops.UNPACK), rng.choice(ops.UNPACK)]
    if scn['pack'] == 'cli':
        c['margs'] = None
        if c['bp']:
            c['bp']['max_app'] = None
        if rng.random() < .5:
            c['verb'] = 'c'
    if rng.random() < .12:
        scn['kind'] = 'mem'
        scn['chunked'] = rng.random() < .5
        scn['fixed'] = rng.random() < .5
    elif rng.random() < .2:
        scn['kind'] = 'raw'         # unbuffered streams handed in by the user
        scn['raw_in'] = rng.random() < .6
        scn['raw_arc'] = rng.random() < .6
    if c['meta'] is not None and rng.random() < .15:
        scn['pre'] = gen.near(c['meta'][0], rng)
    scn['knobs'] = gen.tame(scn['knobs'], n)
    scn['knobs2'] = gen.tame(scn['knobs2'], n)
    return scn


def run(scn, cx):
    c = scn['cfg']
    data = gen.realise(c['data'])
    set_level(scn['level'])
    if len(data) == 0:
        cx.probe('empty')
    if len(data) >= 1 << 20:
        cx.probe('big')
    if chunking(len(data), c['chunk'])[0] > 255:
        cx.probe('many-chunks')
    if 'pre' in scn:
        # the same kind of request before, with nearly the same metadata
        cx.probe('pre')
        o = attempt(cx.world(None), lambda: ops.pack('bytes', dict(c, meta=[scn['pre']]), data[:100],
                                                     None, None))
        cx.must(o, 'compression before')
    if scn['kind'] == 'mem':
        cx.probe('mem')
        w = cx.world(None, scn['knobs'])
        o = attempt(w, lambda: ops.mem_roundtrip(c, data, scn['chunked'], scn['fixed']))
        out, md, nout, nch = cx.must(o, 'memory round trip')
        cx.check(out == data, 'data', lambda: 'memory round trip: %s instead of %s' %
                 (brief(out), brief(data)))
        cx.check(same_json(md, meta_val(c)), 'metadata', lambda: 'memory metadata %r, expected %r'
                 % (md, meta_val(c)))
        cx.fp('mem', cfg_class(c), scn['chunked'], scn['fixed'], scn['level'])
        return
    if scn['kind'] == 'raw':
        return run_raw(scn, cx, c, data)
    if scn['pack'] == 'cli' and not ops.cli_ok(c):
        raise Skip()
    w = cx.world(None, scn['knobs'])
    w.fs.put(R + '/in.dat', data)
    arc = R + '/a.blp'
    given = {'bytearray': bytearray, 'memoryview': memoryview}.get(scn.get('wrap'), bytes)(data)
    o = attempt(w, lambda: ops.pack(scn['pack'], c, given, arc, R + '/in.dat'))
    if 'wrap' in scn:
        # bytes-like objects may be refused, but not packed wrongly
        cx.probe('wrapped')
        cx.check(bytes(given) == data, 'input', 'the %s packed was changed' % scn['wrap'])
        if not o.ok and isinstance(o.exc, TypeError):
            raise Skip()
    cx.must(o, 'compression via %s' % scn['pack'])
    if scn['pack'] in ('bytes', 'fp_bio'):
        cx.check(isinstance(o.value, bytes), 'type', 'packed bytes are %s' % type(o.value))
        w.fs.put(arc, o.value)
    if scn['pack'] == 'cli':
        cx.probe('cli')
    for s in scn['unpack']:
        w2 = cx.world(w.fs, scn['knobs2'])
        u = ops.unpack_bytes(w2, s, arc, R + '/out.dat')
        out, md = cx.must(u, 'decompression via %s' % s)
        cx.check(out == data, 'data', lambda: '%s -> %s: %s instead of %s, first difference at %d'
                 % (scn['pack'], s, brief(out), brief(data), first_diff(out, data)))
        if md is not ops.CLI_META:
            cx.check(same_json(md, meta_val(c)), 'metadata',
                     lambda: '%s -> %s: metadata %r instead of %r' % (scn['pack'], s, md, meta_val(c)))
        cx.evals += 1
        cx.fp(cfg_class(c), scn['pack'], s, scn['knobs']['gran'], scn['knobs2']['gran'],
              scn['level'])


def run_raw(scn, cx, c, data):
    """User supplied unbuffered streams with short transfers: right or raise."""
    from bloscpack.abstract_io import pack as core_p, unpack as core_u
    from bloscpack.file_io import (PlainFPSource, CompressedFPSink, CompressedFPSource,
                                   PlainFPSink)
    from bloscpack.args import calculate_nchunks
    cx.probe('raw-short')
    w = cx.world(None, scn['knobs'])
    w.fs.put(R + '/in.dat', data)
    arc = R + '/a.blp'

    def do_pack():
        kw = ops.args_of(c)
        nch, cs, lc = calculate_nchunks(len(data), kw.pop('chunk_size'))
        with open(R + '/in.dat', 'rb', buffering=0 if scn['raw_in'] else -1) as i, \
                open(arc, 'wb') as o:
            core_p(PlainFPSource(i), CompressedFPSink(o), nch, cs, lc, **kw)
    o = attempt(w, do_pack)
    cx.no_abort(o, 'compression from a raw stream')
    if not o.ok:
        cx.check(scn['raw_in'], 'unexpected-error', 'compression failed: %s' % o.describe())
        cx.probe('raw-raised')
        cx.fp('raw', cfg_class(c), 'raised', scn['knobs']['gran'])
        w = cx.world(None, gen.knobs(__import__('random').Random(0), 1.1))
        w.fs.put(arc, ref_archive(c, data))
    w2 = cx.world(w.fs, scn['knobs2'])
    res = []

    def do_unpack():
        with open(arc, 'rb', buffering=0 if scn['raw_arc'] else -1) as i, \
                open(R + '/out.dat', 'wb') as f:
            src = CompressedFPSource(i)
            core_u(src, PlainFPSink(f))
            return src.metadata
    u = attempt(w2, do_unpack)
    cx.no_abort(u, 'decompression from a raw stream')
    if u.ok:
        out = w2.fs.get(R + '/out.dat')
        cx.check(out == data, 'data', lambda: 'raw streams (input raw: %s, archive raw: %s): '
                 'succeeded with %s instead of %s' % (scn['raw_in'], scn['raw_arc'], brief(out), brief(data)))
        cx.check(same_json(u.value, meta_val(c)), 'metadata', 'raw streams: metadata %r instead of %r'
                 % (u.value, meta_val(c)))
        cx.probe('raw-ok')
    else:
        cx.check(scn['raw_arc'], 'unexpected-error', 'decompression failed: %s' % u.describe())
        cx.probe('raw-raised')
    cx.fp('raw', cfg_class(c), u.kind(), scn['knobs2']['gran'], scn['raw_in'], scn['raw_arc'])

