"""C17: compression and decompression stream with bounded look-ahead."""
import bisect
import random
import sys
import tracemalloc

from .common import *

ID = 'C17'
COUNTS = {'quick': 3500, 'thorough': 30000}
RULE = ('one run = one file to file operation on 24 to 300 chunks of incompressible data; at every '
        'raw read the bytes consumed minus the bytes put out are compared with a bound of six chunks '
        'plus the stream buffers; writes of a compression without offsets must be contiguous and '
        'forward, reads of the plain input contiguous and forward; some runs bound the memory in use '
        'at every event instead; fingerprint = (operation, number '
        'of chunks class, chunk size, buffer, offsets, largest look-ahead in chunks)')
PROBES = ('pack', 'unpack', 'append', 'cli', 'no-offsets', 'non-seekable-input', 'write-only-sink',
          'large', 'checksum', 'metadata', 'debug', 'long', 'compressible', 'memory')

OPS = ['pack:file', 'pack:fp', 'pack:cli', 'pack:pack_file', 'unpack:file', 'unpack:fp', 'unpack:cli',
       'unpack:unpack_file', 'append:file', 'append:fp', 'append:cli', 'pack:pipe', 'pack:pipe']


def scenario(rng, tier):
    op = rng.choice(OPS)
    nch = rng.choice([24, 33, 40, 64, 100] if tier == 'quick' else [24, 40, 100, 200, 300])
    cs = rng.choice([1000, 4096, 10000, 16384, 16384, 65536])
    if cs == 65536 and tier == 'quick':
        nch = min(nch, 40)
    scn = {'op': op, 'nch': nch, 'cs': cs, 'tail': rng.choice([0, 0, 1, 500]),
           'blosc': gen.blosc_args(rng, .2), 'bp': gen.bloscpack_args(rng, .2),
           'meta': rng.random() < .3, 'seed': rng.randrange(1 << 20), 'level': level(rng),
           'first': rng.choice([1, 2, 10]), 'fill': rng.choice([1, 1, 1, 2, 4, 4, 8]),
           'knobs': {'gran': rng.choice(['full', 'full', 'rand', 'half', 'rare']),
                     'buf': rng.choice([512, 4096, 8192, 8192, 65536]), 'io_seed': rng.randrange(1 << 20)}}
    if scn['bp']:
        scn['bp']['max_app'] = None
    if op.endswith('pipe') and rng.random() < .7:
        scn['bp'] = {'offsets': False, 'checksum': rng.choice(gen.CHECKSUMS), 'max_app': None}
    scn['mem'] = rng.random() < .08
    if scn['mem']:
        scn.update(nch=rng.choice([48, 64, 80] if tier == 'quick' else [64, 100, 200]), fill=1,
                   cs=rng.choice([32768, 65536, 65536]), level=rng.choice(['NORMAL', 'VERBOSE']))
        if scn['knobs']['gran'] in ('rand', 'half'):
            scn['knobs']['gran'] = 'full'
    return scn


class MemMeter(object):
    """Memory in use beyond the start, without the content of the simulated files."""

    def __init__(self, fs):
        self.fs, self.worst, self.at, self.n = fs, 0, '', 0
        tracemalloc.start(1)
        for i in {id(i): i for i in fs.paths.values()}.values():
            i.data = bytearray(i.data)          # traced from here on
        self.base = self.now()

    def now(self):
        seen = {id(i): i for i in self.fs.paths.values()}
        return tracemalloc.get_traced_memory()[0] - sum(sys.getsizeof(i.data) for i in seen.values())

    def __call__(self, kind, path, a, b, extra):
        self.n += 1
        used = self.now() - self.base
        if used > self.worst:
            self.worst, self.at = used, '%s %s %s' % (kind, path, a)

    def stop(self):
        tracemalloc.stop()


class Meter(object):
    """Follows raw reads of one file and raw writes of another."""

    def __init__(self, inp, out, in0=0, out0=0):
        self.inp, self.out = inp, out
        self.in0, self.out0 = in0, out0
        self.read_to = in0          # highest input position consumed
        self.put = 0                # bytes written behind out0
        self.worst = 0
        self.at = 0
        self.reads = []             # (pos, requested)
        self.writes = []            # (pos, n)
        self.steps = []             # (input consumed, bytes put), growing

    def __call__(self, kind, path, a, b, extra):
        if kind == 'read' and path == self.inp:
            # everything before this request has been consumed
            self.consumed(a)
            self.reads.append((a, b))
        elif kind == 'write' and path == self.out:
            if a + b > self.out0:
                self.put += b if a >= self.out0 else a + b - self.out0
            self.writes.append((a, b))

    def consumed(self, pos):
        if pos > self.read_to:
            self.read_to = pos
        ahead = self.read_to - self.in0 - self.put
        if ahead > self.worst:
            self.worst, self.at = ahead, pos
        self.steps.append((self.read_to - self.in0, self.put))

    def lag(self, ins, outs):
        """Most chunks consumed and not put out; ins, outs: where chunks end in input and output."""
        worst = at = 0
        for r, p in self.steps:
            k = bisect.bisect_right(ins, r) - bisect.bisect_right(outs, p)
            if k > worst:
                worst, at = k, r
        return worst, at


class PipeIn(object):
    """A stream that can only be read."""

    def __init__(self, fp):
        self.fp = fp

    def read(self, n=-1):
        return self.fp.read(n)

    def seekable(self):
        return False

    def readable(self):
        return True


class ForwardOut(object):
    """A stream that can only be written, and knows how much has been."""

    def __init__(self, fp):
        self.fp, self.n = fp, 0

    def write(self, b):
        self.n += len(b)
        return self.fp.write(b)

    def tell(self):
        return self.n

    def flush(self):
        self.fp.flush()

    def seekable(self):
        return False

    def writable(self):
        return True


def run(scn, cx):
    set_level(scn['level'])
    kind, _, surf = scn['op'].partition(':')
    cs = scn['cs']
    fill = scn.get('fill', 1) if cs >= 10000 else 1
    if fill == 1:
        data = gen.realise({'kind': 'rand', 'n': cs * scn['nch'] + scn['tail'], 'seed': scn['seed']})
    else:                       # every chunk compresses to about 1/fill
        r = random.Random(scn['seed'])
        data = b''.join(r.randbytes(cs // fill) + bytes([i % 256]) * (cs - cs // fill)
                        for i in range(scn['nch'])) + r.randbytes(scn['tail'])
        cx.probe('compressible')
    c = {'chunk': cs, 'blosc': scn['blosc'], 'bp': scn['bp'], 'margs': None,
         'meta': [{'a': 'some metadata'}] if scn['meta'] else None, 'data': {'n': len(data)}}
    arc, inp, out = R + '/a.blp', R + '/in', R + '/out'
    w = cx.world(None, scn['knobs'])
    buf = scn['knobs']['buf']
    off = eff_offsets(c['bp'])
    cx.probe(kind)
    if scn['level'] == 'DEBUG':
        cx.probe('debug')
    if surf == 'cli':
        cx.probe('cli')
    if scn['meta']:
        cx.probe('metadata')
    if eff_checksum(c['bp']) != 'None':
        cx.probe('checksum')
    if scn['nch'] >= 64:
        cx.probe('long')
    if kind == 'pack':
        w.fs.put(inp, data)
        m = Meter(inp, arc, 0, overhead(c, len(data)))
        if surf == 'pipe':
            call = lambda: pack_pipe(c, data, inp, arc, not off)
            cx.probe('non-seekable-input')
            if not off:
                cx.probe('write-only-sink')
        else:
            call = lambda: ops.pack(surf, c, data, arc, inp)
    elif kind == 'unpack':
        blob = ref_archive(c, data)
        w.fs.put(arc, blob)
        m = Meter(arc, out, ref.parse(blob).chunks_pos, 0)
        call = lambda: ops.unpack(surf, arc, out)
    else:
        c['bp'] = {'offsets': True, 'checksum': eff_checksum(c['bp']), 'max_app': scn['nch'] + 3}
        off = True
        old = gen.realise({'kind': 'rand', 'n': cs * scn['first'] - 10, 'seed': scn['seed'] + 1})
        blob = ref_archive(dict(c, chunk=cs), old)
        w.fs.put(arc, blob)
        w.fs.put(inp, data)
        q = ref.parse(blob)
        if q.chunk_size < cs:
            raise Skip()
        m = Meter(inp, arc, 0, q.chunks[-1].pos)
        call = lambda: ops.append(surf, arc, inp, scn['blosc'])
    tag = '%s of %d chunks of %d' % (scn['op'], scn['nch'], cs)
    if scn.get('mem'):
        cx.probe('memory')
        mm = MemMeter(w.fs)
        w.hooks.append(mm)
        try:
            o = attempt(w, call)
        finally:
            mm.stop()
        w.hooks.remove(mm)
        cx.must(o, tag)
        bound = 10 * cs + 8 * buf + 400000
        cx.evals += 1
        cx.fp('mem', scn['op'], scn['nch'], cs, off, mm.worst // cs)
        cx.check(mm.worst <= bound, 'memory', lambda: '%s: %d bytes (%.1f chunks) of memory in use, at '
                     '%s; bound %d' % (tag, mm.worst, mm.worst / cs, mm.at, bound))
        return
    w.fs.log = []
    w.hooks.append(m)
    o = attempt(w, call)
    w.hooks.remove(m)
    cx.must(o, tag)
    # one chunk may be held compressed and uncompressed; buffers on both sides
    bound = 6 * cs + 4 * buf + 32768
    cx.evals += 1
    cx.fp(scn['op'], scn['nch'], cs, buf, off, m.worst // cs, scn['knobs']['gran'])
    if len(data) > 1 << 20:
        cx.probe('large')
    cx.check(m.worst <= bound or fill > 1 and kind != 'unpack', 'look-ahead', lambda:
             '%s: %d bytes (%.1f chunks) of input consumed beyond what was put out, at input byte %d; bound %d' %
             (tag, m.worst, m.worst / cs, m.at, bound))
    # the same in chunks, which does not depend on how well they compress
    if kind == 'unpack':
        q = ref.parse(blob)
        ins = [x.end - m.in0 for x in q.chunks]
        outs = [min(len(data), (i + 1) * cs) for i in range(len(q.chunks))]
    else:
        q2 = ref.parse(w.fs.get(arc))
        k = len(q.chunks) - 1 if kind == 'append' else 0
        outs = [x.end - m.out0 for x in q2.chunks[k:]]
        room = cs - q.last_chunk if kind == 'append' else cs
        ins = [min(len(data), room + i * cs) for i in range(len(outs))]
    size = [b - a for a, b in zip([0] + outs, outs)][:-1] + [b - a for a, b in zip([0] + ins, ins)][1:-1]
    slack = 6 + (4 * buf + 32768) // max(1, min(size))
    lag, at = m.lag(ins, outs)
    cx.check(lag <= slack, 'look-ahead-chunks', lambda:
             '%s: %d chunks of input consumed and not put out, at input byte %d; bound %d chunks' %
             (tag, lag, at, slack))
    if kind == 'pack':
        prev = 0
        for a, b in m.reads:
            cx.check(a >= prev, 'input-order', lambda: '%s: input read at %d again, after %d' % (tag, a, prev))
            prev = a
        if not off:
            cx.probe('no-offsets')
            num, pos = w.fs.paths[w.fs.res(arc)].num, 0
            for e in w.fs.log:
                if e[0] != 'write' or e[1] != num:
                    continue
                cx.check(e[2] == pos, 'output-order', lambda:
                         '%s without offsets: write at %d when %d bytes were out' % (tag, e[2], pos))
                pos += len(e[3])
        p, md = ref.decode(w.fs.get(arc))
        cx.check(p == data, 'content', tag)
    elif kind == 'unpack':
        cx.check(w.fs.get(out) == data, 'content', tag)
    else:
        p, md = ref.decode(w.fs.get(arc))
        cx.check(p == old + data, 'content', tag)


def overhead(c, n):
    """Bytes in front of the chunks."""
    nch = chunking(n, c['chunk'])[0]
    pos = 32
    if c['meta']:
        raw = json.dumps(c['meta'][0], separators=(',', ':'))
        pos += 32 + 10 * len(raw) + 4
    if eff_offsets(c['bp']):
        pos += 8 * (nch + eff_max_app(c['bp'], nch))
    return pos


def pack_pipe(c, data, inp, arc, forward):
    """Core packing between streams that can not be repositioned."""
    from bloscpack.abstract_io import pack as core
    from bloscpack.file_io import PlainFPSource, CompressedFPSink
    from bloscpack.args import calculate_nchunks
    kw = ops.args_of(c)
    nch, cs, lc = calculate_nchunks(len(data), kw.pop('chunk_size'))
    with open(inp, 'rb') as i, open(arc, 'wb') as o:
        core(PlainFPSource(PipeIn(i)), CompressedFPSink(ForwardOut(o) if forward else o), nch, cs, lc, **kw)
