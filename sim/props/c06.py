"""C06: damage under a checksum is never delivered as data."""
import io

from .common import *

ID = 'C06'
COUNTS = {'quick': 7000, 'thorough': 200000}
RULE = ('one run = one checksummed archive (bytes or array, possibly appended to or its metadata '
        'rewritten), one or two damages (bit flip, byte, range, cut) to a region the property '
        'covers, read through several surfaces; fingerprint = (damage kind, region, position '
        'class, surface, checksum, how it was reported)')
PROBES = ('d:head', 'd:body', 'd:digest', 'd:meta', 'd:metadigest', 'd:cut', 'last-chunk',
          'first-chunk', 'appended', 'rewritten', 'numpy', 'cli', 'mem', 'info', 'cut-boundary', 'big-meta')

READ = ['file', 'bytes_file', 'bytes', 'fp', 'fp_bio', 'cli', 'unpack_file', 'unpack_bytes_file']


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=rng.random() < .8, need_checksum=True), 'level': level(rng),
           'knobs': gen.knobs(rng), 'numpy': rng.random() < .2, 'app': [], 'rewrite': rng.random() < .15}
    c = scn['cfg']
    reg = rng.choice(['head', 'body', 'body', 'body', 'digest', 'digest', 'meta', 'metadigest',
                      'cut', 'cut', 'cut'])
    if reg in ('meta', 'metadigest') and not scn['numpy']:
        c['meta'] = [gen.metadata(rng)]
        if c['meta'][0] is None:
            c['meta'] = [{'a': 1}]
    if reg in ('meta', 'metadigest'):
        c['margs'] = gen.meta_args(rng, 0, need_checksum=True)
    if reg == 'meta' and not scn['numpy'] and rng.random() < .06:
        c['meta'][0], c['margs'] = gen.big_metadata(rng)
    scn['region'] = reg
    if rng.random() < .25 and eff_offsets(c['bp']):
        scn['app'] = [rng.randint(1, 3000) for _ in range(rng.choice([1, 1, 2]))]
    scn['damage'] = [{'which': rng.choice(['first', 'last', 'any', 'any']), 'frac': rng.random(),
                      'how': rng.choice(['bit', 'bit', 'bit', 'byte', 'zero', 'range', 'ff', 'inc', 'swap', 'reverse',
                                         'rot', 'allzero', 'allff', 'pair', 'other']),
                      'bit': rng.randrange(8), 'len': rng.choice([1, 2, 4, 16, 100]),
                      'edge': rng.choice([None, None, None, 0, 1, -1])}
                     for _ in range(rng.choice([1, 1, 1, 2]))]
    scn['seed'] = rng.randrange(1 << 30)
    scn['read'] = rng.sample(READ, 3)
    scn['knobs2'] = gen.knobs(rng)
    return scn


def apply_damage(blob, lo, hi, d, seed):
    """Alter bytes in [lo, hi); returns None if impossible."""
    import random
    n = hi - lo
    if n <= 0:
        return False
    at = lo + (0 if d['edge'] == 0 else n - 1 if d['edge'] == -1 else min(1, n - 1)
               if d['edge'] == 1 else int(d['frac'] * (n - 1e-9)))
    r = random.Random(seed)
    if d['how'] == 'bit':
        blob[at] ^= 1 << d['bit']
    elif d['how'] == 'byte':
        blob[at] = (blob[at] + 1 + r.randrange(255)) & 255
    elif d['how'] == 'inc':
        blob[at] = (blob[at] + 1) & 255
    elif d['how'] == 'swap':
        o = lo + r.randrange(n)
        blob[at], blob[o] = blob[o], blob[at]
    elif d['how'] == 'reverse':
        blob[lo:hi] = blob[lo:hi][::-1]
    elif d['how'] == 'rot':
        blob[lo:hi] = blob[lo + 1:hi] + blob[lo:lo + 1]
    elif d['how'] in ('allzero', 'allff'):
        blob[lo:hi] = bytes([0 if d['how'] == 'allzero' else 255]) * n
    elif d['how'] == 'pair':
        # keeps the sum of the bytes
        o = lo + r.randrange(n)
        if o != at:
            blob[at] = (blob[at] + 1) & 255
            blob[o] = (blob[o] - 1) & 255
    elif d['how'] == 'other':
        # what another place of the archive holds, e.g. another checksum
        o = r.randrange(len(blob) - n + 1)
        blob[lo:hi] = blob[o:o + n]
    else:
        for i in range(at, min(hi, at + d['len'])):
            blob[i] = {'zero': 0, 'ff': 255}.get(d['how'], r.randrange(256))
    return True


def run(scn, cx):
    c = scn['cfg']
    set_level(scn['level'])
    data = gen.realise(c['data'])
    arc = R + '/a.blp'
    isnd = scn['numpy']
    if isnd:
        import numpy as np
        w = cx.world(None)
        o = attempt(w, lambda: ops.npack('nfile', c, np.frombuffer(data, 'u1'), arc))
        cx.must(o, 'packing the array')
        cx.probe('numpy')
    else:
        w = pack_clean(cx, c, data, arc)
    fs = w.fs
    for i, n in enumerate(scn['app']):
        if not data or isnd:
            break
        new = gen.realise({'kind': 'mixed', 'n': n, 'seed': i})
        fs.put(R + '/p', new)
        o = attempt(cx.world(fs), lambda: ops.append('file', arc, R + '/p'))
        if o.ok:
            data += new
            cx.probe('appended')
    if scn['rewrite'] and has_meta(c) and not isnd:
        o = attempt(cx.world(fs), lambda: ops.rewrite_meta(arc, {'v': scn['seed'] % 7}))
        if o.ok:
            cx.probe('rewritten')
    good = fs.get(arc)
    p = ref.parse(good)
    md0 = ref.meta_value(p.meta) if p.meta else None
    blob = bytearray(good)
    reg = scn['region']
    body_only = True
    cx.probe('d:' + reg)
    for j, d in enumerate(scn['damage']):
        if reg == 'cut':
            if d['edge'] is not None:
                # at or next to a structural boundary
                b = [0, 4, 31, 32, p.offsets_pos, p.chunks_pos]
                for ch in p.chunks:
                    b += [ch.pos, ch.pos + 16, ch.pos + ch.ct, ch.end]
                if p.meta:
                    b += [p.meta.payload_pos, p.meta.payload_pos + p.meta.comp_size,
                          p.meta.digest_pos]
                at = b[int(d['frac'] * len(b))] + d['edge']
                cx.probe('cut-boundary')
            else:
                at = int(d['frac'] * p.end)
            at = max(0, min(at, p.end - 1))
            del blob[at:]
            body_only = False
        elif reg in ('meta', 'metadigest'):
            m = p.meta
            if m is None or not m.checksum:
                raise Skip()
            if m.comp_size > 65536 and reg == 'meta':
                cx.probe('big-meta')
            lo, hi = (m.payload_pos, m.payload_pos + m.comp_size) if reg == 'meta' else \
                (m.digest_pos, m.end)
            if not apply_damage(blob, lo, hi, d, scn['seed'] + j):
                raise Skip()
            body_only = False
        else:
            i = 0 if d['which'] == 'first' else p.nchunks - 1 if d['which'] == 'last' else \
                scn['seed'] % p.nchunks
            if i == p.nchunks - 1:
                cx.probe('last-chunk')
            if i == 0:
                cx.probe('first-chunk')
            ch = p.chunks[i]
            lo, hi = {'head': (ch.pos, ch.pos + 16), 'body': (ch.pos + 16, ch.pos + ch.ct),
                      'digest': (ch.pos + ch.ct, ch.end)}[reg]
            if not apply_damage(blob, lo, hi, d, scn['seed'] + j):
                raise Skip()
            if reg == 'head':
                body_only = False
    blob = bytes(blob)
    if blob == good:
        raise Skip()
    try:
        same = ref.decode(blob) is not None
    except ref.FormatError:
        same = False
    if same:
        raise Skip()                # checksum collision: nothing can be demanded
    fs.put(arc, blob)
    readers = list(scn['read'])
    if isnd:
        readers += ['nfile', 'nbytes', 'nfp']
    elif reg in ('meta', 'metadigest'):
        readers.append('info')
    if reg not in ('meta', 'metadigest') or not p.meta:
        readers.append('mem')
    for s in readers:
        w2 = cx.world(fs, scn['knobs2'])
        if fs.exists(R + '/out'):
            fs.remove(R + '/out')
        sink = io.BytesIO()
        tag = 'damage %s %s, read via %s' % (reg, scn['damage'], s)
        if s == 'info':
            cx.probe('info')
            u = attempt(w2, lambda: ops.cli(['info', arc]))
            delivered = b''
        elif s.startswith('n'):
            u = attempt(w2, lambda: ops.nunpack(s, arc))
            delivered = b''
            if u.ok:
                delivered = u.value.tobytes()
        elif s == 'mem':
            # into an in-memory chunk list
            cx.probe('mem')
            u, delivered = mem(w2, blob)
        elif s == 'fp_bio':
            def do():
                from bloscpack.abstract_io import unpack as core
                from bloscpack.file_io import CompressedFPSource, PlainFPSink
                core(CompressedFPSource(io.BytesIO(blob)), PlainFPSink(sink))
            u = attempt(w2, do)
            delivered = sink.getvalue()
        else:
            u = attempt(w2, lambda: ops.unpack(s, arc, R + '/out'))
            if s == 'cli':
                cx.probe('cli')
            delivered = fs.get(R + '/out') if fs.exists(R + '/out') else b''
            if u.ok and u.value and u.value[0] is not None:
                delivered = u.value[0]
        cx.no_abort(u, tag)
        cx.check(not u.ok, 'undetected', lambda: '%s: succeeded with %s' % (tag, brief(delivered)))
        cx.check(data.startswith(bytes(delivered)), 'wrong-delivered', lambda: '%s: delivered %s which '
                 'is not a prefix of the true data' % (tag, brief(delivered)))
        if body_only and reg in ('body', 'digest'):
            if s == 'cli':
                cx.check(isinstance(u.exc, SystemExit) and u.code != 0 and 'error:' in u.out and
                         'hecksum' in u.out, 'report', lambda: '%s: reported as %s %r' %
                         (tag, u.describe(), u.out[-200:]))
            else:
                cx.check(type(u.exc).__name__ == 'ChecksumMismatch', 'report',
                         lambda: '%s: reported as %s' % (tag, u.describe()))
        cx.evals += 1
        cx.fault('damage-' + reg)
        cx.fp(reg, tuple((d['how'], d['edge'], d['which']) for d in scn['damage']), s,
              p.checksum, u.kind(), min(p.nchunks, 3))


def mem(w, blob):
    from bloscpack.memory_io import PlainMemorySink
    out = []

    def do():
        from bloscpack.abstract_io import unpack as core
        from bloscpack.file_io import CompressedFPSource
        sink = PlainMemorySink()
        out.append(sink)
        core(CompressedFPSource(io.BytesIO(blob)), sink)
    u = attempt(w, do)
    return u, b''.join(out[0].chunks) if out else b''
