"""C04: a refused append or metadata rewrite changes nothing."""
import zlib

from .common import *

ID = 'C04'
COUNTS = {'quick': 6000, 'thorough': 150000}
RULE = ('one run = one archive, optionally appended to before, and one request of a refusable '
        'kind (unacceptable size, arguments, metadata, archive), through API or command line; '
        'the archive must be byte-identical afterwards if the request was refused; '
        'fingerprint = (request kind, surface, archive class, how it was refused)')

APPEND_BAD = ['nospace', 'nooffsets', 'badargs', 'truncated', 'malformed', 'damaged-last',
              'missing-new', 'missing-orig', 'nonuniform', 'meta-damaged', 'extension',
              'offsets-bad']
CLI_META = ['m-nochange', 'm-toolarge', 'm-nometa', 'm-badjson', 'm-missing', 'm-unreadable',
            'm-nospace', 'm-meta-damaged', 'm-missing-new', 'm-tight']
REWRITE_BAD = ['same', 'toolarge', 'notjson', 'checksum', 'badchecksum', 'badcodec', 'badlevel',
               'badserializer', 'nometa', 'truncated', 'malformed', 'meta-damaged', 'circular', 'tight']
PROBES = tuple(['a:' + k for k in APPEND_BAD] + ['c:' + k for k in CLI_META] +
               ['r:' + k for k in REWRITE_BAD])


def scenario(rng, tier):
    which = rng.choice(['append', 'append', 'cli-meta', 'rewrite', 'rewrite'])
    scn = {'which': which, 'knobs': gen.knobs(rng), 'level': level(rng), 'seed': rng.randrange(1 << 30)}
    if which == 'append':
        k = rng.choice(APPEND_BAD)
    elif which == 'cli-meta':
        k = rng.choice(CLI_META + ['m-tight'])
    else:
        k = rng.choice(REWRITE_BAD)
    scn['what'] = k
    scn['cfg'] = c = cfg(rng, small=True, offsets=k != 'nooffsets',
                         with_meta=None if which == 'append' else
                         k not in ('nometa', 'm-nometa'), dict_meta=which != 'append',
                         need_checksum=k in ('damaged-last',),
                         need_meta_checksum='meta-damaged' in k)
    if c['data']['n'] == 0:
        c['data']['n'] = 1
    if 'meta-damaged' in k:
        c['meta'] = [gen.metadata(rng, True)]
        c['margs'] = gen.meta_args(rng, 0, need_checksum=True)
    if k in ('nometa', 'm-nometa'):
        c['meta'] = c['margs'] = None
    if c['bp'] and k in ('nospace', 'm-nospace') or k in ('nospace', 'm-nospace'):
        c['bp'] = gen.bloscpack_args(rng, 0, offsets=True)
        c['bp']['max_app'] = rng.choice([0, 0, 1, 2, 3])
    if k in ('tight', 'm-tight'):
        # new metadata whose stored size is next to what is allocated
        for _ in range(30):
            words = [noise(rng, rng.randint(1, 6)) for _ in range(rng.choice([2, 4, 8, 16]))]
            scn['new'] = {'w': ' '.join(rng.choice(words) for _ in range(rng.choice([5, 30, 100, 300])))}
            raw = ser(scn['new'])
            lens = [len(zlib.compress(raw, n)) for n in (6, 9, 1)]
            if lens[0] != lens[1]:
                break
        at = rng.choice([lens[0], lens[0], max(lens[:2]), max(lens[:2]), lens[2], len(raw)])
        scn['tight'] = max(16, at - rng.choice([0, 1, 1, 2]))
        c['meta'] = [{'a': 1}]
        c['margs'] = {'meta_checksum': rng.choice(gen.CHECKSUMS), 'meta_codec': rng.choice(['None', 'zlib']),
                      'meta_level': rng.choice([1, 6, 9]), 'max_meta_size': ['const', scn['tight']]}
    scn['before'] = [rng.randint(0, 500) for _ in range(rng.choice([0, 0, 1, 2]))]
    scn['surface'] = rng.choice(['file', 'fp', 'cli', 'fp_bio', 'file'])
    scn['size'] = [rng.choice([0, 1]), rng.choice([0, 1, 1, 2, 3, 5]), rng.random()]
    scn['bad'] = bad_args(rng)
    scn['pos'] = rng.random()
    scn['bit'] = rng.randrange(8)
    scn['big'] = rng.choice([1, 50, 5000, 40000])
    return scn


def bad_args(rng):
    good = gen.blosc_args(rng, 0)
    r = rng.choice(['missing', 'extra', 'typesize0', 'typesize300', 'typesize-neg', 'clevel10',
                    'clevel-neg', 'cname', 'shuffle', 'typestr', 'cnamenone', 'empty'])
    d = dict(good)
    if r == 'missing':
        d.pop(rng.choice(sorted(d)))
    elif r == 'extra':
        d['bogus'] = 1
    elif r == 'empty':
        d = {}
    elif r == 'typesize0':
        d['typesize'] = 0
    elif r == 'typesize300':
        d['typesize'] = 300
    elif r == 'typesize-neg':
        d['typesize'] = -2
    elif r == 'clevel10':
        d['clevel'] = rng.choice([10, 100])
    elif r == 'clevel-neg':
        d['clevel'] = -1
    elif r == 'cname':
        d['cname'] = rng.choice(['', 'nope', 'LZ4', 7])
    elif r == 'cnamenone':
        d['cname'] = ['list']
    elif r == 'shuffle':
        d['shuffle'] = rng.choice([7, 'x', -3])
    elif r == 'typestr':
        d['typesize'] = rng.choice(['8', 4.5])
    return d


def run(scn, cx):
    import random
    c, k = scn['cfg'], scn['what']
    rng = random.Random(scn['seed'])
    set_level(scn['level'])
    arc = R + '/a.blp'
    data = gen.realise(c['data'])
    w = pack_clean(cx, c, data, arc)
    fs = w.fs
    if eff_offsets(c['bp']):
        for i, n in enumerate(scn['before']):
            fs.put(R + '/p', gen.realise({'kind': 'rand', 'n': n, 'seed': i}))
            w1 = cx.world(fs)
            attempt(w1, lambda: ops.append('file', arc, R + '/p'))
    p = ref.parse(fs.get(arc))
    blob = bytearray(fs.get(arc))
    fill = p.chunk_size - p.last_chunk
    surf = scn['surface']
    wnt = scn['which']
    what = {'append': 'a:', 'cli-meta': 'c:', 'rewrite': 'r:'}[wnt] + k
    # damage that makes the archive unreadable
    if k == 'truncated':
        lo = 0 if wnt == 'append' else 0
        hi = p.end if wnt == 'append' else (p.meta.end if p.meta else 32)
        if wnt == 'append' and p.checksum == 0:
            hi = p.end
        cut = int(lo + scn['pos'] * (hi - lo - 1e-9))
        if wnt == 'rewrite' and p.meta is None:
            raise Skip()
        if wnt == 'rewrite':
            del blob[min(cut, p.meta.end - 1):]
        else:
            del blob[min(cut, p.end - 1):]
    elif k == 'malformed':
        r = scn['seed'] % 5
        if r == 0:
            blob[rng.randrange(4)] ^= 1 << scn['bit']
        elif r == 1:
            blob[4] = rng.choice([0, 1, 2, 4, 255])
        elif r == 2:
            blob[5] |= rng.choice([4, 8, 128])
        elif r == 3:
            blob[6] = rng.choice([9, 100, 255])
        else:
            blob[:] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 31, 32, 200])))
    elif k == 'damaged-last':
        last = p.chunks[-1]
        lo, hi = last.pos, last.end
        at = lo + int(scn['pos'] * (hi - lo - 1e-9))
        blob[at] ^= 1 << scn['bit']
    elif 'meta-damaged' in k:
        m = p.meta
        lens = m.comp_size + len(m.digest)
        at = int(scn['pos'] * (lens - 1e-9))
        at = m.payload_pos + at if at < m.comp_size else m.digest_pos + at - m.comp_size
        blob[at] ^= 1 << scn['bit']
    elif k == 'nonuniform':
        pass
    elif k == 'offsets-bad':
        # last used offset is not a chunk position
        at = p.offsets_pos + 8 * (p.nchunks - 1)
        v = rng.choice([b'\xff' * 8, (1 << 62).to_bytes(8, 'little'),
                        (len(blob) + 5).to_bytes(8, 'little')])
        blob[at:at + 8] = v
    fs.put(arc, bytes(blob))
    new_n = max(1, fill + scn['size'][1] * p.chunk_size + int(scn['size'][2] * 10))
    if k in ('nospace', 'm-nospace'):
        new_n = fill + p.max_app * p.chunk_size + 1 + int(scn['size'][2] * p.chunk_size * 3)
    if new_n > 300000:
        raise Skip()
    fs.put(R + '/new.dat', gen.realise({'kind': 'mixed', 'n': new_n, 'seed': scn['seed']}))
    new = R + '/new.dat'
    if k in ('missing-new', 'm-missing-new'):
        new = R + '/nothere.dat'
        if surf in ('fp_bio', 'fp'):
            surf = 'file'
    target = arc
    mp = None
    may_work = False
    if wnt == 'append':
        bargs = None
        if k == 'badargs':
            bargs = ops.RawArgs(scn['bad'])
            if surf == 'cli':
                surf = 'file'
            if 'shuffle' in scn['bad'] or True:
                may_work = True         # some of these blosc itself accepts
        if k == 'missing-orig':
            target = R + '/gone.blp'
            if surf in ('fp_bio',):
                surf = 'file'
        if k == 'extension':
            target = R + '/archive.dat'
            fs.put(target, bytes(blob))
            surf = 'cli'
        if k == 'nonuniform':
            # typesize absent from the arguments and unusable in the header
            may_work = True
            bargs = ops.RawArgs({'typesize': None, 'clevel': 99, 'shuffle': True, 'cname': 'lz4'})
            surf = 'file' if surf == 'cli' else surf

        def do():
            if k == 'extension':
                return ops.cli(['append', target, new])
            return ops.append(surf, target, new, bargs)
    elif wnt == 'cli-meta':
        surf = 'cli'
        mp = R + '/meta.json'
        cur = meta_val(c)
        val = {'fresh': rng.randrange(1 << 30)}
        if k == 'm-nochange':
            val = cur
        elif k == 'm-tight':
            val = scn['new']
        elif k == 'm-toolarge':
            val = {'noise': noise(rng, p.meta.max_size * 2 + 64)}
        txt = json.dumps(val).encode()
        if k == 'm-badjson':
            txt = rng.choice([b'{', b'', b'{"a": }', b'\xff\xfe\x00'])
        if k not in ('m-missing', 'm-unreadable'):
            fs.put(mp, txt)
        elif k == 'm-unreadable':
            mp = R                        # a directory
        if k in ('m-missing-new',):
            pass
        if k == 'm-nospace' and p.meta is not None:
            need = min(len(zlib.compress(ser(val), 6)), len(ser(val)))
            if need > p.meta.max_size:
                pass

        def do():
            return ops.cli(['append', '-m', mp, arc, new])
    else:
        surf = 'api'
        cur = meta_val(c)
        val = {'fresh': rng.randrange(1 << 30)}
        over = {}
        if k == 'tight':
            val = scn['new']
            if rng.random() < .5:
                over = {'level': rng.choice([0, 1, 6, 9]), 'codec': rng.choice(['zlib', 'zlib', 'None'])}
        elif k == 'same':
            val = json.loads(json.dumps(cur))
        elif k == 'toolarge':
            val = {'noise': noise(rng, p.meta.max_size * 2 + 64 + scn['big'])}
        elif k == 'notjson':
            val = rng.choice([{'a': {1, 2}}, {'a': b'x'}, {'a': object}, {(1, 2): 3},
                              {'pad': 'x' * scn['big'], 'z': {1}}])
        elif k == 'circular':
            val = {'a': [1]}
            val['a'].append(val)
        elif k == 'checksum':
            sizes = [s for s in gen.CHECKSUMS if ref.SIZES[ref.CHECKSUMS.index(s)] !=
                     ref.SIZES[p.meta.checksum]]
            over = {'checksum': rng.choice(sizes)}
        elif k == 'badchecksum':
            over = {'checksum': rng.choice(['nope', 'ADLER32', '', 5])}
        elif k == 'badcodec':
            over = {'codec': rng.choice(['nope', 'ZLIB', '', 5])}
        elif k == 'badlevel':
            over = {'level': rng.choice([-1, 10, 100])}
        elif k == 'badserializer':
            over = {'magic_format': rng.choice([b'NOPE', b'', 'nope'])}

        def do():
            return ops.rewrite_meta(arc, val, **over)
    cx.probe(what)
    before = fs.snapshot()
    # an archive the damage left acceptable is not a refusal case
    w = cx.world(fs, scn['knobs'])
    o = attempt(w, do)
    cx.no_abort(o, what)
    after = fs.snapshot()
    if o.ok:
        if k == 'm-nospace':
            pass
        if may_work or k in ('tight', 'm-tight'):
            cx.fp(what, 'worked')
            return
        if k in ('truncated', 'malformed', 'offsets-bad', 'damaged-last', 'm-nospace'):
            cx.check(False, 'accepted', '%s: accepted; archive %s' % (what, cfg_class(c)))
        cx.check(False, 'accepted', '%s via %s was accepted' % (what, surf))
    for f in before:
        if after.get(f) != before[f]:
            a, b = before[f], after.get(f, b'')
            cx.fail('changed', '%s via %s was refused (%s) but %s changed: %s -> %s, first '
                    'difference at %d' % (what, surf, o.describe(), f, brief(a), brief(b),
                                          first_diff(a, b)))
    extra = set(after) - set(before)
    cx.check(not extra, 'created', '%s: created %s' % (what, sorted(extra)))
    cx.fp(what, surf, o.kind(), cfg_class(c), len(scn['before']))


def ser(v):
    return json.dumps(v, separators=(',', ':')).encode()


def noise(rng, n):
    return ''.join(chr(rng.randint(35, 126)) for _ in range(n))
