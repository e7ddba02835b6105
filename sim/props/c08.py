"""C08: an interrupted append loses nothing stored before it."""
from .common import *
from ..simfs import CrashImages, base_of
import random

ID = 'C08'
COUNTS = {'quick': 4000, 'thorough': 60000}
RULE = ('one run = one checksummed archive (possibly appended to before), one append recorded write '
        'by write, cut at every raw write and sector tear (sampled above 80 points, first and last '
        'ten always) or ended by an injected error; each image is read back, inspected in place, and appended to again; '
        'fingerprint = (archive class, append class, cut class, how the image reads, outcome of '
        'the later append)')
PROBES = ('img-old', 'img-mid', 'img-new', 'img-rejected', 'later-ok', 'later-refused', 'fits-last',
          'new-chunks', 'had-appends', 'later-after-reject', 'ended-by-exception')
EXTRA = {'crash_model': 'process death at any raw write or at any 512-byte sector boundary inside '
                        'one; sector 0 (the header) is written atomically'}


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=rng.random() < .85, offsets=True, need_checksum=True),
           'knobs': gen.knobs(rng), 'seed': rng.randrange(1 << 30), 'surface':
           rng.choice(['file', 'fp', 'cli'])}
    c = scn['cfg']
    if c['bp'] and rng.random() < .7 and c['bp']['max_app'] in (0, 1):
        c['bp']['max_app'] = 5
    c['data']['n'] = max(1, min(c['data']['n'], 60000))
    scn['before'] = [['rand', rng.random()] for _ in range(rng.choice([0, 0, 1, 2]))]
    scn['size'] = rng.choice([['fill', rng.choice([-1, 0, 1]), rng.randint(0, 3)],
                              ['rand', rng.random()], ['rand', rng.random()], ['abs', rng.randint(1, 2000)]])
    scn['later'] = rng.choice([['fill', rng.choice([-1, 0, 1]), rng.randint(0, 2)], ['abs', rng.randint(1, 500)],
                               ['abs', 0], ['rand', rng.random()]])
    scn['bargs'] = rng.choice([None, gen.blosc_args(rng, 0)])
    scn['read'] = rng.choice(['bytes_file', 'file', 'fp', 'fp_bio'])
    scn['faults'] = [fault_spec(rng, ['kbint', 'kbint', 'memerr', 'codec_fail', 'enospc', 'enospc_partial',
                                      'eio_write', 'eio_seek', 'eio_read', 'eclose'])
                     for _ in range(rng.choice([0, 1, 2, 3]))]
    return scn


def amount(size, p):
    fill = p.chunk_size - p.last_chunk
    if size[0] == 'abs':
        return size[1]
    if size[0] == 'fill':
        return max(0, fill + size[1] + size[2] * p.chunk_size)
    return int(size[1] * (fill + min(p.max_app, 6) * p.chunk_size))


def run(scn, cx):
    c = scn['cfg']
    rng = random.Random(scn['seed'])
    data = gen.realise(c['data'])
    arc = R + '/a.blp'
    w = pack_clean(cx, c, data, arc)
    fs = w.fs
    for i, s in enumerate(scn['before']):
        p = ref.parse(fs.get(arc))
        new = gen.realise({'kind': 'mixed', 'n': min(amount(s, p), 50000), 'seed': i})
        fs.put(R + '/p', new)
        o = attempt(cx.world(fs), lambda: ops.append('file', arc, R + '/p'))
        if o.ok:
            data += new
            cx.probe('had-appends')
    old = fs.get(arc)
    p = ref.parse(old)
    md = ref.meta_value(p.meta) if p.meta else None
    n = min(amount(scn['size'], p), 60000)
    need = 0 if n <= p.chunk_size - p.last_chunk else -(-(n - p.chunk_size + p.last_chunk) // p.chunk_size)
    if need > p.max_app:
        raise Skip()
    new = gen.realise({'kind': rng.choice(['rand', 'mixed', 'text']), 'n': n, 'seed': scn['seed']})
    fs.put(R + '/new.dat', new)
    w = cx.world(fs, gen.tame(scn['knobs'], n + len(data)))
    base = base_of(fs)
    start = fs.clone()
    fs.log = []
    o = attempt(w, lambda: ops.append(scn['surface'], arc, R + '/new.dat', scn['bargs']))
    log, fs.log = fs.log, None
    cx.must(o, 'append')
    cx.probe('new-chunks' if need else 'fits-last')
    final = fs.get(arc)
    q = ref.parse(final)
    newlast = q.chunks[p.nchunks - 1]
    last = p.chunks[-1]
    ci = CrashImages(base, log)
    pts = list(ci.points())
    # the header is rewritten by one 32 byte write inside one sector: not torn
    pts = [(i, t) for i, t in pts if not (
        i and log[i - 1][0] == 'write' and log[i - 1][2] < 32 and
        log[i - 1][2] + len(log[i - 1][3]) < 32)]
    if len(pts) > 80:
        pts = pts[:10] + sorted(rng.sample(pts[10:-20], 50)) + pts[-20:]
    st = (scn, c, cx, p, last, newlast, old, final, data, new, md, need)
    for i, t in pts:
        cx.fault('crash')
        judge(st, ci.image(i, t)[arc], 'append of %d bytes via %s, cut at write %d+%d of %d' %
              (n, scn['surface'], i, t, len(log)))
    # cut off by an error instead: what is left may have been through error handling
    kn = dict(w.knobs, gran='full')
    for f in scn['faults']:
        fs3 = start.clone()
        fs3.log = []
        _, o3, _, _ = with_faults(cx, fs3, kn, lambda: ops.append(
            scn['surface'], arc, R + '/new.dat', scn['bargs']), [f])
        if o3.ok or any(r[0] == 'write' and r[2] < 32 and r[2] + len(r[3]) < 32 and
                        r[1] == fs3.paths[arc].num for r in fs3.log):
            continue
        fs3.log = None
        cx.probe('ended-by-exception')
        judge(st, fs3.get(arc), 'append of %d bytes via %s, ended by %s (%s)' %
              (n, scn['surface'], cx.resolved, o3.describe()))
        cx.resolved = None


def judge(st, img, tag):
    scn, c, cx, p, last, newlast, old, final, data, new, md, need = st
    arc = R + '/a.blp'
    n = len(new)
    cx.check(img[32:p.offsets_pos] == old[32:p.offsets_pos] and
             img[p.chunks_pos:last.pos] == old[p.chunks_pos:last.pos], 'in-place',
             lambda: tag + ': earlier chunks or the metadata are no longer intact in place')
    w2 = cx.world(None)
    w2.fs.put(arc, img)
    u = ops.unpack_bytes(w2, scn['read'], arc, R + '/out')
    cx.no_abort(u, tag)
    if u.ok:
        out, m = u.value
        ok = out[:len(data)] == data and new.startswith(out[len(data):]) and len(out) >= len(data)
        cx.check(ok, 'wrong-data', lambda: tag + ': decompresses to %s, old data has %d bytes' %
                 (brief(out), len(data)))
        cx.check(same_json(m, md), 'metadata', lambda: tag + ': metadata %r' % (m,))
        v = 'old' if len(out) == len(data) else 'new' if len(out) == len(data) + n else 'mid'
        cx.probe('img-' + v)
        v = 'img-' + v
    else:
        v = 'rejected'
        cx.probe('img-rejected')
        a = img[last.pos:last.end] == old[last.pos:last.end]
        cx.check(len(img) >= last.end, 'lost', lambda: tag + ': rejected (%s) and cut off at %d, in or '
                 'before the last chunk (%d to %d)' % (u.describe(), len(img), last.pos, last.end))
        b = img[newlast.pos:newlast.end] == final[newlast.pos:newlast.end]
        cx.check(not a and not b, 'rejected', lambda: tag + ': rejected (%s) although the last '
                 'chunk is complete (%s)' % (u.describe(), 'old' if a else 'new'))
    cx.evals += 1
    later(cx, scn, img, p, u, tag, v, c, need)


def later(cx, scn, img, p, u, tag, v, c, need):
    arc = R + '/a.blp'
    try:
        h = ref.parse_header(img)
    except ref.FormatError:
        return
    k = amount(scn['later'], h) if h.chunk_size >= 0 else 10
    more = gen.realise({'kind': 'rand', 'n': min(k, 30000), 'seed': 99})
    w = cx.world(None)
    w.fs.put(arc, img)
    w.fs.put(R + '/more', more)
    o = attempt(w, lambda: ops.append('file', arc, R + '/more'))
    cx.no_abort(o, tag + ', later append')
    now = w.fs.get(arc)
    if not o.ok:
        cx.probe('later-refused')
        cx.check(now == img, 'later-changed', lambda: tag + ': a later append was refused (%s) but '
                 'changed the file' % o.describe())
        r = 'refused'
    else:
        cx.probe('later-ok')
        r = 'ok'
        cx.check(u.ok, 'later-accepted', tag + ': unreadable, yet a later append succeeded')
        want = u.value[0] + more
        # entries past the chunk count may be left over from the interrupted append: harmless
        bad = [b for b in ref.conformance(now, payload=want, allow_trailing=True)
               if b != 'unused offsets are not -1']
        cx.check(not bad, 'later-inconsistent', lambda: tag + ': after a later append of %d bytes: %s'
                 % (len(more), '; '.join(bad)))
        w2 = cx.world(w.fs)
        x = ops.unpack_bytes(w2, 'bytes_file', arc, None)
        out, m = cx.must(x, tag + ': reading after a later append')
        cx.check(out == want, 'later-data', lambda: tag + ': after a later append reads %s instead of '
                 '%s' % (brief(out), brief(want)))
    if not u.ok:
        cx.probe('later-after-reject')
    cx.fp(cfg_class(c)[:3], scn['size'][0], min(need, 3), v, r, scn['surface'], len(scn['before']))
