"""C07: interrupted compression never passes for a finished archive."""
from .common import *
from ..simfs import CrashImages, base_of
import random

ID = 'C07'
COUNTS = {'quick': 1700, 'thorough': 60000}
RULE = ('one run = one compression recorded write by write; its file is cut at every raw write and '
        '512-byte sector tear (sampled above 90 points; always including the first and last ten) '
        'and, for checksummed archives, after power losses dropping random unsynced sectors; each '
        'image is read back; fingerprint = (surface, configuration, cut class, how the image reads)')
PROBES = ('img-missing', 'img-empty', 'img-rejected', 'img-complete', 'img-prior', 'power-loss',
          'power-accepted', 'offsets-present', 'numpy', 'cli', 'overwrite', 'killed-by-exception')
EXTRA = {'crash_model': 'process death at any raw write or sector boundary inside one; power loss: '
                        'each sector written since the last fsync keeps the state after a random '
                        'prefix of its writes, file lengths survive'}


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=rng.random() < .75), 'level': 'NORMAL', 'knobs': gen.knobs(rng),
           'surface': rng.choice(ops.PACK_TO_FILE + ['nfile', 'nfp']), 'prior': rng.random() < .3,
           'faults': [fault_spec(rng, ['kbint', 'memerr', 'codec_fail', 'enospc', 'enospc_partial',
                                       'eio_write', 'eio_read', 'eclose'])
                      for _ in range(rng.choice([0, 1, 2]))],
           'seed': rng.randrange(1 << 30), 'read': rng.choice(['bytes_file', 'file', 'fp', 'fp_bio'])}
    c = scn['cfg']
    if c['data']['n'] > 300000:
        c['data']['n'] = 300000
    if scn['surface'] == 'cli':
        c['margs'] = None
        if c['bp']:
            c['bp']['max_app'] = None
        if c['meta'] and c['meta'][0] is None:
            c['meta'] = None
    if rng.random() < .35:              # fully checksummed: power loss applies
        c['bp'] = gen.bloscpack_args(rng, 0, need_checksum=True)
        if scn['surface'] == 'cli':
            c['bp']['max_app'] = None
        elif c['meta'] or scn['surface'].startswith('n'):
            c['margs'] = gen.meta_args(rng, 0, need_checksum=True)
    scn['knobs'] = gen.tame(scn['knobs'], c['data']['n'])
    return scn


def run(scn, cx):
    c = scn['cfg']
    rng = random.Random(scn['seed'])
    set_level(scn['level'])
    data = gen.realise(c['data'])
    arc = R + '/a.blp'
    w = cx.world(None, scn['knobs'])
    fs = w.fs
    fs.put(R + '/in.dat', data)
    isnd = scn['surface'].startswith('n')
    prior = None
    if scn['prior']:
        # an older, valid archive is overwritten
        prior = ref_archive({'chunk': 64, 'bp': None}, b'older content ' * 30)
        fs.put(arc, prior)
        cx.probe('overwrite')
    if scn['surface'] == 'cli':
        cx.probe('cli')
        if has_meta(c):
            fs.put(arc + '.meta.json', json.dumps(meta_val(c)).encode())
    base = base_of(fs)
    start = fs.clone()
    fs.log = []
    if isnd:
        import numpy as np
        cx.probe('numpy')
        arr = np.frombuffer(data, 'u1')

    def do():
        if isnd:
            return ops.npack(scn['surface'], c, arr, arc)
        return ops.pack(scn['surface'], c, data, arc, R + '/in.dat')
    o = attempt(w, do)
    log, fs.log = fs.log, None
    cx.must(o, 'compression')
    log = [r for r in log if not (r[0] == 'write' and r[1] == fs.paths.get(arc + '.meta.json',
                                                                          fs.paths[arc]).num
                                  and arc + '.meta.json' in fs.paths and scn['surface'] == 'cli'
                                  and r[1] != fs.paths[arc].num)]
    final = fs.get(arc)
    p = ref.parse(final)
    md = ref.meta_value(p.meta) if p.meta else None
    ci = CrashImages(base, log)
    pts = list(ci.points())
    if len(pts) > 90:
        mid = pts[10:-30]
        pts = pts[:10] + sorted(rng.sample(mid, 50)) + pts[-30:]
    plans = [(i, t, None) for i, t in pts]
    # the 32 byte header is one write and lies in one sector: power loss never tears
    # it, so only runs whose raw writes are not split are used here
    if eff_checksum(c['bp']) != 'None' and (p.meta is None or p.meta.checksum) \
            and scn['knobs']['gran'] == 'full':
        allp = list(ci.points())
        late = allp[-12:]
        for _ in range(25 if len(pts) > 12 else 8):
            i, t = rng.choice(late if rng.random() < .6 else allp)
            plans.append((i, t, rng.choice([.03, .1, .3, .6, .9, 1.0])))
    for i, t, loss in plans:
        if loss is None:
            img = ci.image(i, t).get(arc)
            kind = 'crash'
        else:
            imgs, lost = ci.power_loss(i, t, rng, loss)
            img = imgs.get(arc)
            kind = 'power-loss'
            cx.probe('power-loss')
        cx.fault(kind)
        if img is None:
            cx.probe('img-missing')
            continue
        if prior is not None and img == prior:
            cx.probe('img-prior')
            continue
        tag = '%s, %s at write %d+%d of %d (%d of %d bytes)' % (scn['surface'], kind, i, t, len(log),
                                                              len(img), len(final))
        verdict = read(cx, scn, img, data, md, tag, isnd)
        if not img:
            cx.probe('img-empty')
        cx.probe('img-complete' if verdict == 'complete' else 'img-rejected')
        if loss is not None and verdict == 'complete':
            cx.probe('power-accepted')
        if p.has_offsets and loss is None and img[p.chunks_pos:p.end] != final[p.chunks_pos:p.end]:
            n = (min(len(img), p.chunks_pos) - p.offsets_pos) // 8
            if n > 0:
                tab = img[p.offsets_pos:p.offsets_pos + 8 * n]
                cx.probe('offsets-present')
                cx.check(tab == b'\xff' * (8 * n), 'offsets', lambda: tag + ': an offset is filled in '
                         'before all chunks are in the file')
        cx.evals += 1
        cx.fp(scn['surface'], cfg_class(c)[:4], kind, verdict,
              'h' if len(img) < 32 else 'm' if len(img) < p.offsets_pos else 'o'
              if len(img) < p.chunks_pos else 'c' if len(img) < p.end else 'f')
    # compression ended by an exception: what it left behind is an image as well
    for f in scn['faults']:
        fs3 = start.clone()
        _, o3, _, _ = with_faults(cx, fs3, scn['knobs'], do, [f])
        if o3.ok or not fs3.exists(arc):
            continue
        img = fs3.get(arc)
        if img == prior:
            continue
        cx.probe('killed-by-exception')
        v = read(cx, scn, img, data, md, '%s ended by %s' % (scn['surface'], cx.resolved), isnd)
        cx.fp(scn['surface'], cfg_class(c)[:4], f['kind'], v)


def read(cx, scn, img, data, md, tag, isnd):
    w = cx.world(None)
    w.fs.put(R + '/b.blp', img)
    w.step_limit = 60000 + 60 * max(len(img), len(data))
    if isnd:
        u = attempt(w, lambda: ops.nunpack('nfile', R + '/b.blp'))
        if u.ok:
            u.value = (u.value.tobytes(), md)
    else:
        u = ops.unpack_bytes(w, scn['read'], R + '/b.blp', R + '/out')
    cx.no_abort(u, tag)
    if not u.ok:
        return 'rejected'
    out, m = u.value
    cx.check(out == data, 'partial-accepted', lambda: '%s: accepted and decompressed to %s instead '
             'of %s' % (tag, brief(out), brief(data)))
    cx.check(same_json(m, md), 'metadata', lambda: '%s: accepted with metadata %r instead of %r' %
             (tag, m, md))
    return 'complete'
