"""C09: success is reported only when the result is complete."""
import io

from .common import *

ID = 'C09'
COUNTS = {'quick': 9000, 'thorough': 250000}
RULE = ('one run = one operation executed once without faults to count the points where each '
        'planned fault can strike, then again with one to three faults at chosen points; a normal '
        'return must leave the complete correct result; compression and decompression are then '
        'repeated without faults; fingerprint = (operation, fault kinds, position class, outcome)')
FK = FAULTS + ['shrink', 'grow', 'kbint_step']
PROBES = tuple('f:' + k for k in FK) + ('returned-ok-after-fault', 'raised', 'retried',
                                        'short-input-append', 'cli-failed')

OPS = ['pack:file', 'pack:bytes_file', 'pack:fp', 'pack:cli', 'pack:bytes', 'unpack:file',
       'unpack:bytes_file', 'unpack:fp', 'unpack:cli', 'unpack:bytes', 'append:file', 'append:fp',
       'append:cli', 'append:cli-m', 'rewrite', 'info', 'npack:nfile', 'npack:nbytes', 'npack:nfp',
       'nunpack:nfile', 'nunpack:nbytes', 'nunpack:nfp', 'mem']


def scenario(rng, tier):
    scn = {'cfg': cfg(rng, small=rng.random() < .7), 'op': rng.choice(OPS), 'level': level(rng),
           'knobs': gen.knobs(rng)}
    c = scn['cfg']
    c['data']['n'] = min(c['data']['n'], 120000)
    scn['knobs'] = gen.tame(scn['knobs'], c['data']['n'])
    if 'cli' in scn['op']:
        c['margs'] = None
        if c['bp']:
            c['bp']['max_app'] = None
        if c['meta'] and c['meta'][0] is None:
            c['meta'] = None
    if scn['op'].startswith(('append', 'rewrite')):
        if c['bp']:
            c['bp']['offsets'] = True
        c['data']['n'] = max(1, c['data']['n'])
    if scn['op'] in ('rewrite', 'append:cli-m'):
        c['meta'] = [{'a': 'some value', 'b': list(range(10))}]
        if scn['op'] == 'rewrite':
            c['margs'] = gen.meta_args(rng)
    scn['size'] = ['fill', rng.choice([-1, 0, 1, 5]), rng.randint(0, 3)]
    scn['prior'] = rng.random() < .3
    n = rng.choice([1, 1, 1, 1, 2, 3])
    scn['faults'] = [fault_spec(rng, FK) for _ in range(n)]
    if rng.random() < .06:
        scn['op'] = rng.choice(['append:fp', 'append:fp', 'append:file', 'pack:file', 'unpack:file'])
        scn['faults'] = [fault_spec(rng, ['shrink', 'grow'])]
        scn['size'][1] = rng.choice([-1, 0, 5])
        if c['bp']:
            c['bp']['offsets'] = True
        c['data']['n'] = max(1, c['data']['n'])
    return scn


def run(scn, cx):
    c, op = scn['cfg'], scn['op']
    set_level(scn['level'])
    data = gen.realise(c['data'])
    kind, _, surf = op.partition(':')
    arc, out, inp, new = R + '/a.blp', R + '/out.dat', R + '/in.dat', R + '/new.dat'
    st = {'ret': None}
    w = cx.world(None)
    fs = w.fs
    fs.put(inp, data)
    arr = None
    if kind in ('npack', 'nunpack'):
        import numpy as np
        k = max(1, min(8, len(data)))
        arr = np.frombuffer(data[:len(data) // k * k], 'V%d' % k if k not in (1, 2, 4, 8) else 'u%d' % k)
        if c['chunk'] and isinstance(c['chunk'], int):
            c = dict(c, chunk=max(k, c['chunk'] // k * k))
    if kind not in ('pack', 'npack', 'mem'):
        if arr is not None:
            cx.must(attempt(w, lambda: ops.npack('nfile', c, arr, arc)), 'packing')
        else:
            cx.must(attempt(w, lambda: ops.pack('bytes_file', c, data, arc, inp)), 'packing')
    if kind == 'append':
        p = ref.parse(fs.get(arc))
        n = max(0, p.chunk_size - p.last_chunk + scn['size'][1] + scn['size'][2] * p.chunk_size)
        n = min(n, p.chunk_size - p.last_chunk + p.max_app * p.chunk_size)
        fs.put(new, gen.realise({'kind': 'mixed', 'n': n, 'seed': 5}))
    newmd = {'z': 'replaced'}
    mp = R + '/m.json'
    if op == 'append:cli-m':
        fs.put(mp, json.dumps(newmd).encode())
    if kind == 'pack' and surf == 'cli' and has_meta(c):
        fs.put(mp, json.dumps(meta_val(c)).encode())
    if scn['prior'] and kind in ('pack', 'npack'):
        fs.put(arc, b'something else' * 50)
    if scn['prior'] and kind == 'unpack':
        fs.put(out, b'something else' * 50)

    def do():
        if kind == 'pack':
            if surf == 'cli':
                return ops.cli(['-f', 'c'] + ops.cli_argv(c, mp if has_meta(c) else None) + [inp, arc])
            return ops.pack(surf, c, data, arc, inp)
        if kind == 'unpack':
            return ops.unpack(surf, arc, out)
        if kind == 'append':
            if surf == 'cli-m':
                return ops.cli(['append', '-m', mp, arc, new])
            return ops.append(surf, arc, new)
        if kind == 'rewrite':
            return ops.rewrite_meta(arc, newmd)
        if kind == 'info':
            return ops.cli(['info', arc])
        if kind == 'npack':
            return ops.npack(surf, c, arr, arc)
        if kind == 'nunpack':
            return ops.nunpack(surf, arc)
        if kind == 'mem':
            return ops.mem_roundtrip(c, data)
    before = fs.snapshot()
    # only data inputs shrink; nobody else truncates an archive being updated
    target = {'pack': inp, 'unpack': arc, 'nunpack': arc, 'append': new}.get(kind)
    specs = [dict(f, path=target) if f['kind'] in ('shrink', 'grow') else f for f in scn['faults']
             if f['kind'] not in ('shrink', 'grow') or target]
    steps = [f for f in specs if f['kind'] == 'kbint_step']
    specs = [f for f in specs if f['kind'] != 'kbint_step']
    w, o, o1, fs1 = with_faults(cx, fs, scn['knobs'], lambda: stepped(cx, do, steps), specs)
    if not o1.ok and not steps:
        cx.must(o1, 'the fault-free run of ' + op)
    fired = [f[0] for f in w.fired] + (['kbint_step'] if getattr(w, 'kb_fired', 0) else [])
    for f in fired:
        cx.probe('f:' + f)
    if getattr(w, 'kb_fired', 0):
        cx.fault('kbint_step')
    cx.no_abort(o, op)
    tag = '%s with %s' % (op, cx.resolved['faults'])
    if not fired:
        if not steps:
            cx.must(o, tag + ' (no fault fired)')
    if o.ok:
        if fired:
            cx.probe('returned-ok-after-fault')
        verify(cx, scn, c, op, kind, surf, w, o, o1, fs, before, data, arr, arc, out, inp, new, newmd, tag)
    else:
        cx.probe('raised')
        if 'cli' in op or op == 'info':
            cx.probe('cli-failed')
    pos = tuple((f['kind'], f.get('edge')) for f in scn['faults'])
    if kind in ('pack', 'unpack', 'npack', 'nunpack') and not o.ok:
        # once the faults stop, repeating the operation succeeds
        cx.probe('retried')
        for f in (inp, arc) if kind in ('unpack', 'nunpack') else (inp,):
            fs.put(f, before[f]) if 'shrink' in fired or 'grow' in fired else None
        w3 = cx.world(fs, scn['knobs'])
        o3 = attempt(w3, do)
        cx.must(o3, tag + ', then repeated without faults')
        verify(cx, scn, c, op, kind, surf, w3, o3, o1, fs, before, data, arr, arc, out, inp, new, newmd,
               tag + ', then repeated')
    cx.evals += 1
    cx.fp(op, pos, tuple(fired), o.kind(), scn['knobs']['gran'], int(scn['faults'][0]['frac'] * 5))


def stepped(cx, do, steps):
    """Optionally interrupt at a loop step: the world's step hook raises."""
    if not steps:
        return do()
    w = World.cur
    base = w.steps
    f = steps[0]
    at = int(f['frac'] * 60) if f.get('edge') is None else abs(f['edge'])
    real = type(w).step

    def step():
        if w.steps - base == at and not getattr(w, 'kb_fired', 0):
            w.kb_fired = 1
            raise KeyboardInterrupt('simulated, at a loop step')
        real(w)
    w.step = step
    try:
        return do()
    finally:
        w.step = lambda: real(w)


def grown(blob, want, now):
    """What an input held at some time between start and end of the operation."""
    if len(now) > len(want) and now.startswith(want):
        try:
            pay = ref.decode(blob)[0]
        except ref.FormatError:
            return want
        if len(pay) > len(want) and now.startswith(pay):
            return pay
    return want


def verify(cx, scn, c, op, kind, surf, w, o, o1, fs, before, data, arr, arc, out, inp, new, newmd, tag):
    if kind in ('pack', 'npack'):
        blob = o.value if surf in ('bytes', 'nbytes') else fs.get(arc)
        want = data if kind == 'pack' else arr.tobytes()
        if kind == 'pack':
            want = grown(blob, want, fs.get(inp) if inp in fs.paths else b"")
        bad = ref.conformance(blob, payload=want, metadata=meta_val(c),
                              has_meta=has_meta(c) if kind == 'pack' else None)
        cx.check(not bad, 'incomplete', lambda: '%s returned normally but: %s' % (tag, '; '.join(bad)))
    elif kind == 'unpack':
        val = o.value if o.value is not None else (None, ops.CLI_META)
        got = val[0] if val[0] is not None else fs.get(out)
        cx.check(got == data, 'incomplete', lambda: '%s returned normally with %s instead of %s' %
                 (tag, brief(got), brief(data)))
        if val[1] is not ops.CLI_META:
            cx.check(same_json(val[1], meta_val(c)), 'incomplete', tag + ': wrong metadata')
    elif kind == 'nunpack':
        cx.check(o.value.tobytes() == arr.tobytes() and o.value.dtype == arr.dtype, 'incomplete',
                 tag + ' returned a wrong array')
    elif kind == 'append':
        got = fs.get(arc)
        full = before[new]
        avail = fs.get(new)
        want = grown(got, data + full, data + avail)
        q = ref.parse(before[arc])
        if surf == 'fp' and len(avail) < len(full) <= q.chunk_size - q.last_chunk:
            # the caller's stream ended early within the last chunk, which is not an error;
            # what it had must be there, consistently
            cx.probe('short-input-append')
            try:
                pay = ref.decode(got)[0]
            except ref.FormatError:
                pay = b''
            if pay[:len(data)] == data and full.startswith(pay[len(data):]) and \
                    len(pay) >= len(data) + len(avail):
                want = pay
        bad = ref.conformance(got, payload=want, allow_trailing=True)
        cx.check(not bad, 'incomplete', lambda: '%s returned normally but: %s' % (tag, '; '.join(bad)))
        md = ref.decode(got)[1]
        wmd = newmd if surf == 'cli-m' else meta_val(c)
        cx.check(same_json(md, wmd), 'incomplete', tag + ' returned normally but metadata is %r' % (md,))
    elif kind == 'rewrite':
        got = fs.get(arc)
        bad = ref.conformance(got, payload=data, metadata=newmd, has_meta=True)
        cx.check(not bad, 'incomplete', lambda: '%s returned normally but: %s' % (tag, '; '.join(bad)))
    elif kind == 'info':
        cx.check(o.out == o1.out or not o1.ok, 'incomplete', tag + ' exited 0 with other output')
    elif kind == 'mem':
        cx.check(o.value[0] == data, 'incomplete', tag + ' returned wrong data')
