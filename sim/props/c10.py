"""C10: operations touch only their named output."""
from .common import *
from .. import kit

ID = 'C10'
COUNTS = {'quick': 9000, 'thorough': 250000}
RULE = ('one run = one operation (good, or refused for one of the reasons of the kit, among them '
        'input and output being the same file) among bystander files and links, with or without '
        'injected faults; the whole file system is compared before and after; fingerprint = '
        '(operation, what is wrong with it, faults fired, outcome, bystanders)')
PROBES = ('same', 'same-hard', 'same-sym', 'same-refused', 'faulted', 'failed', 'ok', 'existing-output',
          'input-symlink', 'force-absent')

SAME = ['pack:file', 'pack:pack_file', 'pack:cli', 'unpack:file', 'unpack:unpack_file', 'unpack:cli',
        'append:file', 'append:cli']


def scenario(rng, tier):
    scn = {'level': level(rng), 'knobs': gen.knobs(rng), 'faults': []}
    if rng.random() < .25:
        scn['op'] = kit.spec(rng, 0, surfaces=[s for s in SAME if s != 'unpack:unpack_file'])
        scn['op']['bad'] = rng.choice(['same', 'same-hard', 'same-sym'])
    else:
        scn['op'] = kit.spec(rng, .3)
    if rng.random() < .45:
        scn['faults'] = [fault_spec(rng) for _ in range(rng.choice([1, 1, 2]))]
    scn['insym'] = rng.random() < .1
    scn['relink'] = rng.random() < .2
    return scn


DECOYS = ['%s.tmp', '%s~', '%s.bak', '%s.blp', '%s.part', '.%s.swp', '%s.json', '%s.meta', '%s.lock']


def run(scn, cx):
    set_level(scn['level'])
    w = cx.world(None)
    fs = w.fs
    r = kit.prepare(cx, fs, scn['op'])
    for base in ('ta.blp', 'tout.dat', 'tin.dat', 'tnew.dat'):
        for pat in DECOYS:
            p = R + '/' + pat % base
            if not fs.exists(p) and p not in fs.links:
                fs.put(p, ('decoy ' + pat + base).encode() * 7)
    for base in ('bloscpack.log', 'tmp', 'a'):
        fs.put(R + '/' + base, b'bystander')
    if scn['relink'] and r.ins and fs.exists(r.ins[0]) and r.ins[0] not in fs.links:
        fs.hardlink(r.ins[0], R + '/other-name-of-input')
    if scn['op']['exists']:
        cx.probe('existing-output')
    before = fs.snapshot()
    attrs = fs.attributes()
    links = dict(fs.links)
    dirs = set(fs.dirs)
    w, o, o1, fs1 = with_faults(cx, fs, scn['knobs'], r.call, scn['faults'])
    for f, world, out in ((fs1, None, o1), (fs, w, o)):
        tag = '%s%s' % (r.tag, ' faults %s' % cx.resolved['faults'] if world else '')
        after = f.snapshot()
        allowed = set(f.res(p) for p in r.outs)
        for p in sorted(set(before) | set(after)):
            if p in allowed and not r.expect_refused:
                continue
            a, b = before.get(p), after.get(p)
            if a != b:
                cls = 'same-file' if r.expect_refused else 'other-file'
                cx.fail(cls, '%s (%s): file %s was %s' % (
                    tag, out.describe(), p, 'created' if a is None else 'removed' if b is None else
                    'changed from %s to %s' % (brief(a), brief(b))))
            if a is not None and attrs[p] != f.attributes()[p]:
                cx.fail('attributes', '%s (%s): mode, owner, times or attributes of %s changed from '
                        '%s to %s' % (tag, out.describe(), p, attrs[p], f.attributes()[p]))
        cx.check(f.links == links, 'links', lambda: '%s: links changed: %s' % (tag, f.links))
        cx.check(f.dirs == dirs, 'dirs', lambda: '%s: directories changed: %s' % (tag, f.dirs))
        if r.expect_refused:
            cx.check(not out.ok, 'same-accepted', lambda: '%s: the same file as input and output '
                     'was accepted' % tag)
    cx.no_abort(o, r.tag)
    if r.expect_refused:
        cx.probe(r.bad)
        cx.probe('same-refused')
    if w.fired:
        cx.probe('faulted')
    cx.probe('ok' if o.ok else 'failed')
    # argument "-f" absent: an existing output is not touched either
    if r.kind in ('pack', 'unpack') and r.surf == 'cli' and not r.expect_refused:
        ex = R + '/existing.blp'
        src = R + '/tin.dat' if r.kind == 'pack' else R + '/ta.blp'
        fs.put(ex, b'precious')
        snap = fs.snapshot()
        w2 = cx.world(fs, scn['knobs'])
        o2 = attempt(w2, lambda: ops.cli(['c', src, ex] if r.kind == 'pack' else ['d', '-e', src, ex]))
        cx.check(not o2.ok and fs.snapshot() == snap, 'overwritten', r.tag + ': existing output '
                 'touched without --force')
        cx.probe('force-absent')
    # reading through a symbolic link leaves link and target alone
    if scn['insym'] and r.kind in ('unpack', 'nunpack', 'info') and fs.exists(R + '/ta.blp'):
        cx.probe('input-symlink')
        fs.symlink(R + '/ta.blp', R + '/sym.blp')
        snap = fs.snapshot()
        w2 = cx.world(fs, scn['knobs'])
        sf = {'unpack': 'bytes_file', 'nunpack': 'nfile'}.get(r.kind)
        attempt(w2, lambda: ops.unpack(sf, R + '/sym.blp', None) if r.kind == 'unpack' else
                ops.nunpack(sf, R + '/sym.blp') if r.kind == 'nunpack' else
                ops.info(R + '/sym.blp'))
        cx.check(fs.snapshot() == snap, 'symlink-input', r.tag + ': reading through a link changed files')
    cx.evals += 1
    cx.fp(scn['op']['op'], r.bad, tuple(f[0] for f in w.fired), o.kind(), scn['op']['exists'],
          scn['relink'], bool(has_meta(scn['op']['cfg'])))
