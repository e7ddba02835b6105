"""C16: the command line keeps its contract."""
import ast
import re

import blosc

from .common import *

ID = 'C16'
COUNTS = {'quick': 7000, 'thorough': 250000}
RULE = ('one run = 1 to 4 blpk commands with random options on a simulated directory in a random '
        'state (missing inputs, existing outputs, odd names, good, damaged and foreign archives, '
        'good and bad metadata files), some struck by I/O faults; exit status, messages, files and '
        'printed values compared with a model of the command; fingerprint = (verb, what was wrong, '
        'options class, outcome)')
PROBES = ('compress', 'decompress', 'append', 'info', 'exit0', 'refused', 'exists', 'force',
          'missing', 'extension', 'no-check-extension', 'default-name', 'metadata-missing',
          'metadata-bad', 'checksum-mismatch', 'version-mismatch', 'damaged', 'usage', 'chunk-size',
          'bad-chunk-size', 'nthreads', 'help', 'verbose', 'debug', 'fault', 'append-metadata',
          'foreign', 'no-space', 'empty')

NAMES = ['data.dat', 'x', 'with space.bin', 'arch.blp', 'two.dots.tar', '\u00fcmlaut.dat', 'q.blp.bak',
         'n.BLP', '-dash.dat']


def scenario(rng, tier):
    if rng.random() < .008:
        # more than a megabyte, and chunks of that size
        d = command(rng)
        while d['verb'] not in ('c', 'compress'):
            d = command(rng)
        d.update(nthreads=None, badopt=None, state='good', out=rng.choice(['default', 'given']),
                 z=rng.choice([None, 'n', 'n', 'n', 'K', 'frac', 'max']), fault=None)
        d['in'] = 'ok'
        d['cfg']['chunk'] = rng.choice([1 << 20, 1500000, 1 << 19, 3 << 19, (1 << 20) + 1, 300000, 65536])
        d['cfg']['data'] = {'kind': rng.choice(['rand', 'seq', 'zeros']), 'seed': d['seed'],
                            'n': rng.choice([1 << 20, (1 << 20) + 1, 1 << 21, 3000000, 1600000])}
        return {'ops': [d], 'knobs': {'gran': 'full', 'buf': 65536, 'io_seed': 0}}
    return {'ops': [command(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))],
            'knobs': gen.knobs(rng, .6)}


def command(rng):
    verb = rng.choice(['c', 'compress', 'd', 'decompress', 'd', 'a', 'append', 'i', 'info', 'c', 'x']
                      if rng.random() < .93 else ['help', 'none', 'version', 'nosuch'])
    d = {'verb': verb, 'name': rng.choice(NAMES), 'cfg': cfg(rng, small=rng.random() < .8, tiny=rng.random() < .3),
         'force': rng.random() < .35, 'lv': rng.choice([None, None, None, '-v', '-d', '--verbose', '--debug']),
         'nthreads': rng.choice([None, None, None, None, 1, 2, 7, 256, 0, 257, -1, 'x']),
         'in': rng.choice(['ok'] * 12 + ['missing', 'missing', 'dir', 'empty']),
         'out': rng.choice(['default', 'given', 'given', 'exists', 'default-exists', 'nodir', 'dangling']),
         'ext': rng.choice([True, True, True, False]), 'nocheck': rng.random() < .4,
         'meta': rng.choice([None, None, None, 'ok', 'ok', 'missing', 'badjson', 'notutf8', 'dir', 'emptyfile',
                             'spaces']),
         'state': rng.choice(['good'] * 8 + ['damaged', 'damaged', 'version', 'version', 'meta-damaged',
                                             'garbage', 'cut', 'foreign', 'zero']),
         'opts': [rng.choice(['short', 'long', 'skip']) for _ in range(6)],
         'z': rng.choice([None, None, 'n', 'K', 'frac', 'max', 'bad', 'zero', 'neg', 'empty', 'huge']),
         'badopt': rng.choice([None] * 14 + ['level', 'checksum', 'codec', 'typesize', 'unknown', 'levelx',
                                             'toomany', 'verbdeb']),
         'seed': rng.randrange(1 << 20), 'size': [rng.choice([-1, 0, 1, 5]), rng.randint(0, 3)],
         'fault': fault_spec(rng) if rng.random() < .08 else None}
    if rng.random() < .5:       # nothing wrong with it
        d.update(nthreads=rng.choice([None, None, 1, 3]), ext=True, badopt=None, state='good',
                 out=rng.choice(['default', 'given'] + ['exists', 'default-exists'] * d['force']),
                 meta=rng.choice([None, None, 'ok', 'spaces']), nocheck=False,
                 z=rng.choice([None, 'n', 'K', 'frac', 'max']))
        d['in'] = 'ok'
        if rng.random() < .15:
            d['fault'] = fault_spec(rng)
    if 'exists' in d['out'] and not d['force'] and rng.random() < .12:
        # the output is there but cannot be examined
        d['fault'] = dict(fault_spec(rng, ['estat']), frac=0, path='OUT', sticky=rng.choice([0, 1, 1, 2, True]))
        d['fault'].pop('edge', None)
    c = d['cfg']
    c['data']['n'] = min(c['data']['n'], 30000)
    c['blosc'] = c['blosc'] or gen.blosc_args(rng, 0)
    if c['bp']:
        c['bp']['max_app'] = rng.choice([None, None, 0, 1, 3, 20])
    return d


DEF = {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz', 'checksum': 'adler32',
       'offsets': True, 'chunk': 1 << 20}


def zopt(d):
    """(argument or None, bytes or None if it must be refused)."""
    n = max(1, d['cfg']['chunk'])
    z = d['z']
    if z is None:
        # keep archives of few chunks, but exercise the default too
        return None, DEF['chunk']
    if z == 'n':
        return str(n), n
    if z == 'K':
        k = max(1, n // 1024)
        return '%dK' % k, k * 1024
    if z == 'frac':
        return ['1.5K', '0.25K', '100B', '0.5M'][d['seed'] % 4], [1536, 256, 100, 1 << 19][d['seed'] % 4]
    if z == 'max':
        return 'max', 2147483631
    if z == 'bad':
        return ['12X', 'abc', 'K', '1.5', '1e3', '10KB', '0x10', ' '][d['seed'] % 8], None
    if z == 'zero':
        return '0', 0
    if z == 'neg':
        return ['-5', '-1K'][d['seed'] % 2], None
    if z == 'empty':
        return '', None
    return ['2147483632', '3G', '9T', '99999999999999999999'][d['seed'] % 4], 'huge'


class Want(object):
    """What a command has to do."""

    def __init__(self):
        self.refuse = None      # reasons: must exit non-zero, leaving the files alone
        self.message = False    # ... with an error: message
        self.fail = None        # must exit non-zero (files other than the output alone)
        self.out = None
        self.check = None       # fn(o) after exit 0
        self.sure = True        # exit 0 expected when not refused

    def no(self, reason, message=False):
        """One more reason to refuse; any of them may be the one reported."""
        self.message = message and (self.refuse is None or self.message)
        self.refuse = reason if self.refuse is None else self.refuse + ', ' + reason


def run(scn, cx):
    from ..simfs import SimFS
    w = cx.world(None, scn['knobs'])
    fs = w.fs
    for i, d in enumerate(scn['ops']):
        one(cx, scn, fs, i, d)


def one(cx, scn, fs, idx, d):
    import bloscpack.log as log
    log.LEVEL = log.NORMAL
    W = Want()
    argv = []
    verb = {'c': 'compress', 'd': 'decompress', 'a': 'append', 'i': 'info', 'x': 'decompress'}.get(
        d['verb'], d['verb'])
    if d['force']:
        argv.append(['-f', '--force'][d['seed'] % 2])
        cx.probe('force')
    if d['lv']:
        argv.append(d['lv'])
        cx.probe('debug' if 'd' in d['lv'] else 'verbose')
    if d['nthreads'] is not None:
        argv += [['-n', '--nthreads'][d['seed'] % 2], str(d['nthreads'])]
        if not isinstance(d['nthreads'], int) or not 1 <= d['nthreads'] <= 256:
            W.no('nthreads')
        else:
            cx.probe('nthreads')
    if d['badopt'] == 'verbdeb':
        argv += ['-v', '-d']
        W.no('usage')
    if verb in ('help', 'none', 'version', 'nosuch'):
        return trivial(cx, scn, fs, verb, argv, W, d)
    cx.probe(verb)
    sub = {'decompress': 'd', 'compress': 'c', 'append': 'a', 'info': 'i'}[verb] \
        if d['verb'] in 'cdaix' else verb
    argv.append(sub)
    {'compress': compress, 'decompress': decompress, 'append': append, 'info': info}[verb](
        cx, fs, d, W, argv)
    if d['badopt'] == 'unknown':
        argv.append('--nosuch')
        W.no('usage')
    elif d['badopt'] == 'toomany':
        argv += ['extra', 'args']
        W.no('usage')
    if W.refuse == 'usage':
        cx.probe('usage')
    tag = 'blpk %s' % ' '.join(argv)
    execute(cx, scn, fs, d, W, argv, tag, verb)


def execute(cx, scn, fs, d, W, argv, tag, verb):
    before = fs.snapshot()
    fn = lambda: ops.cli(argv)
    if d['fault']:
        f = d['fault']
        if f.get('path') == 'OUT':
            f = dict(f, path=W.out or f['path'])
        w, o, o1, fs1 = with_faults(cx, fs, scn['knobs'], fn, [f])
        fired = bool(w.fired)
        if fired:
            cx.probe('fault')
    else:
        w = cx.world(fs, scn['knobs'])
        o = attempt(w, fn)
        fired = False
    cx.no_abort(o, tag)
    cx.evals += 1
    tag += ' [%s]' % o.describe()
    out = o.out
    cx.fp(verb, W.refuse, W.fail, o.kind(), d['out'], d['lv'] or '', fired)
    changed = sorted(k for k in set(before) | set(fs.snapshot())
                     if before.get(k) != fs.snapshot().get(k))
    if not o.ok:
        if isinstance(o.exc, SystemExit):
            cx.check(o.code != 0, 'exit', lambda: tag)
            cx.check('error:' in out or o.code == 2 or fired, 'message',
                     lambda: '%s: no error message: %r' % (tag, out[-300:]))
    stray = [k for k in changed if k != W.out]
    cx.check(not stray, 'other-file', lambda: '%s: changed %s' % (tag, stray))
    if W.refuse:
        cx.check(not o.ok, 'not-refused', lambda: '%s: exit 0 although %s; %s' % (tag, W.refuse, out[-300:]))
        cx.check(not changed, 'refused-changed', lambda: '%s (%s): changed %s' % (tag, W.refuse, changed))
        cx.probe('refused')
        if W.message and not fired:
            cx.check(isinstance(o.exc, SystemExit) and 'error:' in out, 'traceback',
                     lambda: '%s (%s): no error message: %r' % (tag, W.refuse, out[-300:]))
        return
    if W.fail:
        cx.check(not o.ok, 'exit0', lambda: '%s: exit 0 although %s; %s' % (tag, W.fail, out[-300:]))
        cx.probe('refused')
        if W.message and not fired:
            cx.check(isinstance(o.exc, SystemExit) and 'error:' in out, 'traceback',
                     lambda: '%s (%s): no error message: %r' % (tag, W.fail, out[-300:]))
        return
    if o.ok:
        cx.probe('exit0')
        n = d['nthreads']
        if isinstance(n, int) and verb in ('compress', 'decompress', 'append') and n != blosc.ncores:
            calls = getattr(w, 'nthreads_calls', [])
            cx.check(calls and calls[-1] == n, 'nthreads', lambda: '%s: thread counts set: %s' % (tag, calls))
        W.check(o, tag)
    elif not fired and W.sure:
        cx.fail('unexpected-error', '%s: %s' % (tag, out[-400:]))


def trivial(cx, scn, fs, verb, argv, W, d):
    if verb == 'none':
        W.no('usage')
    elif verb == 'nosuch':
        argv.append('frobnicate')
        W.no('usage')
    elif verb == 'version':
        argv.append('--version')
    else:
        sub = ['', 'compress', 'c', 'decompress', 'd', 'append', 'a', 'info', 'i'][d['seed'] % 9]
        argv += ([sub] if sub else []) + [['-h', '--help'][d['seed'] // 9 % 2]]
    cx.probe('help')
    d = dict(d, fault=None)

    def chk(o, tag):
        if verb == 'version':
            import bloscpack.version as v
            cx.check(v.__version__ in o.out, 'version', lambda: tag + ': ' + o.out)
        else:
            cx.check('usage' in o.out, 'help', lambda: tag + ': ' + o.out[:200])
    W.check = chk
    if W.refuse and verb == 'version':
        pass
    execute(cx, scn, fs, d, W, argv, 'blpk ' + ' '.join(argv), verb)


def meta_file(cx, fs, d, W, argv, where='-m'):
    """Add -m; returns the metadata or None."""
    k = d['meta']
    if k is None:
        return None
    p = R + '/meta.json'
    fs_rm(fs, p)
    val = d['cfg']['meta'][0] if d['cfg'].get('meta') else {'a': 1, 'b': [1, 2, 'x']}
    if k in ('ok', 'spaces'):
        raw = json.dumps(val)
        fs.put(p, (raw if k == 'ok' else '\n  %s \n\n' % raw).encode())
    elif k == 'missing':
        pass
    elif k == 'badjson':
        fs.put(p, b'{"a": nonsense')
    elif k == 'notutf8':
        fs.put(p, b'{"a": "\xff\xfe"}')
    elif k == 'emptyfile':
        fs.put(p, b'')
    elif k == 'dir':
        fs.dirs.add(R + '/metadir')
        p = R + '/metadir'
    argv += [['-m', '--metadata'][d['seed'] % 2], p]
    if k in ('missing', 'dir'):
        W.no('metadata file unreadable', True)
        cx.probe('metadata-missing')
    elif k in ('badjson', 'notutf8', 'emptyfile'):
        W.no('metadata not JSON')
        cx.probe('metadata-bad')
    return val


def fs_rm(fs, p):
    if fs.exists(p):
        fs.remove(p)


def blosc_opts(cx, d, W, argv, n=4):
    """Options for the blosc settings; returns the effective ones."""
    b = d['cfg']['blosc']
    e = {k: DEF[k] for k in ('typesize', 'clevel', 'shuffle', 'cname')}
    for (key, s, l), how in zip([('typesize', '-t', '--typesize'), ('clevel', '-l', '--clevel'),
                                 ('shuffle', '-s', '--no-shuffle'), ('cname', '-c', '--codec')], d['opts']):
        if how == 'skip':
            continue
        if key == 'shuffle':
            if not b['shuffle']:
                argv.append(s if how == 'short' else l)
                e['shuffle'] = False
            continue
        e[key] = b[key]
        if how == 'short':
            argv += [s, str(b[key])]
        else:
            argv.append('%s=%s' % (l, b[key]))
    bad = d['badopt']
    if bad == 'level':
        argv += ['-l', ['10', '-1', '99'][d['seed'] % 3]]
        W.no('usage')
    elif bad == 'levelx':
        argv += ['-l', 'high']
        W.no('usage')
    elif bad == 'codec':
        argv += ['-c', 'nosuch']
        W.no('usage')
    elif bad == 'typesize':
        argv += ['-t', 'big']
        W.no('usage')
    return e


def out_path(cx, fs, d, W, default, given):
    """Prepare the output; returns (path to expect, argument or None)."""
    how = d['out']
    out, arg = (default, None) if how.startswith('default') else (given, given)
    fs_rm(fs, out)
    if how == 'nodir':
        out = arg = R + '/nodir/out'
        W.no('output directory missing')
    elif how in ('exists', 'default-exists'):
        fs.put(out, [b'precious', b''][d['seed'] % 2])
        cx.probe('exists')
        if not d['force']:
            W.no('output exists', True)
    if how.startswith('default'):
        cx.probe('default-name')
    W.out = out
    return out, arg


def compress(cx, fs, d, W, argv):
    c = d['cfg']
    data = gen.realise(c['data'])
    if d['in'] == 'empty':
        data = b''
        cx.probe('empty')
    inp = R + '/' + d['name']
    fs_rm(fs, inp)
    e = blosc_opts(cx, d, W, argv)
    e.update(checksum='adler32', offsets=True)
    bp = c['bp'] or {'checksum': 'adler32', 'offsets': True}
    if d['opts'][4] != 'skip':
        e['checksum'] = bp['checksum']
        argv += [['-k', '--checksum'][d['opts'][4] == 'long'], bp['checksum']]
    if d['opts'][5] != 'skip' and not bp['offsets']:
        e['offsets'] = False
        argv.append(['-o', '--no-offsets'][d['opts'][5] == 'long'])
    if d['badopt'] == 'checksum':
        argv += ['-k', 'md6']
        W.no('usage')
    if d['in'] == 'missing':
        W.no('input missing', True)
        cx.probe('missing')
    elif d['in'] == 'dir':
        fs.dirs.add(inp + '.d')
        inp += '.d'
        W.no('input is a directory')
    else:
        fs.put(inp, data)
    z, zb = zopt(d)
    if z is not None:
        if z.startswith('-'):
            argv.append('--chunk-size=' + z)
        else:
            argv += [['-z', '--chunk-size'][d['seed'] % 2], z]
        cx.probe('chunk-size')
        if zb is None or zb == 'huge' or (zb == 0 and data):
            cx.probe('bad-chunk-size')
            if zb is None:
                W.no('bad chunk size', True)
    out, arg = out_path(cx, fs, d, W, inp + '.blp', R + '/out.blp')
    md = meta_file(cx, fs, d, W, argv)
    argv.append(inp)
    if arg:
        argv.append(arg)
    if zb == 'huge' or zb == 0:
        W.sure = False
    if zb == 0 and data and not W.refuse:
        W.fail = 'chunk size 0'
    # nothing can be stored in more chunks than a table of this size
    eff = zb if isinstance(zb, int) else DEF['chunk']

    def chk(o, tag):
        blob = fs.get(out)
        if zb == 'huge':
            try:
                cx.check(ref.decode(blob)[0] == data, 'content', lambda: tag)
            except ref.FormatError as x:
                cx.fail('content', '%s: %s' % (tag, x))
            return
        nch, cs, last = chunking(len(data), eff or 1)
        exp = {'version': 3, 'options': int(e['offsets']) | (2 if md is not None else 0),
               'checksum': ref.CHECKSUMS.index(e['checksum']), 'typesize': e['typesize'],
               'chunk_size': cs, 'last_chunk': last, 'nchunks': nch,
               'max_app': 10 * nch if e['offsets'] else 0}
        bad = ref.conformance(blob, payload=data, expect=exp,
                              **({'metadata': md, 'has_meta': True} if md is not None else {}))
        if not bad:
            head = ref.compress(data[:cs], e['typesize'], e['clevel'], int(e['shuffle']), e['cname'])
            got = ref.parse(blob).chunks[0].comp
            if got[:4] != head[:4] or len(got) != len(head):
                bad.append('first chunk %s (%d bytes), options give %s (%d bytes)' %
                           (got[:4].hex(), len(got), head[:4].hex(), len(head)))
        cx.check(not bad, 'options', lambda: '%s: %s' % (tag, '; '.join(bad)))
    W.check = chk


def make_archive(cx, fs, d, arc):
    """An archive in the state asked for; returns (payload, metadata, problem, message due)."""
    c = d['cfg']
    data = gen.realise(c['data'])
    s = d['state']
    c2 = dict(c)
    if s == 'zero':
        data = b''
        cx.probe('empty')
    if s == 'meta-damaged':
        c2 = dict(c2, meta=c['meta'] or [{'a': 'b' * 20}], margs=None)
    if c2['meta'] and c2['meta'][0] is None:
        c2['meta'] = None
    if s == 'damaged':
        c2['bp'] = dict(c['bp'] or {'offsets': True, 'max_app': None})
        if c2['bp'].get('checksum', 'None') == 'None':
            c2['bp']['checksum'] = 'crc32'
    c2['chunk'] = max(1, c['chunk'] or 1, len(data) // 300)
    blob = bytearray(ref_archive(c2, data))
    q = ref.parse(bytes(blob))
    md = meta_val(c2)
    prob, msg = None, False
    if s == 'damaged':
        ch = q.chunks[d['seed'] % len(q.chunks)]
        body = range(ch.pos + 16, ch.end)
        blob[body[d['seed'] % len(body)]] ^= 1 << d['seed'] % 8
        prob, msg = 'chunk damaged', True
        cx.probe('damaged')
        cx.probe('checksum-mismatch')
        d['_which'] = d['seed'] % len(q.chunks)
    elif s == 'meta-damaged':
        blob[q.meta.payload_pos + d['seed'] % max(1, q.meta.comp_size)] ^= 4
        prob, msg = 'metadata damaged', True
        cx.probe('checksum-mismatch')
    elif s == 'version':
        blob[4] = [1, 2, 4, 255][d['seed'] % 4]
        prob, msg = 'format version', True
        cx.probe('version-mismatch')
    elif s == 'garbage':
        blob = bytearray(gen.realise({'kind': 'rand', 'n': [0, 3, 31, 32, 500][d['seed'] % 5], 'seed': d['seed']}))
        prob = 'not an archive'
    elif s == 'cut':
        blob = blob[:max(0, q.end - 1 - d['seed'] % q.end)]
        prob = 'archive cut short'
    elif s == 'foreign':
        cx.probe('foreign')
        blob += b'trailing bytes'
    fs_rm(fs, arc)
    fs.put(arc, bytes(blob))
    return data, md, prob, msg


def archive_name(cx, d, W, argv):
    ext = d['ext']
    arc = R + '/' + d['name'] + ('.blp' if ext else '')
    if d['name'].endswith('.blp'):
        ext = True
    if d['nocheck']:
        argv.append(['-e', '--no-check-extension'][d['seed'] % 2])
        cx.probe('no-check-extension')
    elif not ext:
        cx.probe('extension')
        W.no('wrong extension', True)
    return arc


def decompress(cx, fs, d, W, argv):
    arc = archive_name(cx, d, W, argv)
    data, md, prob, msg = make_archive(cx, fs, d, arc)
    if d['in'] == 'missing':
        fs_rm(fs, arc)
        W.no('input missing', True)
        cx.probe('missing')
    out, arg = out_path(cx, fs, d, W, arc[:-4], R + '/out.dat')
    if arg is None and d['nocheck']:
        W.no('no output named', True)
        if not d['ext']:
            fs_rm(fs, out)
            W.out = None
    if not W.refuse and prob:
        W.fail, W.message = prob, msg
    argv.append(arc)
    if arg:
        argv.append(arg)

    def chk(o, tag):
        cx.check(fs.get(out) == data, 'content', lambda: '%s: output %s, expected %s' %
                 (tag, brief(fs.get(out)), brief(data)))
        if md:
            cx.check(same_json(printed(o.out), md), 'metadata-printed',
                     lambda: '%s: printed %r' % (tag, o.out[-300:]))
    W.check = chk


def printed(text, header=False):
    """The metadata value printed after 'Metadata:'."""
    lines = [l.split(': ', 1)[1] if ': ' in l else l for l in text.splitlines()]
    if 'Metadata:' not in lines:
        return 'nothing printed'
    i = lines.index('Metadata:') + 1
    for j in range(i + 1, len(lines) + 1):
        try:
            v = ast.literal_eval('\n'.join(lines[i:j]).strip())
        except (SyntaxError, ValueError):
            continue
        if j < len(lines) and lines[j][:1] in ' \'"':
            continue            # continues on the next line
        return v
    return 'not parsable: %r' % lines[i:]


def append(cx, fs, d, W, argv):
    arc = archive_name(cx, d, W, argv)
    data, md, prob, msg = make_archive(cx, fs, d, arc)
    e = blosc_opts(cx, d, W, argv)
    new = R + '/new.dat'
    fs_rm(fs, new)
    q = None
    piece = b''
    if not prob:
        q = ref.parse(fs.get(arc))
        room = q.chunk_size - q.last_chunk
        n = max(0, room + d['size'][0] + d['size'][1] * q.chunk_size)
        n = min(n, 60000)
        piece = gen.realise({'kind': 'mixed', 'n': n, 'seed': d['seed']})
        need = 0 if n <= room else (-(-(n - room) // q.chunk_size) if q.chunk_size else None)
    if d['in'] == 'missing':
        if d['seed'] % 2 and not W.refuse:
            fs_rm(fs, arc)
            fs.put(new, piece)
        W.no('input missing', True)
        cx.probe('missing')
    else:
        fs.put(new, piece)
    nmd = meta_file(cx, fs, d, W, argv)
    W.out = arc
    argv += [arc, new]
    if not W.refuse and prob:
        if prob == 'chunk damaged':
            q = ref.parse(fs.get(arc))
            if q.has_offsets and d['_which'] != len(q.chunks) - 1:
                W.sure = False      # only the last chunk is looked at
                W.check = lambda o, tag: None
                return
            msg = q.has_offsets and nmd is None
        W.no(prob, msg)
    elif not W.refuse:
        if not q.has_offsets:
            W.no('no offsets')
        elif need is None:
            W.sure = False
        elif need > q.max_app:
            W.no('not enough space')
            cx.probe('no-space')
        elif d['state'] == 'foreign':
            W.sure = False
        if nmd is not None and not W.refuse:
            cx.probe('append-metadata')
            if q.meta is None:
                W.no('no metadata section')
            elif same_json(nmd, md) or nmd == md:
                W.no('metadata unchanged')
            else:
                W.sure = False      # may not fit

    def chk(o, tag):
        try:
            p, m = ref.decode(fs.get(arc))
        except ref.FormatError as x:
            cx.fail('content', '%s: %s' % (tag, x))
        cx.check(p == data + piece, 'content', lambda: '%s: archive holds %s, expected %s' %
                 (tag, brief(p), brief(data + piece)))
        cx.check(same_json(m, md if nmd is None else nmd), 'metadata', lambda: '%s: metadata %r' % (tag, m))
        q2 = ref.parse(fs.get(arc))
        if len(q2.chunks) > len(q.chunks):
            ch = q2.chunks[len(q.chunks)]
            plain = ref.chunk_data(ch)
            h = ref.compress(plain, e['typesize'], e['clevel'], int(e['shuffle']), e['cname'])
            cx.check(ch.comp[:4] == h[:4] and len(h) == len(ch.comp), 'options',
                     lambda: '%s: appended chunk %s (%d bytes), options give %s (%d bytes)' %
                     (tag, ch.comp[:4].hex(), len(ch.comp), h[:4].hex(), len(h)))
    W.check = chk


CODECS = ['blosclz', 'lz4', 'snappy', 'zlib', 'zstd']


def info(cx, fs, d, W, argv):
    arc = R + '/' + d['name'] + ('.blp' if d['ext'] else '')
    data, md, prob, msg = make_archive(cx, fs, d, arc)
    argv.append(arc)
    if d['in'] == 'missing':
        fs_rm(fs, arc)
        W.no('input missing', True)
        cx.probe('missing')
        return
    if W.refuse:
        return
    if prob == 'chunk damaged':
        # info does not verify data
        W.sure = False
        prob = None
    elif prob == 'archive cut short':
        blob = fs.get(arc)
        try:
            ref.parse(blob)
        except ref.FormatError:
            pass
        # the first chunk and all before it may be there
        W.sure = False
        W.check = lambda o, tag: None
        return
    elif prob:
        W.no(prob, True)
        return

    def chk(o, tag):
        q = ref.parse(fs.get(arc))
        bad = []
        text = o.out
        i = text.rfind('BloscpackHeader:\n')       # what -d prints comes before
        text = text[max(0, i):]

        def field(name, want, quoted=False):
            m = re.search(r"\b%s: (.*)$" % name, text, re.M)
            got = m.group(1).strip() if m else None
            if isinstance(want, int) and not isinstance(want, bool):
                x = re.search(r'\((-?\d+)B\)', got or '') or re.fullmatch(r'(-?\d+)', got or '')
                ok = bool(x) and int(x.group(1)) == want
            else:
                ok = got is not None and re.sub(r'^b?([\'"])(.*)\1$', r'\2', got) == str(want)
            if not ok:
                bad.append('%s printed as %r, is %r' % (name, got, want))
        field('format_version', 3)
        field('offsets', q.has_offsets)
        field('metadata', q.has_meta)
        field('checksum', ref.CHECKSUMS[q.checksum])
        field('typesize', q.typesize)
        field('chunk_size', q.chunk_size)
        field('last_chunk', q.last_chunk)
        field('nchunks', q.nchunks)
        field('max_app_chunks', q.max_app)
        if q.offsets:
            m = re.search(r'\[(-?\d[-\d,]*?),?\.\.\.\]', text)
            got = [int(x) for x in m.group(1).split(',')] if m else None
            if got != q.offsets[:q.nchunks][:5]:
                bad.append('offsets printed as %s, are %s' % (got, q.offsets[:q.nchunks][:5]))
        if q.meta is not None:
            v = printed(text)
            if not same_json(v, md):
                bad.append('metadata printed as %r' % (v,))
            field('meta_checksum', ref.CHECKSUMS[q.meta.checksum])
            field('meta_codec', ['None', 'zlib'][q.meta.codec])
            field('meta_level', q.meta.level)
            field('meta_size', q.meta.size)
            field('max_meta_size', q.meta.max_size)
            field('meta_comp_size', q.meta.comp_size)
        h = q.chunks[0].comp
        for name, want in (('version', h[0]), ('versionlz', h[1]), ('flags', h[2]), ('typesize', h[3]),
                           ('nbytes', q.chunks[0].nbytes),
                           ('blocksize', int.from_bytes(h[8:12], 'little')), ('ctbytes', len(h)),
                           ('byte_shuffle', bool(h[2] & 1)), ('pure_memcpy', bool(h[2] & 2)),
                           ('bit_shuffle', bool(h[2] & 4)), ('codec', CODECS[h[2] >> 5])):
            m = re.search(r"'%s'[,:] '?(\w+)" % name, text)
            if m is None or m.group(1) != str(want):
                if name == 'codec' and want in ('blosclz', 'lz4') and m and m.group(1).startswith(want):
                    continue
                bad.append('%s of the first chunk printed as %r, is %r' %
                           (name, m and m.group(1), want))
        cx.check(not bad, 'info', lambda: '%s: %s' % (tag, '; '.join(bad)))
    W.check = chk
