"""C13: results depend only on the arguments, and arguments are not changed."""
import copy
import decimal
import gc
import io
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import sys
import tempfile
import threading
import types
import warnings
import zlib

from .common import *
from .. import kit

ID = 'C13'
COUNTS = {'quick': 5000, 'thorough': 150000}
RULE = ('one run = a history of 1 to 5 operations (good, bad, struck by faults) and a target '
        'operation sharing argument objects with them, run at a random log level; outcome, value '
        'and files of the target must equal those of the same call in a pristine fork; arguments '
        'and process-wide state are compared around every operation; fingerprint = (kinds before, '
        'target, what was shared, outcome)')
PROBES = ('history-failed', 'history-fault', 'target-failed', 'target-ok', 'shared-blosc',
          'shared-bp', 'shared-margs', 'shared-meta', 'shared-array', 'debug', 'cli-target', 'twice',
          'dict-args', 'callable', 'like', 'tweaked', 'scribbled')


# chunk sizes as text, some of them not acceptable
TEXT = ['1K', '1k', '1.0K', ' 1K', '1K ', '1024B', '1024b', '1024', '0.5K', '.5K', '1.5K', '512B', 'K',
        '1KB', '1M', '1m', '0K', '-1K', '1e3B', '']


def packs(s):
    return s['op'].partition(':')[0] in ('pack', 'npack', 'mem', 'nmem')


def tweak(pool, how):
    """Change the shared objects in place; returns what takes it back."""
    undo = []

    def put(o, k, v):
        old = o[k]
        o[k] = v
        undo.append(lambda: o.__setitem__(k, old))
    for name, o in pool.items():
        if name == 'blosc_args':
            put(o, 'clevel', ((o['clevel'] or 0) + 1) % 10)
            if how % 2:
                put(o, 'typesize', 4 if o['typesize'] != 4 else 8)
            if how % 3:
                put(o, 'cname', 'lz4' if o['cname'] != 'lz4' else 'zlib')
        elif name == 'bloscpack_args':
            put(o, 'checksum', 'crc32' if o['checksum'] != 'crc32' else 'md5')
            if how % 2:
                put(o, 'max_app_chunks', 3 if o['max_app_chunks'] != 3 else 4)
        elif name == 'metadata_args':
            put(o, 'meta_checksum', 'crc32' if o['meta_checksum'] != 'crc32' else 'md5')
            put(o, 'meta_level', 1 if o['meta_level'] != 1 else 9)
        elif name in ('metadata', 'newmd') and isinstance(o, dict):
            o['tweaked'] = how
            undo.append(lambda o=o: o.pop('tweaked'))
        elif name == 'metadata' and isinstance(o, list):
            o.append(how)
            undo.append(o.pop)
        elif name == 'array' and o.size:
            old = o.copy()
            o[how % o.size:] += 1
            if how % 2:
                o[:] = o[::-1].copy()
            undo.append(lambda o=o, old=old: o.__setitem__(slice(None), old))
    return undo


def scribble(v):
    """Change a result in place, as its new owner may."""
    import numpy as np
    n = 0
    if isinstance(v, tuple):
        return sum(scribble(x) for x in v)
    if isinstance(v, dict):
        n = 1 + sum(scribble(x) for x in list(v.values()))
        v['scribbled'] = n
    elif isinstance(v, list):
        n = 1 + sum(scribble(x) for x in list(v))
        v.append('scribbled')
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.flags.c_contiguous and v.size \
            and v.itemsize:
        v.reshape(-1).view('u1')[:] ^= 0x55
        n = 1
    return n


def scenario(rng, tier):
    scn = {'level': level(rng), 'knobs': gen.knobs(rng, .7),
           'before': [kit.spec(rng, .3) for _ in range(rng.choice([1, 1, 2, 3, 5]))],
           'op': kit.spec(rng, .2), 'share': [s for s in
                                              ('blosc_args', 'bloscpack_args', 'metadata_args',
                                               'metadata', 'array', 'data', 'newmd')
                                              if rng.random() < .5],
           'pool': {'n': rng.choice([0, 1, 8, 100, 1000]), 'seed': rng.randrange(1000)},
           'twice': rng.random() < .3, 'dicts': rng.random() < .25,
           'tweak': rng.random() < .25, 'scribble': rng.random() < .5,
           'unset': [k for k in ('typesize', 'clevel', 'shuffle', 'cname') if rng.random() < .4]}
    if rng.random() < .1 and packs(scn['op']):
        scn['op']['cfg']['chunk'] = rng.choice(TEXT)
        for s in scn['before'][:2]:
            if rng.random() < .7 and packs(s):
                s['cfg']['chunk'] = rng.choice(TEXT)
    for i, s in enumerate(scn['before']):
        if rng.random() < .2:
            s = scn['before'][i] = kit.spec(rng, .2, surfaces=[scn['op']['op']])
        elif rng.random() < .3:
            # nearly the same request as the target
            s = scn['before'][i] = copy.deepcopy(scn['op'])
            for how in rng.sample(['meta', 'data', 'blosc', 'bp', 'margs', 'op', 'chunk'], rng.choice([1, 1, 2])):
                c = s['cfg']
                if how == 'meta' and c['meta'] is not None:
                    c['meta'][0] = gen.near(c['meta'][0], rng)
                elif how == 'data':
                    c['data']['seed'] += 1
                elif how == 'chunk' and isinstance(c['chunk'], int) and s['bad'] is None and packs(s):
                    c['chunk'] = rng.choice([max(1, c['chunk'] - 1), c['chunk'] + 1, c['chunk'] * 2,
                                             '1K', max(1, c['chunk'] // 2)])
                elif how == 'chunk' and packs(s):
                    c['chunk'] = rng.choice(TEXT)
                elif how in ('blosc', 'bp', 'margs'):
                    v = {'blosc': gen.blosc_args, 'bp': gen.bloscpack_args,
                         'margs': gen.meta_args}[how](rng)
                    old = c.get(how)
                    if v is not None and old is not None and 'cli' not in s['op'] and \
                            s['bad'] is None and s['op'].partition(':')[0] in ('pack', 'npack', 'mem'):
                        k = rng.choice(sorted(v))
                        old[k] = v[k]
            if rng.random() < .4 and 'metadata' in scn['share']:
                scn['share'].remove('metadata')
            s['like'] = True
        if rng.random() < .25:
            s['fault'] = fault_spec(rng)
    return scn


def globals_state():
    """Process-wide state an operation could leave changed."""
    import numpy as np
    st = {}
    simple = (int, float, str, bytes, bool, type(None), tuple, frozenset)
    for mn, m in sorted(sys.modules.items()):
        if not mn.startswith('bloscpack') or m is None:
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('_'):
                continue
            if isinstance(v, simple):
                st['%s.%s' % (mn, k)] = repr(v)
            elif isinstance(v, (dict, list, set)):
                st['%s.%s' % (mn, k)] = dump(v, private=False)
            elif isinstance(v, types.FunctionType) and v.__module__ == mn:
                st['%s.%s()' % (mn, k)] = (dump(v.__defaults__), dump(v.__kwdefaults__))
            elif isinstance(v, type) and v.__module__ == mn:
                for a, b in sorted(vars(v).items()):
                    if isinstance(b, types.FunctionType):
                        st['%s.%s.%s()' % (mn, k, a)] = dump(b.__defaults__)
                    elif not a.startswith('_') and isinstance(b, simple + (dict, list, set)):
                        st['%s.%s.%s' % (mn, k, a)] = dump(b)
    st['warnings.filters'] = repr(warnings.filters)
    st['cwd'] = os.getcwd()
    st['environ'] = dict(os.environ)
    st['argv'] = list(sys.argv)
    st['path'] = list(sys.path)
    st['np.geterr'] = np.geterr()
    st['np.printoptions'] = repr(np.get_printoptions())
    st['random'] = hash(random.getstate())
    st['gc'] = (gc.isenabled(), gc.get_threshold())
    st['recursion'] = sys.getrecursionlimit()
    st['native'] = {k: v for k, v in env.native_state.items()}
    st['displayhook'] = (sys.displayhook, sys.excepthook)
    st['maxint'] = sys.get_int_max_str_digits()
    um = os.umask(0o22)
    os.umask(um)
    st['umask'] = um
    st['signals'] = [str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE,
                                                       signal.SIGALRM)]
    st['locale'] = locale.setlocale(locale.LC_ALL)
    st['decimal'] = repr(decimal.getcontext())
    st['switch'] = sys.getswitchinterval()
    st['np.random'] = hash(np.random.get_state()[1].tobytes())
    st['np.bufsize'] = np.getbufsize()
    st['np.errcall'] = repr(np.geterrcall())
    st['hooks'] = (repr(sys.gettrace()), repr(sys.getprofile()), repr(threading.excepthook))
    st['threads'] = sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread))
    st['streams'] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    st['logging'] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)
    st['rlimits'] = [resource.getrlimit(n) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE)]
    st['tempdir'] = tempfile.tempdir
    st['stdlib'] = [id(f) for f in (json.dumps, json.loads, json.JSONEncoder.default, copy.copy, os.stat,
                                    zlib.crc32, zlib.compress, io.BytesIO, print, sys.exit,
                                    np.array, np.empty, np.frombuffer)]
    st['timeout'] = socket.getdefaulttimeout()
    return st


def dump(x, depth=0, private=True):
    """Deep, comparable description of an argument object."""
    import numpy as np
    if depth > 8:
        return '...'
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, str(x.dtype), x.shape, x.strides, x.flags.writeable,
                x.tobytes() if not x.dtype.hasobject else repr(x))
    if isinstance(x, dict):
        return ('dict', [(k, dump(v, depth + 1, private)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [dump(v, depth + 1, private) for v in x])
    if isinstance(x, (bytes, bytearray, str, int, float, bool, type(None))):
        return (type(x).__name__, bytes(x) if isinstance(x, bytearray) else x)
    if callable(x) and not hasattr(x, '_attrs'):
        return 'callable'
    if hasattr(x, '__dict__'):
        return (type(x).__name__, [(k, dump(v, depth + 1, private)) for k, v in sorted(vars(x).items())
                                  if private or not k.startswith('_')])
    return type(x).__name__


ADDR = re.compile(r'0x[0-9a-f]+')


def outcome(o, r, fs):
    val = None
    if o.ok:
        val = r.result(o)
    msg = ADDR.sub('0x', str(o.exc)) if o.exc is not None else ''
    files = [(p, fs.get(p) if fs.exists(p) else None) for p in r.outs]
    msg += '|'.join(l for l in o.out.splitlines() if 'error:' in l)
    return (o.kind(), msg, val if val is None or isinstance(val, (bytes, tuple)) else repr(val), files)


def run(scn, cx):
    import numpy as np
    w = cx.world(None)
    fs = w.fs
    t = scn['op']
    c = t['cfg']
    data = gen.realise({'kind': 'mixed', 'n': scn['pool']['n'], 'seed': scn['pool']['seed']})

    def mkpool():
        kw = ops.args_of(c)
        p = {k: kw[k] for k in ('blosc_args', 'bloscpack_args', 'metadata_args', 'metadata')
             if kw[k] is not None}
        p['array'] = np.frombuffer((data * 8)[:len(data) // 1 * 8], '<f8').copy()
        p['data'] = data
        p['newmd'] = {'z': 'replaced', 'k': [1, {'deep': [2]}]}
        return {k: v for k, v in p.items() if k in scn['share']}
    pool = mkpool()
    # plain dicts instead of argument objects, where the API takes mappings
    if scn['dicts'] and t['op'].startswith(('append:file', 'append:fp')) and c['blosc']:
        pool['blosc_args'] = dict(c['blosc'], **dict.fromkeys(scn.get('unset', ())))
        cx.probe('dict-args')
    set_level('NORMAL')
    r = kit.prepare(cx, fs, t, 'z', pool)
    base_fs = fs.clone()

    def pristine():
        set_level('NORMAL')
        w0 = cx.world(fs, scn['knobs'])
        o = attempt(w0, r.call)
        if o.abort is not None:
            raise Violation('budget', str(o.abort))
        return outcome(o, r, fs)
    want = cx.isolated(pristine)
    kinds = []
    set_level(scn['level'])
    if scn['level'] == 'DEBUG':
        cx.probe('debug')

    def around(q, w, what):
        args = dump(q.args)
        state = globals_state()
        o = attempt(w, q.call)
        w.plan = []
        cx.no_abort(o, what)
        now = dump(q.args)
        if now != args:
            for (k, a), (_, b) in zip(args[1], now[1]):
                if a != b:
                    cx.fail('argument-changed', '%s (%s): argument %s was %s, is now %s' %
                            (what, o.describe(), k, str(a)[:300], str(b)[:300]))
        s2 = globals_state()
        if q.surf in ('cli', 'cli-m') or q.kind == 'info':
            for k in ('bloscpack.log.LEVEL', 'bloscpack.log.PREFIX', 'native'):
                s2[k] = state.get(k)
        if s2 != state:
            ks = [k for k in sorted(set(state) | set(s2)) if state.get(k) != s2.get(k)]
            cx.fail('state-changed', '%s (%s): process-wide state changed: %s' %
                    (what, o.describe(), [(k, str(state.get(k))[:100], str(s2.get(k))[:100])
                                          for k in ks[:4]]))
        return o
    undo = tweak(pool, scn['pool']['seed']) if scn.get('tweak') else []
    if undo:
        cx.probe('tweaked')
    for i, s in enumerate(scn['before']):
        q = kit.prepare(cx, fs, s, 'h%d' % i, pool)
        wi = cx.world(fs, scn['knobs'])
        if s.get('like'):
            cx.probe('like')
        if s.get('fault'):
            wi.plan = [dict(s['fault'], k=int(s['fault']['frac'] * 12), seen=0)]
        o = around(q, wi, 'history %d: %s' % (i, q.tag))
        if wi.fired:
            cx.probe('history-fault')
        if not o.ok:
            cx.probe('history-failed')
        elif scn.get('scribble') and q.kind in ('unpack', 'nunpack') and scribble(o.value):
            cx.probe('scribbled')
        kinds.append((q.kind, o.ok))
    for u in reversed(undo):
        u()
    for again in range(2 if scn['twice'] else 1):
        if again:
            cx.probe('twice')
            for p, i in base_fs.paths.items():
                if p.startswith(R + '/z'):
                    fs.put(p, bytes(i.data))
            for p in r.outs:
                if p not in base_fs.paths and fs.exists(p):
                    fs.remove(p)
        if r.kind == 'info':
            set_level('NORMAL')             # prints its result through the log
        wt = cx.world(fs, scn['knobs'])
        o = around(r, wt, 'target: %s' % r.tag)
        got = outcome(o, r, fs)
        if got != want:
            which = [n for n, a, b in zip(('outcome', 'message', 'value', 'files'), got, want) if a != b]
            cx.fail('history-dependent', '%s after %s%s: %s differ(s) from the same call in a fresh '
                    'process: %s vs %s' % (r.tag, [s['op'] for s in scn['before']],
                                           ' (second time)' if again else '', which,
                                           str(got)[:400], str(want)[:400]))
        cx.evals += 1
        if o.ok and scn.get('scribble') and r.kind in ('unpack', 'nunpack') and scribble(o.value):
            cx.probe('scribbled')
    cx.probe('target-ok' if o.ok else 'target-failed')
    for k, n in (('blosc_args', 'blosc'), ('bloscpack_args', 'bp'), ('metadata_args', 'margs'),
                 ('metadata', 'meta'), ('array', 'array')):
        if k in pool:
            cx.probe('shared-' + n)
    if 'cli' in t['op']:
        cx.probe('cli-target')
    if c['bp'] and isinstance(c['bp'].get('max_app'), list):
        cx.probe('callable')
    cx.fp(tuple(kinds), t['op'], r.bad, tuple(sorted(pool)), o.kind(), scn['level'])
