"""Seeded search over simulated runs; shrinking; replay; evidence."""
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from .world import World, SimAbort, StepBudget, HarnessError
from . import simfs, env
from .ref import FormatError
from .simfs import MissingFile


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls = cls
        self.msg = msg


class Skip(Exception):
    """Scenario not meaningful (shrinker made it invalid, or nothing to test)."""


class Cx(object):
    """Context of one simulated run."""

    def __init__(self):
        self.fps = set()
        self.probes = {}
        self.faults = {}
        self.events = 0
        self.steps = 0
        self.evals = 0
        self.worlds = []
        self.digest = hashlib.blake2b(digest_size=12)
        self.nontrivial = False
        self.resolved = None
        self.patch = None       # makes the scenario explicit (e.g. the list of switches)

    def world(self, fs=None, knobs=None, **kw):
        w = World(fs if fs is not None else simfs.SimFS(), knobs)
        w.step_limit = kw.pop('step_limit', 6000000)
        for k, v in kw.items():
            setattr(w, k, v)
        self.worlds.append(w)
        return w

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def fp(self, *parts):
        """Record a distinct state/behaviour reached."""
        h = hashlib.blake2b(repr(parts).encode('utf-8', 'replace'), digest_size=6)
        self.fps.add(h.hexdigest())
        self.nontrivial = True
        self.digest.update(repr(parts).encode('utf-8', 'replace'))

    def no_abort(self, o, what):
        """A run that exceeded its budget, or broke memory bounds."""
        if o.abort is not None:
            raise Violation('budget' if isinstance(o.abort, StepBudget) else 'memory',
                            '%s: %s' % (what, o.abort))

    def must(self, o, what):
        self.no_abort(o, what)
        if not o.ok:
            raise Violation('unexpected-error', '%s failed without cause: %s; output: %s' %
                            (what, o.describe(), o.out[-300:]))
        return o.value

    def isolated(self, fn, tag=''):
        """Run fn in a forked process; returns its picklable value."""
        import pickle
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                try:
                    res = ('ok', fn())
                except Violation as v:
                    res = ('violation', (v.cls, v.msg))
                except BaseException:
                    res = ('error', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            blob = f.read()
        _, st = os.waitpid(pid, 0)
        if not blob:
            raise Violation('native-crash', 'process died with status %d %s' % (st, tag))
        kind, val = pickle.loads(blob)
        if kind == 'violation':
            raise Violation(*val)
        if kind == 'error':
            raise HarnessError(val)
        return val


def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def seed_of(base, prop, i):
    h = hashlib.blake2b(('%s:%s:%d' % (base, prop, i)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def execute(mod, scn):
    """Run one scenario in this process.  Returns a result dict."""
    cx = Cx()
    res = {'status': 'ok'}
    gc.enable()                     # as in an application, but never at random points
    gc.set_threshold(1 << 30)
    try:
        try:
            mod.run(scn, cx)
        except Skip as e:
            res['status'] = 'skip'
        except Violation as v:
            res.update(status='violation', cls=v.cls, msg=v.msg[:2000])
        except FormatError as e:
            res.update(status='violation', cls='nonconforming',
                       msg='an archive written without an error does not conform to the format: %s' % e)
        except MissingFile as e:
            res.update(status='violation', cls='no-output',
                       msg='an operation reported success but there is no file %s' % e)
        except RecursionError:
            res.update(status='error', msg=traceback.format_exc()[-3000:])
    except BaseException:
        res.update(status='error', msg=traceback.format_exc()[-3000:])
    World.cur = None
    for w in cx.worlds:
        cx.events += w.n
        cx.steps += w.steps
        for k, n, ek, p in w.fired:
            cx.faults[k] = cx.faults.get(k, 0) + 1
        cx.digest.update(w.digest.digest())
    cx.digest.update(repr((res['status'], res.get('cls'), res.get('msg'))).encode(
        'utf-8', 'replace'))
    res.update(fps=sorted(cx.fps), probes=cx.probes, faults=cx.faults,
               events=cx.events, steps=cx.steps, evals=cx.evals or 1,
               nontrivial=cx.nontrivial, digest=cx.digest.hexdigest(),
               resolved=cx.resolved, patch=cx.patch)
    return res


def forked(mod, scn, timeout=200):
    """Execute a scenario in a fresh fork: outcome is a function of scn only."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            limit = getattr(mod, 'CPU_LIMIT', None)
            if limit:
                # steps do not show time spent inside native code
                resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
            res = execute(mod, scn)
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {'status': 'timeout', 'msg': 'run exceeded %d s wall' % timeout}
    if not buf:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1
        cls, msg = 'native-crash', 'the process died with signal %s during the run' % sig
        if sig == signal.SIGXCPU:
            cls, msg = 'time', 'the run took more than %d s of processor time' % mod.CPU_LIMIT
        return {'status': 'violation', 'cls': cls, 'msg': msg,
                'fps': [], 'probes': {}, 'faults': {}, 'events': 0, 'steps': 0,
                'evals': 1, 'nontrivial': True, 'digest': 'crash'}
    return json.loads(b''.join(buf))


def make(mod, prop, base, i, tier):
    rng = random.Random(seed_of(base, prop, i))
    scn = mod.scenario(rng, tier)
    # what is run is exactly what a replay file can hold
    return json.loads(json.dumps(scn, sort_keys=True))


def worker(mod, prop, base, tier, wid, nworkers, count, deadline, wfd):
    def send(msg):
        data = json.dumps(msg).encode()
        data = struct.pack('<I', len(data)) + data
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:])
    i = wid
    while i < count and time.monotonic() < deadline:
        try:
            scn = make(mod, prop, base, i, tier)
        except BaseException:
            send({'i': i, 'status': 'error', 'msg': 'gen: ' + traceback.format_exc()[-2000:]})
            break
        res = forked(mod, scn)
        res['i'] = i
        if i < 6:
            res['scn'] = scn
        if res['status'] == 'violation':
            res['scn'] = scn
        send(res)
        i += nworkers
    os.close(wfd)


def search(prop, tier, base, workers, count=None, cap=None, stop_on_violation=True,
           on_result=None):
    mod = load(prop)
    env.setup()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    count = count or mod.COUNTS[tier]
    cap = cap or getattr(mod, 'CAPS', {}).get(tier, 140 if tier == 'quick' else 780)
    gc.collect()
    gc.freeze()
    t0 = time.monotonic()
    deadline = t0 + cap
    fds = {}
    pids = []
    for wid in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for f in fds:
                    os.close(f)
                worker(mod, prop, base, tier, wid, workers, count, deadline, w)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        fds[r] = bytearray()
        pids.append(pid)
    agg = {'runs': 0, 'evals': 0, 'events': 0, 'steps': 0, 'skips': 0, 'faults': {},
           'probes': {}, 'fps': set(), 'digests': set(), 'nontrivial': 0,
           'violations': [], 'errors': [], 'samples': [], 'fp_growth': []}
    stop = False
    while fds and not stop:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for f in rd:
            b = os.read(f, 1 << 20)
            if not b:
                os.close(f)
                del fds[f]
                continue
            buf = fds[f]
            buf += b
            while len(buf) >= 4:
                n = struct.unpack('<I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                res = json.loads(bytes(buf[4:4 + n]))
                del buf[:4 + n]
                if on_result:
                    on_result(res)
                st = res['status']
                if st in ('error', 'timeout'):
                    agg['errors'].append(res)
                    if len(agg['errors']) > 30:
                        stop = True
                    continue
                agg['runs'] += 1
                agg['evals'] += res['evals']
                agg['events'] += res['events']
                agg['steps'] += res['steps']
                if st == 'skip':
                    agg['skips'] += 1
                if res['nontrivial']:
                    agg['nontrivial'] += 1
                for k in ('faults', 'probes'):
                    for a, c in res[k].items():
                        agg[k][a] = agg[k].get(a, 0) + c
                agg['fps'].update(res['fps'])
                agg['digests'].add(res['digest'])
                if agg['runs'] & (agg['runs'] - 1) == 0:
                    agg['fp_growth'].append([agg['runs'], len(agg['fps'])])
                if 'scn' in res and len(agg['samples']) < 4 and st == 'ok':
                    agg['samples'].append((res['i'], res['scn']))
                if st == 'violation':
                    agg['violations'].append(res)
                    if stop_on_violation:
                        stop = True
    for p in pids:
        if stop:
            try:
                os.kill(p, signal.SIGTERM)
            except OSError:
                pass
    for p in pids:
        os.waitpid(p, 0)
    for f in fds:
        os.close(f)
    agg['wall'] = time.monotonic() - t0
    agg['count'] = count
    return mod, agg


# -- shrinking ------------------------------------------------------------------

def candidates(scn, mod):
    """Simpler variants of a scenario, most drastic first."""
    if hasattr(mod, 'simplify'):
        for c in mod.simplify(scn):
            yield c

    def paths(x, p=()):
        yield p, x
        if isinstance(x, dict):
            for k in sorted(x):
                for y in paths(x[k], p + (k,)):
                    yield y
        elif isinstance(x, list):
            for i, v in enumerate(x):
                for y in paths(v, p + (i,)):
                    yield y

    def with_(p, v):
        c = json.loads(json.dumps(scn))
        t = c
        for k in p[:-1]:
            t = t[k]
        t[p[-1]] = v
        return c

    def without(p):
        c = json.loads(json.dumps(scn))
        t = c
        for k in p[:-1]:
            t = t[k]
        del t[p[-1]]
        return c
    allp = [(p, x) for p, x in paths(scn) if p]
    # drop list elements (operations, faults, switches), larger blocks first
    for p, x in allp:
        if isinstance(x, list) and p[-1] in ('ops', 'faults', 'switches', 'damage',
                                             'threads', 'before', 'images'):
            n = len(x)
            size = n // 2
            while size >= 1:
                for i in range(0, n - size + 1, size):
                    yield with_(p, x[:i] + x[i + size:])
                size //= 2
    for p, x in allp:
        k = p[-1]
        if k == 'knobs' and isinstance(x, dict) and x != {'gran': 'full', 'buf': 8192, 'io_seed': 0}:
            yield with_(p, {'gran': 'full', 'buf': 8192, 'io_seed': 0})
        if k in ('blosc', 'margs', 'bp', 'meta') and x is not None:
            yield with_(p, None)
        if k == 'level' and isinstance(x, str) and x != 'NORMAL':
            yield with_(p, 'NORMAL')
        if k == 'kind' and x in ('text', 'mixed', 'small', 'seq'):
            yield with_(p, 'rand')
        if k in ('n', 'chunk', 'seed', 'max_app', 'extra') and isinstance(x, int) \
                and not isinstance(x, bool):
            for v in (0, 1, x // 2, x - 1):
                if 0 <= v < x:
                    yield with_(p, v)
        if k == 'frac' and isinstance(x, float):
            for v in (0.0, 0.5):
                if v < x:
                    yield with_(p, v)


def shrink(mod, scn, cls, budget_s=60, log=None):
    end = time.monotonic() + budget_s
    best = scn
    tried = 0
    seen = set()
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for c in candidates(best, mod):
            if time.monotonic() > end:
                break
            key = json.dumps(c, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            r = forked(mod, c, timeout=60)
            if r['status'] == 'violation' and r.get('cls') == cls:
                best = c
                improved = True
                break
    return best, tried


def write_replay(prop, mod, scn, res, orig, base, i, tried):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(scn, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'verif_seed': base, 'run_index': i,
                   'run_seed': seed_of(base, prop, i),
                   'class': res['cls'], 'message': res['msg'],
                   'digest': res['digest'], 'resolved': res.get('resolved'),
                   'scenario': scn, 'original_scenario': orig,
                   'shrink_attempts': tried}, f, indent=1, sort_keys=True)
    return path


def replay(path, quiet=False):
    with open(path) as f:
        rec = json.load(f)
    prop = rec['property']
    env.setup()
    mod = load(prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    gc.collect()
    gc.freeze()
    res = forked(mod, rec['scenario'])
    same = res['status'] == 'violation' and res.get('cls') == rec['class']
    exact = same and res['digest'] == rec['digest']
    if not quiet:
        print('replay %s: status=%s class=%s exact=%s' %
              (path, res['status'], res.get('cls'), exact))
        print(res.get('msg', ''))
    if same:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if res['status'] in ('ok', 'skip') else 2


def known_findings(prop):
    """Open findings (not 'fixed:' lines) recorded for this property."""
    out = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    out.append(line)
    except IOError:
        pass
    return out


def evidence(prop, mod, tier, base, agg, workers, nviol):
    wall = max(agg['wall'], 1e-6)
    cov = {
        'evaluations': agg['evals'],
        'distinct_nontrivial': len(agg['fps']),
        'rule': mod.RULE,
        'samples': [json.dumps(s, sort_keys=True)[:1500] for _, s in agg['samples'][:3]]
        or ['(stopped at the first run)'],
        'simulated_runs': agg['runs'],
        'runs_per_hour': int(agg['runs'] * 3600 / wall),
        'seeds': '%s:%s:0..%d' % (base, prop, agg['count'] - 1),
        'seeds_per_hour': int(agg['runs'] * 3600 / wall),
        'logical_events': agg['events'],
        'simulated_time': '%d logical I/O and codec events, %d loop steps; bloscpack '
                          'reads no clock and has no timers, so simulated time is the '
                          'event count' % (agg['events'], agg['steps']),
        'faults_fired': agg['faults'],
        'probes': agg['probes'],
        'distinct_event_logs': len(agg['digests']),
        'state_measure': getattr(mod, 'MEASURE', 'distinct behaviour fingerprints as in rule'),
        'state_growth': agg['fp_growth'],
        'skipped_runs': agg['skips'],
        'workers': workers,
        'real_components': 'all bloscpack modules of /repo, argparse, json, zlib, hashlib, '
                           'numpy, CPython buffered I/O, native C-Blosc (one thread)',
        'stub_components': 'raw files, os.* file calls and descriptors (in-memory file '
                           'system), blosc.set_nthreads (recorded only), process stdout'
                           + getattr(mod, 'STUBS', ''),
    }
    cov.update(getattr(mod, 'EXTRA', {}))
    d = {'property': prop, 'tier': tier, 'seed': int(base), 'level': 'exploration',
         'coverage': cov, 'wall_s': round(wall, 2), 'violations': nviol,
         'assumptions': getattr(mod, 'ASSUMPTIONS', [
             'raw file semantics are those of the in-memory file system in sim/simfs.py',
             'C-Blosc, zlib, hashlib and numpy themselves are trusted'])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)


def check(prop, tier, base, workers, count=None, cap=None):
    mod, agg = search(prop, tier, base, workers, count, cap)
    nviol = len(agg['violations'])
    evidence(prop, mod, tier, base, agg, workers, nviol)
    if agg['violations']:
        v = min(agg['violations'], key=lambda r: r['i'])
        scn = v['scn']
        # confirm in a fresh fork
        ok = False
        for _ in range(3):
            r = forked(mod, scn)
            if r['status'] == 'violation' and r['cls'] == v['cls']:
                ok = True
                break
        if not ok:
            print('ERROR: violation of run %d did not repeat: %s %s' %
                  (v['i'], v['cls'], v['msg']))
            return 2
        if r.get('patch'):
            scn2 = json.loads(json.dumps(dict(scn, **r['patch']), sort_keys=True))
            r2 = forked(mod, scn2)
            if r2['status'] == 'violation' and r2['cls'] == v['cls']:
                scn = scn2
        small, tried = shrink(mod, scn, v['cls'], 45 if tier == 'quick' else 120)
        res = forked(mod, small)
        if res['status'] != 'violation':
            small, res = scn, r
        path = write_replay(prop, mod, small, res, scn, base, v['i'], tried)
        # the replay file must reproduce it in a fresh interpreter
        import subprocess
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), 'replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300)
        if p.returncode != 1 and v['cls'] != 'native-crash':
            print('ERROR: replay did not reproduce: ' + p.stdout.decode()[-1500:])
            return 2
        exact = b'exact=True' in p.stdout
        print('run %d (seed %d) class %s: %s' % (v['i'], seed_of(base, prop, v['i']),
                                                 res['cls'], res['msg']))
        print('minimised scenario (%d attempts, exact replay: %s): %s' %
              (tried, exact, json.dumps(small, sort_keys=True)[:3000]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if agg['errors']:
        e = agg['errors'][0]
        print('ERROR in run %s: %s' % (e.get('i'), e.get('msg')))
        return 2
    for k in known_findings(prop):
        print('KNOWN-FINDING: ' + k[len('finding: '):])
    miss = [p for p in getattr(mod, 'PROBES', ()) if not agg['probes'].get(p)]
    print('%s: held on %d simulated runs (%d evaluations, %d events, %d distinct '
          'states, %d skipped) in %.1f s; faults %s' %
          (prop, agg['runs'], agg['evals'], agg['events'], len(agg['fps']),
           agg['skips'], agg['wall'], json.dumps(agg['faults'], sort_keys=True)))
    if miss:
        print('note: probes never hit: %s' % ', '.join(miss))
    return 0
