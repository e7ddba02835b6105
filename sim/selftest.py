"""Self test of the simulator: determinism across processes.

The same seeds are run in fresh interpreters with different PYTHONHASHSEED and
different worker counts; the digests of every run must be identical."""
import json
import os
import subprocess
import sys

from . import runner


def digests(prop, n, base, workers, hashseed):
    code = ('import sys,json;sys.path.insert(0,%r)\n'
            'from sim import runner\n'
            'out={}\n'
            'def f(r): out[r["i"]]=[r["status"],r.get("digest"),r.get("msg")]\n'
            'runner.search(%r,"quick",%d,%d,%d,600,False,f)\n'
            'print(json.dumps(out,sort_keys=True))\n' %
            (runner.VERIF, prop, base, workers, n))
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, '-B', '-c', code], env=e, stdout=subprocess.PIPE)
    return json.loads(p.stdout.decode().splitlines()[-1])


def main(argv, opts):
    quick = 'quick' in argv
    n = int(opts.get('count') or (12 if quick else 150))
    base = int(opts.get('seed') or os.environ.get('VERIF_SEED') or 1)
    props = [a for a in argv if a.startswith('C')]
    if not props:
        props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(runner.VERIF, 'sim', 'props'))
                       if f.startswith('c') and f[1:3].isdigit() and f.endswith('.py'))
    bad = 0
    for p in props:
        a = digests(p, n, base, 4, 0)
        b = digests(p, n, base, 7, 12345)
        err = [k for k, v in a.items() if v[0] in ('error', 'timeout')]
        diff = [k for k in sorted(a, key=int) if a[k] != b.get(k)]
        print('%s: %d runs, %d differ, %d errors' % (p, len(a), len(diff), len(err)))
        for k in diff[:3]:
            print('   run', k, a[k], b.get(k))
        for k in err[:2]:
            print('   run', k, a[k][2])
        bad += bool(diff) + bool(err) + (len(a) != n)
    # the set-up must not fail because of what the tree under test does
    return 0 if quick else (1 if bad else 0)
