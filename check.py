"""Entry point.  check.py C01 [--count N] [--seed S] | replay FILE | selftest ..."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def reexec():
    """Fixed interpreter and environment, no stale bytecode from /repo."""
    if os.environ.get('BPSIM_CHILD') != '1' or os.environ.get('PYTHONHASHSEED') is None:
        e = dict(os.environ)
        e['BPSIM_CHILD'] = '1'
        e.setdefault('PYTHONHASHSEED', '0')
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['PYTHONPYCACHEPREFIX'] = os.path.join(HERE, '.nopycache')
        e['OMP_NUM_THREADS'] = e['OPENBLAS_NUM_THREADS'] = '1'
        e.pop('PYTHONPATH', None)
        # fresh memory has fixed contents, also below numpy (padding bytes)
        e['GLIBC_TUNABLES'] = 'glibc.malloc.perturb=165:glibc.malloc.tcache_count=0'
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], e)


def main():
    reexec()
    sys.path.insert(0, HERE)
    from sim import runner
    argv = sys.argv[1:]
    opts = {}
    pos = []
    while argv:
        a = argv.pop(0)
        if a.startswith('--'):
            opts[a[2:]] = argv.pop(0)
        else:
            pos.append(a)
    tier = opts.get('tier') or os.environ.get('VERIF_TIER') or 'quick'
    base = int(opts.get('seed') or os.environ.get('VERIF_SEED') or 1)
    workers = int(opts.get('workers') or min(8, os.cpu_count() or 1))
    if pos[0] == 'replay':
        return runner.replay(pos[1])
    if pos[0] == 'selftest':
        from sim import selftest
        return selftest.main(pos[1:], opts)
    if pos[0] == 'run':          # one run by index, verbose
        from sim import env
        env.setup()
        mod = runner.load(pos[1])
        if hasattr(mod, 'prepare'):
            mod.prepare()
        scn = runner.make(mod, pos[1], base, int(pos[2]), tier)
        import json
        print(json.dumps(scn, indent=1))
        print(json.dumps(runner.forked(mod, scn), indent=1))
        return 0
    return runner.check(pos[0], tier, base, workers,
                        int(opts['count']) if 'count' in opts else None,
                        float(opts['cap']) if 'cap' in opts else None)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
