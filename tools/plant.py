"""Make /verif/seeded/<id> from an edit and confirm it in a scratch copy.

usage: plant.py FILE.py   (defines BUGS: list of dicts id, property, needs, breaks, edits, demo)
edits: list of (file, old, new); demo: body of demo.py (exit 0 = property holds)."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, shutil, sys, tempfile
TMP = tempfile.mkdtemp()


def main():
%s


try:
    main()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
'''
SH = '''#!/bin/sh
# exit 0: the property holds
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=dict(os.environ, **(env or {})), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')


def one(b):
    d = '%s/seeded/%s' % (H, b['id'])
    w = '/tmp/plant/%s' % b['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh('cp -a /repo %s && git -C %s checkout -q -- .' % (w, w), '/')
    for f, old, new in b['edits']:
        p = os.path.join(w, 'bloscpack', f)
        s = open(p).read()
        if s.count(old) != 1:
            return b['id'], 'EDIT: %d matches of %r in %s' % (s.count(old), old, f)
        open(p, 'w').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', w).stdout
    open(d + '/patch.diff', 'w').write(diff)
    body = '\n'.join('    ' + l if l else l for l in b['demo'].strip('\n').split('\n'))
    open(d + '/demo.py', 'w').write(PRE % body)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('sh %s/demo.sh' % d, '/repo', timeout=300)
    r1 = sh('sh %s/demo.sh' % d, w, timeout=300)
    t = sh('timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 test', w,
           {'PYTHONPATH': w, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'})
    tail = t.stdout.strip().split('\n')[-1]
    ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
    msg = '%s demo clean %d patched %d tests %s' % ('OK' if ok else 'BAD', r0.returncode, r1.returncode, tail)
    if not ok:
        msg += '\n--clean: %s\n--patched: %s\n--tests: %s' % (r0.stdout[-800:], r1.stdout[-500:],
                                                        '\n'.join(l for l in t.stdout.split('\n') if l.startswith('FAILED')))
    return b['id'], msg


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if len(sys.argv) > 2:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, bugs):
            print(i, m, flush=True)
