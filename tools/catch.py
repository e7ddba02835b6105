"""Run checks against scratch copies made by plant.py: catch.py [-p C01,C02] [-a] ID..."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
if args and args[0] == '-a':
    props = ['C%02d' % i for i in range(1, 21)]
    args = args[1:]
elif args and args[0] == '-p':
    props = args[1].split(',')
    args = args[2:]
for i in args:
    w = '/tmp/plant/' + i
    if not os.path.isdir(w):
        subprocess.run('mkdir -p /tmp/plant; cp -a /repo %s && git -C %s checkout -q -- . && git -C %s apply %s/seeded/%s/patch.diff'
                       % (w, w, w, H, i), shell=True, check=True)
    own = json.load(open('%s/seeded/%s/meta.json' % (H, i)))['property']
    for p in (props or [own]):
        r = subprocess.run(['./check', p], cwd=H, env=dict(os.environ, BP_REPO=w, VERIF_SEED='1'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        last = [l for l in r.stdout.split('\n') if ' class ' in l or l.startswith('note')]
        print('%-28s %s%s exit %d %s' % (i, p, '*' if p == own else ' ', r.returncode,
                                         'CAUGHT ' + last[0][:150] if v else (r.stdout.strip().split('\n')[-1][:120])), flush=True)
