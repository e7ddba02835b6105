"""Mutation survey: mutate.py gen DIR | mutate.py run DIR [workers]

gen writes one mutated copy of a module per mutant (DIR/NNN.json); run tries a few hundred
simulated runs of every property on each and records which property, if any, notices it."""
import ast, copy, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/bloscpack'
MODS = ['abstract_io', 'append', 'args', 'checksums', 'cli', 'file_io', 'headers', 'memory_io', 'metacodecs',
        'numpy_io', 'pretty', 'serializers', 'log', 'abstract_objects']
ORDER = ['C14', 'C03', 'C01', 'C02', 'C16', 'C09', 'C04', 'C20', 'C15', 'C05', 'C06', 'C19', 'C08', 'C13',
         'C10', 'C11', 'C17', 'C18', 'C07', 'C12']
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
        ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
        isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and \
        n.value.func.value.id == 'log' and n.value.func.attr in ('debug', 'verbose')


def mutants(tree):
    """(description, mutated tree)"""
    nodes = []

    def collect(n, parent):
        if is_log(n) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('add_argument', 'add_parser', 'ArgumentParser') and False:
            return
        nodes.append(n)
        for c in ast.iter_child_nodes(n):
            collect(c, n)
    collect(tree, None)
    for i, n in enumerate(nodes):
        muts = []
        if isinstance(n, ast.Compare):
            t = type(n.ops[0])
            if t in SWAP:
                muts.append(('%s -> %s' % (t.__name__, SWAP[t].__name__),
                             lambda m, t=t: m.ops.__setitem__(0, SWAP[t]())))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}[type(n.op)]
            muts.append(('op -> %s' % new.__name__, lambda m, new=new: setattr(m, 'op', new())))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            muts.append(('not %r' % n.value, lambda m: setattr(m, 'value', not m.value)))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            muts.append(('%d + 1' % n.value, lambda m: setattr(m, 'value', m.value + 1)))
            muts.append(('%d - 1' % n.value, lambda m: setattr(m, 'value', m.value - 1)))
        elif isinstance(n, ast.BoolOp):
            muts.append(('and <-> or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        elif isinstance(n, (ast.If, ast.IfExp)):
            muts.append(('if True', lambda m: setattr(m, 'test', ast.Constant(True))))
            muts.append(('if False', lambda m: setattr(m, 'test', ast.Constant(False))))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)):
            muts.append(('delete statement', 'delete'))
        elif isinstance(n, ast.Return) and n.value is not None:
            muts.append(('return None', lambda m: setattr(m, 'value', ast.Constant(None))))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            muts.append(('except nothing', lambda m: setattr(m, 'type', ast.Tuple([], ast.Load()))))
        for d, f in muts:
            t = copy.deepcopy(tree)
            ns = []

            def again(x, out=ns):
                if is_log(x) or isinstance(x, (ast.Import, ast.ImportFrom)):
                    return
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    return
                out.append(x)
                for c in ast.iter_child_nodes(x):
                    again(c)
            again(t)
            m = ns[i]
            if f == 'delete':
                for p in ast.walk(t):
                    for fld in ('body', 'orelse', 'finalbody'):
                        b = getattr(p, fld, None)
                        if isinstance(b, list) and any(x is m for x in b):
                            b[[x is m for x in b].index(True)] = ast.Pass()
            else:
                f(m)
            yield '%d: %s: %s' % (n.lineno, ast.unparse(n).split('\n')[0][:90], d), t


def gen(d):
    os.makedirs(d, exist_ok=True)
    k = 0
    for mod in MODS:
        src = open('%s/%s.py' % (SRC, mod)).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for desc, t in mutants(tree):
            new = ast.unparse(ast.fix_missing_locations(t))
            if new == base:
                continue
            json.dump({'mod': mod, 'desc': desc, 'src': new}, open('%s/%04d.json' % (d, k), 'w'))
            k += 1
    print(k, 'mutants')


def one(d, f, counts):
    rec = json.load(open('%s/%s' % (d, f)))
    if 'result' in rec and rec.get('counts') == counts:
        return
    w = '/tmp/mutw/%s' % f[:-5]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree(SRC, w + '/bloscpack', ignore=shutil.ignore_patterns('__pycache__'))
    open('%s/bloscpack/%s.py' % (w, rec['mod']), 'w').write(rec['src'])
    e = dict(os.environ, BP_REPO=w)
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), 'kill', json.dumps(counts)], env=e, cwd=H,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           timeout=3000)
        out = [l for l in r.stdout.split('\n') if l.startswith('RESULT ')]
        rec['result'] = out[0][7:] if out else 'error ' + r.stdout[-300:]
    except subprocess.TimeoutExpired:
        rec['result'] = 'timeout'
    rec['counts'] = counts
    json.dump(rec, open('%s/%s' % (d, f), 'w'))
    shutil.rmtree(w, ignore_errors=True)
    print(f, rec['mod'], rec['desc'], '=>', rec['result'][:150], flush=True)


def kill(counts):
    """In a process of its own, BP_REPO set."""
    sys.path.insert(0, H)
    import check
    if os.environ.get('BPSIM_CHILD') != '1':
        e = dict(os.environ, BPSIM_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                 OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_SEED='1',
                 GLIBC_TUNABLES='glibc.malloc.perturb=165:glibc.malloc.tcache_count=0')
        os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv, e)
    from sim import runner
    for n in counts:
        for p in ORDER:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    mod, agg = runner.search(p, 'quick', 1, 1, n, 300)
                    if agg['violations']:
                        v = agg['violations'][0]
                        m = '%s run %d %s %s' % (p, v['i'], v['cls'], v['msg'][:100].replace('\n', ' '))
                    elif agg['errors']:
                        m = '%s ERROR %s' % (p, str(agg['errors'][0].get('msg'))[-200:].replace('\n', ' '))
                    else:
                        m = ''
                except BaseException as ex:
                    m = '%s ERROR %r' % (p, ex)
                os.write(w, m.encode()[:4000])
                os._exit(0)
            os.close(w)
            m = b''
            while True:
                b = os.read(r, 4096)
                if not b:
                    break
                m += b
            os.close(r)
            os.waitpid(pid, 0)
            if m:
                print('RESULT ' + m.decode(), flush=True)
                return
    print('RESULT survived', flush=True)


if sys.argv[1] == 'gen':
    gen(sys.argv[2])
elif sys.argv[1] == 'kill':
    kill(json.loads(sys.argv[2]))
elif sys.argv[1] == 'run':
    fs = sorted(f for f in os.listdir(sys.argv[2]) if f.endswith('.json'))
    counts = json.loads(sys.argv[4]) if len(sys.argv) > 4 else [40, 200]
    with ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 8) as ex:
        list(ex.map(lambda f: one(sys.argv[2], f, counts), fs))
