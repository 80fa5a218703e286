"""Development helper: AST mutants of rdtools functions; keeps those the stable tests do not kill, then runs the checks on them.
usage: mutate.py gen OUT.json FILE FUNC[,FUNC..]   |  test OUT.json  |  check OUT.json PROP[,PROP..]"""
import ast, sys, os, json, subprocess, random, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('MREPO', '/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = {'normalization.py': 'energy_from_power interpolate irradiance_rescale normalization_pvwatts normalize_with_expected_power',
         'filtering.py': 'filtering', 'degradation.py': 'degradation bootstrap', 'bootstrap.py': 'bootstrap degradation soiling_cods',
         'soiling.py': 'soiling', 'availability.py': 'availability', 'aggregation.py': 'aggregation', 'utilities.py': 'utilities filtering',
         'analysis_chains.py': 'analysis_chains', 'clearsky_temperature.py': 'clearsky_temperature', 'plotting.py': 'plotting analysis_chains'}
SWAPM = {'max': 'min', 'min': 'max', 'mean': 'median', 'median': 'mean', 'ffill': 'bfill', 'bfill': 'ffill', 'first': 'last', 'last': 'first',
         'sum': 'mean', 'all': 'any', 'any': 'all', 'cumsum': 'cummax', 'idxmax': 'idxmin', 'notnull': 'isnull', 'isnull': 'notnull', 'nanmean': 'mean', 'floor': 'ceil'}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}

def gen(fn, funcs):
    src = open(f'{REPO}/rdtools/{fn}').read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []
    def put(node, new, kind):
        a, z = pos(node)
        out.append(dict(a=a, z=z, new=new, kind=kind, line=node.lineno, old=b[a:z].decode()[:120]))
    tree = ast.parse(src)
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef,)) or (funcs and f.name not in funcs):
            continue
        doc = f.body[0] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None
        skip = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and seg(n.func).endswith(('warn', 'print', 'Error', 'Exception'))):
                skip |= {id(x) for x in ast.walk(n)}
        if doc:
            skip |= {id(x) for x in ast.walk(doc)}
        for n in ast.walk(f):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    put(n, f'{seg(n.left)} {o} {seg(n.comparators[0])}', 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                put(n, f'({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})', 'bin')
            elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
                if isinstance(n.value, bool):
                    put(n, str(not n.value), 'const')
                elif isinstance(n.value, int):
                    put(n, str(n.value + 1), 'const')
                    if n.value > 0:
                        put(n, str(n.value - 1), 'const')
                elif isinstance(n.value, float):
                    put(n, repr(n.value * 1.05), 'const')
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                sw = {'left': "'right'", 'right': "'left'", 'both': "'left'", 'ffill': "'bfill'", 'bfill': "'ffill'", 'D': "'2D'", 'first': "'last'", 'last': "'first'", 'outer': "'inner'", 'inner': "'outer'"}
                if n.value in sw:
                    put(n, sw[n.value], 'str')
            elif isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                put(n, op.join(f'({seg(v)})' for v in n.values), 'bool')
                for v in n.values:
                    rest = [w for w in n.values if w is not v]
                    put(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join(f'({seg(w)})' for w in rest), 'boolterm')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                put(n, seg(n.operand), 'unary')
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    rest = [seg(a) for a in n.args] + [('**' + seg(q.value)) if q.arg is None else f'{q.arg}={seg(q.value)}' for q in n.keywords if q is not k]
                    put(n, f'{seg(n.func)}({", ".join(rest)})', 'kw-' + k.arg)
                if isinstance(n.func, ast.Attribute) and n.func.attr in SWAPM:
                    rest = b[pos(n.func)[1]:pos(n)[1]].decode()
                    put(n, f'{seg(n.func.value)}.{SWAPM[n.func.attr]}{rest}', 'meth')
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'dropna', 'sort_index', 'fillna', 'abs', 'reindex', 'sort_values', 'drop_duplicates', 'interpolate', 'tz_convert', 'ffill', 'bfill', 'shift', 'diff', 'clip'):
                    put(n, seg(n.func.value), 'dropcall')
                if isinstance(n.func, ast.Name) and n.func.id in ('abs', 'min', 'max') or (isinstance(n.func, ast.Attribute) and n.func.attr in ('abs',) and n.args):
                    new = {'abs': '', 'min': 'max', 'max': 'min'}[n.func.id if isinstance(n.func, ast.Name) else 'abs']
                    put(n, new + '(' + ', '.join(seg(a) for a in n.args) + ')', 'fn')
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and n is not doc:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    nm = n.targets[0].id
                    prior = any(isinstance(m, ast.Name) and m.id == nm and isinstance(m.ctx, ast.Store) and m.lineno < n.lineno for m in ast.walk(f)) or nm in [a.arg for a in f.args.args]
                    if not prior:
                        continue
                put(n, 'pass', 'delstmt')
            elif isinstance(n, (ast.If, ast.IfExp)):
                put(n.test, f'(not ({seg(n.test)}))', 'negif')
                put(n.test, f'(False and ({seg(n.test)}))', 'iffalse')
    seen = set(); res = []
    for m in out:
        key = (m['a'], m['z'], m['new'])
        new = (b[:m['a']] + m['new'].encode() + b[m['z']:]).decode()
        if key in seen:
            continue
        seen.add(key)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        m['file'] = fn; res.append(m)
    return res

def apply(m, d):
    b = open(f'{REPO}/rdtools/{m["file"]}', 'rb').read()
    new = b[:m['a']] + m['new'].encode() + b[m['z']:]
    p = f'{d}/rdtools/{m["file"]}'
    open(p, 'wb').write(new)

def restore(m, d):
    shutil.copy(f'{REPO}/rdtools/{m["file"]}', f'{d}/rdtools/{m["file"]}')

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
def mkcopy(k):
    d = f'/tmp/mut/{os.getpid()}_{k}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs', 'build'))
    return d

def main():
    cmd, out = sys.argv[1:3]
    if cmd == 'gen':
        ms = gen(sys.argv[3], set(sys.argv[4].split(',')) if len(sys.argv) > 4 and sys.argv[4] else None)
        json.dump(ms, open(out, 'w'), indent=0)
        print(len(ms), 'mutants')
    elif cmd == 'test':
        ms = json.load(open(out))
        fails = set(json.load(open('/tmp/out.json'))['failed'])
        desel = []
        for f in fails:
            if '::' in f and f.startswith('rdtools.'):
                c, t = f.split('::', 1)
                parts = c.split('.')
                path = 'rdtools/test/' + parts[2] + '.py' if len(parts) > 2 else None
                if path:
                    desel += ['--deselect', '::'.join([path] + parts[3:] + [t])]
        import queue
        q = queue.Queue(); N = int(os.environ.get('MJ', 8))
        dirs = [mkcopy(k) for k in range(N)]
        for d in dirs: q.put(d)
        def one(m):
            if 'killed' in m: return
            d = q.get()
            try:
                apply(m, d)
                files = [f'rdtools/test/{t}_test.py' for t in TESTS[m['file']].split()]
                try:
                    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=120', *desel, *files],
                                       cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True, timeout=400)
                    m['killed'] = r.returncode != 0
                except subprocess.TimeoutExpired:
                    m['killed'] = True
                restore(m, d)
            finally:
                q.put(d)
        with ThreadPoolExecutor(N) as ex:
            list(ex.map(one, ms))
        for d in dirs: shutil.rmtree(d, ignore_errors=True)
        json.dump(ms, open(out, 'w'), indent=0)
        print(sum(not m['killed'] for m in ms), 'survive of', len(ms))
    elif cmd == 'check':
        ms = json.load(open(out)); props = sys.argv[3].split(',')
        d = mkcopy('c%d' % os.getpid())
        for m in ms:
            if m.get('killed', True) or 'caught' in m: continue
            apply(m, d)
            m['caught'] = None
            for p in props:
                ev = f'{V}/evidence/{p}.json'
                sv = open(ev).read() if os.path.exists(ev) else None
                try:
                    r = subprocess.run(['bash', f'{V}/check', p, 'quick'], env=dict(ENV, SYMX_REPO=d), capture_output=True, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = -99
                if sv: open(ev, 'w').write(sv)
                if rc == 1:
                    m['caught'] = p; break
                if rc != 0:
                    m['caught'] = None; m['rc'] = (p, rc, (r.stdout + r.stderr)[-300:])
            restore(m, d)
            print('%-6s' % m['caught'], m['file'], m['line'], m['kind'], repr(m['old'][:70]), '->', repr(m['new'][:70]), m.get('rc', ''), flush=True)
            json.dump(ms, open(out, 'w'), indent=0)
        shutil.rmtree(d, ignore_errors=True)

main()
