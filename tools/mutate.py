"""tools/mutate.py MODULE [FUNC ...]: small changes of every function, run against the checks of the properties that name the function.
Screening only: concrete evaluation first (--nosym), survivors again with the full check.  Scratch copies under /tmp/mut."""
import ast, importlib, os, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
import queue
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine import reg
for f in sorted(os.listdir(H + '/contracts')):
    if f.startswith('c') and f.endswith('.py'):
        importlib.import_module('contracts.' + f[:-3])
named = {}
for p, cs in reg.REG.items():
    for c in cs:
        for x in c.funcs:
            named.setdefault(x, set()).add(p)
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/'}


def mutants(src, fn):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def rep(a, z, new, what):
        out.append((a, z, new, what))
    doc = {id(s.value) for s in ast.walk(fn) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)}
    for n in ast.walk(fn):
        if isinstance(n, ast.JoinedStr):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, z = seg(n.left)[1], seg(n.comparators[0])[0]
            rep(a, z, f' {CMP[type(n.ops[0])]} ', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, z = seg(n.left)[1], seg(n.right)[0]
            old = b[a:z].decode()
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//'}[type(n.op)]
            if old.count(sym) == 1:
                rep(a, z, old.replace(sym, BIN[type(n.op)]), 'bin')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            a, z = seg(n.target)[1], seg(n.value)[0]
            old = b[a:z].decode()
            sym = {ast.Add: '+=', ast.Sub: '-=', ast.Mult: '*=', ast.Div: '/=', ast.FloorDiv: '//='}[type(n.op)]
            rep(a, z, old.replace(sym, BIN[type(n.op)] + '='), 'aug')
            rep(a, z, old.replace(sym, '='), 'aug=')
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            a, z = seg(n)
            if n.value is True or n.value is False:
                rep(a, z, str(not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                rep(a, z, repr(n.value + 1), 'const')
                if n.value not in (0, 1):
                    rep(a, z, repr(n.value - 1), 'const-')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, z = seg(n)
            rep(a, z, b[seg(n.operand)[0]:seg(n.operand)[1]].decode(), 'unary')
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if nm in ('conj', 'conjugate', 'flip', 'abs', 'real', 'transpose', 'moveaxis', 'ascontiguousarray') and n.args:
                a, z = seg(n)
                rep(a, z, '(' + b[seg(n.args[0])[0]:seg(n.args[0])[1]].decode() + ')', 'drop ' + nm)
            sw = {'min': 'max', 'max': 'min', 'sin': 'cos', 'cos': 'sin', 'sum': 'mean', 'mean': 'sum', 'zeros': 'ones', 'floor': 'ceil'}.get(nm)
            if sw and isinstance(f, ast.Attribute):
                a, z = seg(f)
                rep(z - len(nm), z, sw, nm + '->' + sw)
            elif sw and isinstance(f, ast.Name) and nm in ('min', 'max'):
                rep(*seg(f), sw, nm)
            if len(n.args) >= 2 and nm not in ('print', 'log_event'):
                (a0, z0), (a1, z1) = seg(n.args[0]), seg(n.args[1])
                if not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
                    rep(a0, z1, b[a1:z1].decode() + b[z0:a1].decode() + b[a0:z0].decode(), 'swap args')
        elif isinstance(n, ast.BoolOp):
            a, z = seg(n.values[0])[1], seg(n.values[1])[0]
            o = b[a:z].decode()
            rep(a, z, o.replace('and', 'or') if isinstance(n.op, ast.And) else o.replace('or', 'and'), 'bool op')
        elif isinstance(n, ast.Attribute) and n.attr in ('T', 'real', 'imag'):
            a, z = seg(n)
            rep(seg(n.value)[1], z, '' if n.attr != 'imag' else '.real', 'attr ' + n.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2 and isinstance(n.ctx, ast.Load):
            e0, e1 = n.slice.elts[-2:]
            (a0, z0), (a1, z1) = seg(e0), seg(e1)
            if b[a0:z0] != b[a1:z1]:
                rep(a0, z1, b[a1:z1].decode() + b[z0:a1].decode() + b[a0:z0].decode(), 'swap idx')
    for n in ast.walk(fn):
        for body in (getattr(n, 'body', None), getattr(n, 'orelse', None)):
            if isinstance(body, list):
                for s in body:
                    if isinstance(s, (ast.AugAssign,)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)):
                        a, z = seg(s)
                        rep(a, z, 'pass', 'delete')
    res, seen = [], set()
    for a, z, new, what in out:
        t = b[:a] + new.encode() + b[z:]
        if t in seen or t == b:
            continue
        seen.add(t)
        try:
            ast.parse(t.decode())
        except SyntaxError:
            continue
        ln = b[:a].count(b'\n')
        res.append((t.decode(), f'{ln + 1}:{what}: {lines[ln].strip()[:90]}  =>  {t.decode().split(chr(10))[ln].strip()[:110]}'))
    return res


def main():
    mod, only = sys.argv[1], set(sys.argv[2:])
    src = open(f'/repo/src/dga/{mod}.py').read()
    tree = ast.parse(src)
    jobs = []

    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                q = f'{mod}.{pre}{n.name}'
                if only and pre + n.name not in only:
                    continue
                ps = named.get(q)
                for t, d in mutants(src, n):
                    jobs.append((q, sorted(ps or []), t, d))
    walk(tree.body, '')
    N = int(os.environ.get('J', 8))
    pool = queue.Queue()
    for k in range(N):
        d = f'/tmp/mut/{mod}_{os.getpid()}_{k}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo/src', d)
        pool.put(d)

    def one(j):
        q, ps, t, d = j
        if not ps:
            return j, 'uncovered'
        w = pool.get()
        try:
            open(f'{w}/dga/{mod}.py', 'w').write(t)
            env = dict(os.environ, DGA_SRC=w, DGA_NO_EVIDENCE='1')
            for full in ([], ['--nosym'])[::-1]:
                if full == [] and os.environ.get('FAST'):
                    continue
                for p in ps:
                    try:
                        r = subprocess.run(['/opt/venv/bin/python', H + '/check.py', p, '--tier', 'quick'] + full, cwd='/tmp', env=env, capture_output=True, timeout=400, text=True)
                        if r.returncode == 1:
                            v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
                            return j, ('killed' if not full or True else '') + (' nfi' if v and all(x.endswith('no-failing-input-found') for x in v) else '')
                        if r.returncode != 0:
                            return j, f'rc{r.returncode}'
                    except subprocess.TimeoutExpired:
                        return j, 'timeout'
            return j, 'SURVIVED'
        finally:
            pool.put(w)
    cnt = {}
    with ThreadPoolExecutor(N) as ex:
        for (q, ps, t, d), r in ex.map(one, jobs):
            cnt[r] = cnt.get(r, 0) + 1
            if r not in ('killed', 'uncovered'):
                print(r, q, ','.join(ps), '|', d, flush=True)
    print(mod, cnt, flush=True)
    for k in range(N):
        shutil.rmtree(f'/tmp/mut/{mod}_{os.getpid()}_{k}', ignore_errors=True)


main()
