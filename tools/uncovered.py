"""functions of /repo/src/dga that no contract names"""
import ast, importlib, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine import reg
src = os.environ.get('DGA_SRC', '/repo/src') + '/dga'
for f in sorted(os.listdir(H + '/contracts')):
    if f.startswith('c') and f.endswith('.py'):
        importlib.import_module('contracts.' + f[:-3])
named = {x for cs in reg.REG.values() for c in cs for x in c.funcs}
tot = cov = 0
for f in sorted(os.listdir(src)):
    if not f.endswith('.py') or f in ('plotting.py', 'plot_specs.py', 'high_level_plotting.py', 'pade_aux.py'):
        continue
    t = ast.parse(open(f'{src}/{f}').read())
    miss = []
    def walk(body, pre):
        global tot, cov
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                tot += 1
                q = f'{f[:-3]}.{pre}{n.name}'
                if q in named: cov += 1
                else: miss.append(pre + n.name)
    walk(t.body, '')
    print(f, ' '.join(miss))
print(cov, 'of', tot)
