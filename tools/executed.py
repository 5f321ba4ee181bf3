"""tools/executed.py [C01 ...]: functions named by a contract which its concrete evaluation never enters (environment as in check.py)"""
import importlib, os, sys, threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('DGA_SRC', '/repo/src'), H]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from engine import reg, run1
S = os.environ.get('DGA_SRC', '/repo/src') + '/dga/'
seen = set()
allseen, named = set(), set()


def prof(f, ev, arg):
    if ev == 'call' and f.f_code.co_filename.startswith(S):
        seen.add(f.f_code.co_filename[len(S):-3].replace('/', '.') + '.' + f.f_code.co_qualname)


for p in sys.argv[1:] or [f'C{i:02d}' for i in range(1, 25)]:
    importlib.import_module('contracts.' + p.lower())
    for c in reg.REG[p]:
        seen.clear()
        threading.setprofile(prof)
        sys.setprofile(prof)
        old = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        c.reps = min(c.reps, 30)
        r = run1.run_concrete(c, 'quick', 1, 25)
        sys.setprofile(None)
        threading.setprofile(None)
        sys.stdout = old
        allseen |= seen
        named |= set(c.funcs)
        if r['status'] != 'ok':
            print(p, c.name, r['status'], r.get('info', '')[-300:])
        miss = [f for f in c.funcs if f not in seen]
        if miss:
            print(p, c.name, r['status'], miss, flush=True)
print('never entered at all:', sorted(named - allseen))
