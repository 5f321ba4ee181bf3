"""runs ONE contract: concrete evaluations on the real code, then the symbolic obligations"""
import hashlib
import json
import os
import re
import random
import sys
import time
import traceback

from engine import env as ENV
from engine.reg import REG


def seed_of(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16)


def in_repo(tb):
    """does the traceback end in repository code (or library code called from it) rather than in the contract?"""
    last = None
    for f in traceback.extract_tb(tb):
        fn = f.filename
        if '/dga/' in fn and '/verif/' not in fn or '/multimethod' in fn:      # dispatch of a call of the code
            last = 'repo'
        elif '/verif/contracts/' in fn or '/verif/engine/' in fn and 'npshim' not in fn and 'sym.py' not in fn \
                and 'instr.py' not in fn and 'terms.py' not in fn:
            last = 'contract'
    return last == 'repo'


_ATTRS = [None]
SRC = os.environ.get('DGA_SRC', '/repo/src')


def known_attributes():
    """names of methods, functions and attributes that exist anywhere in the source, or on arrays and communicators"""
    if _ATTRS[0] is None:
        import numpy as np
        s = set(dir(np.ndarray)) | {'rank', 'size', 'Get_rank', 'Get_size', 'bcast', 'barrier', 'Barrier', 'keys', 'items', 'values', 'get', 'copy', 'close'}
        for f in sorted(os.listdir(os.path.join(SRC, 'dga'))):
            if f.endswith('.py'):
                with open(os.path.join(SRC, 'dga', f), encoding='utf-8') as fh:
                    t = fh.read()
                s |= set(re.findall(r'\bdef (\w+)', t)) | set(re.findall(r'\bself\.(\w+)\b(?= *(?:,[^=\n]*)?=[^=])', t))
        _ATTRS[0] = s
    return _ATTRS[0]


def standin_gap(e, c):
    """the error only says that a stand-in object or function of the contract does not offer what the code uses; text or None"""
    mod = c.fn.__module__
    if isinstance(e, AttributeError) and getattr(e, 'obj', None) is not None and getattr(e, 'name', None):
        o = e.obj
        m = o.__module__ if isinstance(o, type) else type(o).__module__
        if m == mod or str(m).startswith('contracts') or m == 'types' and type(o).__name__ == 'SimpleNamespace':
            if e.name in known_attributes():
                return f'the code uses {e.name!r}, which the stand-in of the contract does not have'
    if isinstance(e, TypeError):
        m = re.match(r'([\w.<>]+)\(\) (got an unexpected|got multiple values|missing \d+|takes )', str(e))
        if m:
            top = m.group(1).split('.')[0]
            g = c.fn.__globals__
            if top in g and getattr(g[top], '__module__', None) == mod or '<lambda>' in m.group(1):
                return f'the code calls a stand-in of the contract differently: {e}'
    return None


def one_concrete(c, seed, idx, forced, tier):
    """-> (outcome, info, ints, clauses)   outcome in ok / violation / skip / missing / error"""
    E = ENV.ConEnv(seed, forced, tier, idx)
    try:
        try:
            import numpy as np
            np.random.seed(seed % 2 ** 31)
            import random as _r
            _r.seed(seed)
            with np.errstate(all='ignore'):
                c.fn(E)
            return 'ok', '', E.ints, E.clauses
        except ENV.Violation as e:
            return 'violation', str(e), E.ints, E.clauses
        except ENV.Skip as e:
            return 'skip', str(e), E.ints, E.clauses
        except ENV.Missing as e:
            return 'missing', str(e), E.ints, E.clauses
        except ENV.SpecError as e:
            return 'error', 'SpecError: ' + str(e), E.ints, E.clauses
        except Exception as e:
            info = f'{type(e).__name__}: {e}'
            tb = traceback.format_exc(limit=-4)
            gap = standin_gap(e, c)
            if gap:
                return 'missing', gap, E.ints, E.clauses
            if in_repo(e.__traceback__):
                return 'violation', f'the code raised {info}\n{tb}', E.ints, E.clauses
            if not any('/dga/' in f.filename for f in traceback.extract_tb(e.__traceback__)) and \
                    (isinstance(e, (IndexError, ValueError)) or 'NoneType' in info):
                return 'violation', f'a result does not have the specified form: {info}\n{tb}', E.ints, E.clauses
            return 'error', f'{info}\n{tb}', E.ints, E.clauses
        except SystemExit as e:
            return 'violation', 'the code called sys.exit', E.ints, E.clauses
    finally:
        for f in reversed(E.cleanup):
            try:
                f()
            except Exception:
                pass


def run_concrete(c, tier, seed, limit):
    t0 = time.time()
    reps = c.reps if tier == 'quick' else c.reps * 8
    n = {'ok': 0, 'skip': 0}
    clauses = {}
    distinct = set()
    sample = None
    for k in range(reps * 3):
        if n['ok'] >= reps or time.time() - t0 > limit:
            break
        s = seed_of(seed, c.prop, c.name, k)
        out, info, ints, cl = one_concrete(c, s, k, None, tier)
        if out in ('ok', 'skip'):
            n[out] += 1
            for q, v in cl.items():
                clauses[q] = clauses.get(q, 0) + v
            if out == 'ok':
                distinct.add(tuple(sorted((a, b) for a, b in ints.items())))
                if sample is None and k > 0:
                    sample = {a: b for a, b in ints.items() if not a.startswith('choice:')}
            continue
        return {'status': out, 'info': info, 'ints': ints, 'seed': s, 'idx': k, 'evals': n['ok'], 'clauses': clauses,
                'distinct': len(distinct), 'sample': sample}
    return {'status': 'ok' if n['ok'] else 'nothing', 'evals': n['ok'], 'skipped': n['skip'], 'clauses': clauses,
            'distinct': len(distinct), 'sample': sample, 'wall': time.time() - t0}


# an error that names a class of the interpreter says that the interpreter lacks an operation, not that the code is wrong
ENGINE_TYPES = re.compile(r'\b(S(Int|Bool|Num|Arr|Dtype|List|Mask|Range|MapIter)|SymStr|NumpyShim|NPProxy|dga_(int|float|complex|listT)|Undef|Poison)\b')


class SecondAttempt(Exception):
    pass


def run_symbolic(c, tier, limit):
    from engine import npshim
    try:
        npshim.CREATE_SYMBOLIC[0] = False
        return run_symbolic1(c, tier, limit)
    except SecondAttempt:
        npshim.CREATE_SYMBOLIC[0] = True
        return run_symbolic1(c, tier, limit)


def run_symbolic1(c, tier, limit):
    from engine import instr, npshim, sym, terms as T
    t0 = time.time()
    T.DEADLINE[0] = t0 + limit
    stubs = c.stubs() if c.stubs else None
    loader = instr.Loader(stubs=stubs)
    res = {'obl': [], 'done': {}, 'keep': []}
    ex = sym.Explorer()
    status, info, paths = 'proved', '', 0
    exc_viol = None
    try:
        def body():
            T.AXIOMS.clear()
            T.COUNTS.clear()
            T.CONVOLVE = False
            E = ENV.SymEnv(loader, ex, res, tier)
            ex.env = E
            try:
                c.fn(E)
            finally:
                for f in reversed(E.cleanup):
                    f()
            return True
        for out, r in ex.run(body):
            paths += 1
            if out == 'exc':
                if not npshim.CREATE_SYMBOLIC[0] and isinstance(r, (ValueError, TypeError)) and ('array element with a sequence' in str(r) or 'SNum' in str(r) or 'SArr' in str(r)):
                    raise SecondAttempt()
                tb = r.__traceback__
                last = traceback.extract_tb(tb)[-1]
                if '/verif/engine/' in last.filename or '/site-packages/' in last.filename or '/lib/python' in last.filename:
                    if not (last.line or '').lstrip().startswith('raise') or not '/verif/engine/' in last.filename:
                        # not an error of the code: the interpreter itself failed (no verdict on this path)
                        raise T.Unsupported(f'engine: {type(r).__name__}: {r}').with_traceback(tb)
                gap = standin_gap(r, c)
                if gap:
                    raise ENV.Missing(gap)
                if isinstance(r, (TypeError, AttributeError)) and ENGINE_TYPES.search(str(r)):
                    raise T.Unsupported(f'engine: {type(r).__name__}: {r}').with_traceback(tb)
                txt = f'{type(r).__name__}: {r}\n' + ''.join(traceback.format_exception(type(r), r, tb, limit=-5))
                if isinstance(r, (ENV.Violation,)):
                    txt = str(r)
                # model of this path
                E = ex.env
                cx = T.Ctx(ex.base + ex.pc)
                saved = ex._ctx
                ex.local, ex._ctx = [], None
                m = E._small_model()
                res['obl'].append({'label': 'no error on admissible inputs', 'status': 'refuted' if m is not None else 'unknown',
                                   'info': txt[:1500], 'model': m, 'repo': in_repo(tb)})
    except SecondAttempt:
        raise
    except T.Deadline as e:
        status, info = 'undecided', 'time budget exhausted'
        if os.environ.get('DGA_TRACE'):
            traceback.print_exc()
    except T.Unsupported as e:
        status, info = 'unsupported', str(e) or type(e).__name__
        info += ' @ ' + where(e.__traceback__)
    except ENV.Missing as e:
        status, info = 'missing', str(e)
    except ENV.SpecError as e:
        status, info = 'error', 'SpecError ' + str(e)
    except ENV.Skip as e:
        status, info = 'unsupported', f'skip: {e}'
    except RecursionError as e:
        status, info = 'unsupported', 'recursion depth'
    except Exception as e:
        status, info = 'unsupported', f'engine: {type(e).__name__}: {e} @ ' + where(e.__traceback__)
    obl = res['obl']
    if status == 'proved':
        if any(o['status'] == 'refuted' for o in obl):
            status = 'refuted'
        elif any(o['status'] == 'unknown' for o in obl):
            status = 'undecided'
        elif not obl:
            status, info = 'error', 'no obligations generated (vacuous contract)'
    return {'status': status, 'info': info, 'obl': obl, 'paths': paths, 'wall': time.time() - t0,
            'z3_calls': T.STATS['z3_calls'], 'z3_time': T.STATS['z3_time']}


def where(tb):
    fs = traceback.extract_tb(tb)
    out = []
    for f in fs:
        if '/dga/' in f.filename or '/contracts/' in f.filename:
            out.append(f'{os.path.basename(f.filename)}:{f.lineno}')
    return ' > '.join(out[-3:]) + ' > ' + f'{os.path.basename(fs[-1].filename)}:{fs[-1].lineno}'


def run_contract(c, tier, seed, sym=True):
    t0 = time.time()
    climit = 25 if tier == 'quick' else 150
    con = run_concrete(c, tier, seed, climit)
    out = {'name': c.name, 'funcs': c.funcs, 'concrete': con}
    if c.sym and sym:
        try:
            s = run_symbolic(c, tier, c.budget if tier == 'quick' else c.budget * 4)
        except Exception as e:
            s = {'status': 'unsupported', 'info': 'engine: ' + traceback.format_exc(limit=-3), 'obl': [], 'paths': 0, 'wall': 0,
                 'z3_calls': 0, 'z3_time': 0}
        out['symbolic'] = s
        # replay counter models on the real code
        if s['status'] == 'refuted' and con['status'] == 'ok':
            for o in s['obl']:
                if o['status'] != 'refuted' or o['model'] is None:
                    continue
                for k in range(6):
                    sd = seed_of('replay', c.prop, c.name, o['label'], k)
                    r = one_concrete(c, sd, 10 ** 6, o['model'], tier)
                    if r[0] == 'violation':
                        out['replayed'] = {'status': 'violation', 'info': r[1], 'forced': o['model'], 'seed': sd, 'idx': 10 ** 6,
                                           'obligation': o['label'], 'ints': r[2]}
                        break
                if 'replayed' in out:
                    break
    out['wall'] = time.time() - t0
    return out
