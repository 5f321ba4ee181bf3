#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay FILE | --dev <property> [contract]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('DGA_CHECK_BOOT') != '1':
    env = dict(os.environ)
    env.update({'DGA_CHECK_BOOT': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg',
                'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
                'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'OMPI_MCA_btl': 'self,vader',
                'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_pml': 'ob1',
                'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_plm': 'isolated',
                'OMPI_MCA_hwloc_base_binding_policy': 'none', 'HDF5_USE_FILE_LOCKING': 'FALSE'})
    env.setdefault('DGA_SRC', '/repo/src')
    env.setdefault('MPLCONFIGDIR', '/tmp/verif_mpl_%d' % os.getpid())
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, os.environ['DGA_SRC'])
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)

import argparse
import importlib
import json
import multiprocessing as mp
import shutil
import tempfile
import time

from engine import reg, run1


def load(prop):
    importlib.import_module('contracts.' + prop.lower())
    return reg.REG[prop]


def child(prop, name, tier, seed, path, sym):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    d = tempfile.mkdtemp(prefix='verif_job_')
    os.chdir(d)
    try:
        c = [x for x in reg.REG[prop] if x.name == name][0]
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        try:
            r = run1.run_contract(c, tier, seed, sym)
        except BaseException as e:
            import traceback
            r = {'name': name, 'funcs': c.funcs, 'concrete': {'status': 'error', 'info': 'harness: ' + traceback.format_exc()}}
        with open(path + '.tmp', 'w') as f:
            json.dump(r, f, default=str)
        os.replace(path + '.tmp', path)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
        os._exit(0)


def run_all(prop, tier, seed, only=None, sym=True, jobs=8):
    cs = [c for c in reg.REG[prop] if only is None or c.name == only]
    tmp = tempfile.mkdtemp(prefix='verif_res_')
    ctx = mp.get_context('fork')
    todo = sorted(cs, key=lambda c: -c.budget)
    running, results = {}, {}
    total = 700 if tier == 'quick' else 6000
    t0 = time.time()
    try:
        while todo or running:
            while todo and len(running) < jobs:
                c = todo.pop(0)
                p = ctx.Process(target=child, args=(prop, c.name, tier, seed, f'{tmp}/{c.name}.json', sym))
                p.start()
                hard = (c.budget * (1 if tier == 'quick' else 4)) + (60 if tier == 'quick' else 400)
                running[c.name] = (p, c, time.time() + hard)
            time.sleep(0.02)
            for nme in list(running):
                p, c, dl = running[nme]
                if p.is_alive() and time.time() < dl and time.time() - t0 < total:
                    continue
                if p.is_alive():
                    p.kill()
                p.join()
                del running[nme]
                try:
                    with open(f'{tmp}/{nme}.json') as f:
                        results[nme] = json.load(f)
                except FileNotFoundError:
                    results[nme] = {'name': nme, 'funcs': c.funcs, 'concrete': {'status': 'timeout', 'info': 'killed'}}
            if time.time() - t0 > total:
                todo = []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [results[c.name] for c in cs if c.name in results]


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        out = json.load(open(p)).get('findings', [])
    return out


def ledger():
    p = os.path.join(HERE, 'ledger.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def matches(f, prop, name, info):
    return f['property'] == prop and f['contract'] == name and f['match'] in info


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--dev', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--nosym', action='store_true')
    ap.add_argument('--write-ledger', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    cs = load(a.prop)
    if a.dev and a.only:
        c = [x for x in cs if x.name == a.only][0]
        r = run1.run_contract(c, a.tier, seed, not a.nosym)
        print(json.dumps(r, indent=1, default=str))
        return 0
    res = run_all(a.prop, a.tier, seed, a.only, not a.nosym)
    led = ledger().get(a.prop, {})
    meta = importlib.import_module('contracts.' + a.prop.lower())
    violations, known, errors = [], [], []
    obligations = discharged = evals = distinct = 0
    samples, listing, assumptions = [], [], []
    z3c = z3t = 0
    by = {c.name: c for c in cs}
    for r in res:
        c = by[r['name']]
        con, s = r['concrete'], r.get('symbolic')
        evals += con.get('evals', 0)
        distinct += con.get('distinct', 0)
        if con.get('sample') and len(samples) < 6:
            samples.append({'contract': c.name, 'inputs': con['sample'], 'clauses': con.get('clauses')})
        ent = {'contract': c.name, 'functions': c.funcs, 'concrete': con['status'], 'evaluations': con.get('evals', 0)}
        if con['status'] == 'violation':
            f = [k for k in known_findings() if matches(k, a.prop, c.name, con['info'])]
            (known if f else violations).append((c.name, con, f))
        elif con['status'] in ('error', 'nothing', 'timeout'):
            errors.append((c.name, con))
        if s:
            n = len(s['obl'])
            k = sum(o['status'] == 'proved' for o in s['obl'])
            z3c += s['z3_calls']
            z3t += s['z3_time']
            ent.update({'verdict': s['status'], 'obligations': n, 'discharged': k, 'paths': s['paths'],
                        'solver_s': round(s['z3_time'], 2), 'wall_s': round(s['wall'], 2)})
            if s['info']:
                ent['reason'] = s['info']
            if s['status'] == 'proved':
                obligations += n
                discharged += n
                ent['labels'] = sorted({o['label'] for o in s['obl']})
            else:
                ent['level'] = 'bounded'
                ent['bound'] = f"{con.get('evals', 0)} evaluations on the real code"
                if s['status'] == 'refuted':
                    ent['refuted'] = [o for o in s['obl'] if o['status'] != 'proved'][:3]
            if s['status'] == 'refuted' and con['status'] == 'ok':
                if 'replayed' in r:
                    f = [k for k in known_findings() if matches(k, a.prop, c.name, r['replayed']['info'])]
                    (known if f else violations).append((c.name, r['replayed'], f))
                elif led.get(c.name) == 'proved':
                    bad = [o for o in s['obl'] if o['status'] == 'refuted']
                    violations.append((c.name, {'status': 'unreplayed', 'info': bad[0]['label'] + ': ' + bad[0]['info'],
                                                'obligation': bad[0], 'seed': 0, 'idx': 0}, None))
            if s['status'] == 'error':
                errors.append((c.name, s))
        else:
            ent.update({'level': 'bounded', 'bound': f"{con.get('evals', 0)} evaluations on the real code",
                        'reason': c.bounded or 'outside the verifier'})
        listing.append(ent)
    missing = [x for x in cs if x.name not in [r['name'] for r in res]]
    for c in missing:
        errors.append((c.name, {'info': 'not run (time)'}))
    proved = [e['contract'] for e in listing if e.get('verdict') == 'proved']
    bounded = [e['contract'] for e in listing if e.get('verdict') != 'proved']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    lvl = getattr(meta, 'LEVEL', 'proof' if not bounded else 'other')
    if lvl == 'proof' and not obligations:
        lvl = 'other'
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': lvl,
          'coverage': {
              'obligations': obligations, 'discharged': discharged,
              'checker_cmd': f'./check.sh {a.prop} {a.tier}',
              'trusted_base': ['engine (/verif/engine: symbolic interpreter of Python/numpy operations, normal-form prover)',
                               'z3 5.3.2 (index and guard reasoning)', 'CPython 3.12 executing the instrumented source'] +
              list(getattr(meta, 'TRUSTED', [])),
              'backend': {'z3_calls': z3c, 'z3_seconds': round(z3t, 2)},
              'functions_proved': sorted({f for e in listing if e.get('verdict') == 'proved' for f in e['functions']}),
              'functions_bounded': sorted({f for e in listing if e.get('verdict') != 'proved' for f in e['functions']}),
              'contracts_proved': proved, 'contracts_bounded': bounded,
              'evaluations': evals, 'distinct_nontrivial': distinct,
              'rule': 'concrete evaluations of the same contracts on the uninstrumented code (cross-check of the verifier, '
                      'replay, and bounded stand-in); seeded random sizes/contents; distinct = different size/choice tuples',
              'samples': samples or ['none'],
              'explanation': getattr(meta, 'EXPLANATION', 'functional contracts on the real functions; proved contracts hold for '
                                     'all sizes and contents, bounded ones were evaluated on the listed number of inputs'),
              'contracts': listing},
          'assumptions': list(getattr(meta, 'ASSUMPTIONS', [])) + [
              'machine floating point treated as exact complex arithmetic', 'divisors are non-zero, matrices invertible',
              'numpy operations behave as interpreted in engine/npshim.py (cross-checked by the concrete evaluations)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    if not os.environ.get('DGA_NO_EVIDENCE'):
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if a.dev or a.write_ledger or a.verbose:
        for e in listing:
            print(e['contract'], e['concrete'], e.get('evaluations'), e.get('verdict', '-'), e.get('obligations', ''),
                  f"{e.get('wall_s', '')}s", e.get('reason', '')[:300], [(x['label'], x['info'][:500], x['model']) for x in e.get('refuted', [])][:2])
    if a.write_ledger:
        L = ledger()
        L[a.prop] = {e['contract']: e.get('verdict', 'bounded') for e in listing}
        json.dump(L, open(os.path.join(HERE, 'ledger.json'), 'w'), indent=1, sort_keys=True)
    for n, con, f in known:
        print(f"KNOWN-FINDING: property={a.prop} {f[0]['what']}")
    rc = 0
    if violations:
        rc = 1
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for n, con, _ in violations[:5]:
            p = os.path.join(d, f'{a.prop}_{n}.json')
            json.dump({'property': a.prop, 'contract': n, 'functions': by[n].funcs, 'seed': con.get('seed'), 'idx': con.get('idx'),
                       'forced': con.get('forced'), 'ints': con.get('ints'), 'what': con.get('info'),
                       'obligation': con.get('obligation'), 'tier': a.tier}, open(p, 'w'), indent=1, default=str)
            print(f'{n}: {str(con.get("info"))[:400]}')
            tail = ' no-failing-input-found' if con['status'] == 'unreplayed' else ''
            print(f'VIOLATION property={a.prop} replay={p}{tail}')
    elif errors:
        for n, e in errors:
            print(f'note: contract {n} gave no verdict on this run: {str(e.get("info"))[:1500 if a.dev else 300]}')
    print(f'{a.prop}: {len(proved)} contracts proved ({discharged}/{obligations} obligations), {len(bounded)} bounded, '
          f'{evals} concrete evaluations, {len(violations)} violations, {time.time() - t0:.1f}s')
    return rc


def replay(path):
    d = json.load(open(path))
    load(d['property'])
    c = [x for x in reg.REG[d['property']] if x.name == d['contract']][0]
    if d.get('obligation') and not d.get('forced'):
        s = run1.run_symbolic(c, 'quick', 120)
        print(json.dumps([o for o in s['obl'] if o['status'] != 'proved'][:3], indent=1, default=str))
        return 1 if s['status'] == 'refuted' else 0
    r = run1.one_concrete(c, d['seed'], d['idx'], d.get('forced'), d.get('tier', 'quick'))
    print(r[0], r[1], r[2])
    return 1 if r[0] == 'violation' else 0


if __name__ == '__main__':
    rc = main()
    mpl = os.environ.get('MPLCONFIGDIR', '')
    if mpl.startswith('/tmp/verif_mpl_'):
        shutil.rmtree(mpl, ignore_errors=True)
    sys.exit(rc)
