"""C16 the lambda correction shifts inverse susceptibilities and restores the sum rule."""
from contracts.c06 import grid
from engine.env import Missing
from engine import wholerun
from engine.reg import contract

L = 'lambda_correction'
ASSUMPTIONS = ['the Newton iteration is stated through the value it returns (bounded); the callers are proved for an arbitrary returned lambda']


class Single:
    """lambda_correction_single by its contract: some real lambda for the susceptibility, beta and local sum it is given"""
    def __init__(self, E, lc, names):
        import inspect
        self.E, self.calls, self.names = E, [], list(names)
        self.sig = inspect.signature(lc.lambda_correction_single)
        lc.lambda_correction_single = self

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k).arguments
        lam = self.E.real(self.names[len(self.calls)])
        self.calls.append((b, lam))
        return lam


@contract('C16', [f'{L}.use_lambda'], reps=60)
def shifted_inverse(E):
    lc = E.mod(L)
    nk, nw = grid(E, 3), E.int('nw', lo=1, cmax=5)
    C, lam = E.array('chi', nk + (nw,)), E.real('lambda')
    E.eq('1/(1/chi + lambda)', lc.use_lambda(C.a, lam), nk + (nw,), lambda a, b, c, w: 1 / (1 / C(a, b, c, w) + lam))
    E.unchanged('frame', C)


@contract('C16', [f'{L}.get_lambda_start'], reps=60)
def smallest_allowed_lambda(E):
    """minus the smallest static inverse susceptibility"""
    lc = E.mod(L)
    nk, nw = grid(E, 3), E.int('niw', lo=0, cmax=3)
    C = E.array('chi', nk + (2 * nw + 1,))
    inv = E.given('inv', nk, lambda a, b, c: 1 / E.re(C(a, b, c, nw)), kind='f')
    E.scalar('-min 1/chi(q, 0)', lc.get_lambda_start(C.a), -E.np.min(inv.a))
    E.unchanged('frame', C)


def scene(E):
    nk, nw = grid(E, 3), E.int('niw', lo=0, cmax=3)
    n = 2 * nw + 1
    D, M = E.array('dens', nk + (n,)), E.array('magn', nk + (n,))
    d, m = E.array('locd', (n,)), E.array('locm', (n,))
    return nk, n, D, M, d, m, E.real('beta', pos=True)


@contract('C16', [f'{L}.lambda_correction'], reps=20)
def switched_off(E):
    lc = E.mod(L)
    nk, n, D, M, d, m, beta = scene(E)
    r = lc.lambda_correction(D.a, M.a, beta, d.a, m.a, lambda_corr='none')
    E.eq('dens', r[0], nk + (n,), lambda *k: D(*k))
    E.eq('magn', r[1], nk + (n,), lambda *k: M(*k))
    E.scalar('lambda dens', r[2], 0)
    E.scalar('lambda magn', r[3], 0)
    E.raises('unknown mode', NotImplementedError, lambda: lc.lambda_correction(D.a, M.a, beta, d.a, m.a, lambda_corr='something'))
    E.unchanged('frame', D, M, d, m)


@contract('C16', [f'{L}.lambda_correction'], reps=20)
def both_channels(E):
    """every channel with its own local sum, for any lambda the iteration returns"""
    lc = E.mod(L)
    nk, n, D, M, d, m, beta = scene(E)
    old = lc.lambda_correction_single
    s = Single(E, lc, ['lambda 1', 'lambda 2'])
    try:
        r = lc.lambda_correction(D.a, M.a, beta, d.a, m.a, lambda_corr='spch')
    finally:
        lc.lambda_correction_single = old
    if len(s.calls) != 2:
        raise Missing('lambda_correction_single')
    for i, (nm, C, loc) in enumerate((('dens', D, d), ('magn', M, m))):
        b, lam = [c for c in s.calls if c[1] is r[2 + i]][0]
        E.scalar(f'beta {nm}', b['beta'], beta)
        E.eq(f'susceptibility {nm}', b['chir'], nk + (n,), lambda *k: C(*k))
        E.scalar(f'local sum {nm}', b['chi_loc_sum'], E.sum(0, n, lambda w: loc(w)) / beta)
        E.scalar(f'start {nm}', b['lambda_start'], lc.get_lambda_start(C.a))
        E.eq(f'corrected {nm}', r[i], nk + (n,), lambda *k: 1 / (1 / C(*k) + lam))
    E.unchanged('frame', D, M, d, m)


@contract('C16', [f'{L}.lambda_correction'], reps=20)
def spin_channel_only(E):
    """the total local sum minus the unchanged density channel"""
    lc = E.mod(L)
    nk, n, D, M, d, m, beta = scene(E)
    old = lc.lambda_correction_single
    s = Single(E, lc, ['lambda 1', 'lambda 2'])
    try:
        r = lc.lambda_correction(D.a, M.a, beta, d.a, m.a, lambda_corr='sp')
    finally:
        lc.lambda_correction_single = old
    if len(s.calls) != 1:
        raise Missing('lambda_correction_single')
    b, lam = s.calls[0]
    E.scalar('beta', b['beta'], beta)
    E.eq('susceptibility', b['chir'], nk + (n,), lambda *k: M(*k))
    tot = E.sum(0, n, lambda w: d(w) + m(w)) / beta
    lat = E.sum(0, nk[0], lambda a: E.sum(0, nk[1], lambda x: E.sum(0, nk[2], lambda c: E.sum(0, n, lambda w: D(a, x, c, w))))) / (nk[0] * nk[1] * nk[2])
    E.scalar('sum', b['chi_loc_sum'], tot - lat / beta)
    E.scalar('start', b['lambda_start'], lc.get_lambda_start(M.a))
    E.eq('density untouched', r[0], nk + (n,), lambda *k: D(*k))
    E.scalar('density lambda', r[2], 0)
    E.true('lambda returned', r[3] is lam)
    E.eq('corrected', r[1], nk + (n,), lambda *k: 1 / (1 / M(*k) + lam))
    E.unchanged('frame', D, M, d, m)


def physical(E, spread=None):
    """lattice susceptibility with inverse x_q + a w^2, static part positive after a shift; some start out negative"""
    np, rng = E.np, E.nprng
    nk = (E.int('nkx', lo=1, cmax=5), E.int('nky', lo=1, cmax=5), E.int('nkz', lo=1, cmax=2))
    nw = E.int('niw', lo=0, cmax=6)
    beta = float(rng.uniform(1, 30))
    w = np.arange(-nw, nw + 1)
    inv = rng.uniform(0.05, 3, size=nk)[..., None] + rng.uniform(0.1, 3) * w ** 2 * (1 + 0.3 * rng.random(nk)[..., None])
    inv = inv - E.choice('offset', [0.0, 0.3, 1.0, -0.5])     # ladder value possibly unphysical
    inv[np.abs(inv) < 1e-3] = 1e-3
    lam = -np.min(inv[..., nw]) + float(rng.choice([0.01, 0.05, 0.1, 0.3, 1.0, 4.0])) * float(rng.uniform(0.5, 2))
    chi = 1 / inv + 0j
    return nk, nw, beta, chi, lam


def total(np, chi, beta):
    return np.mean(np.sum(chi, axis=-1)).real / beta


@contract('C16', [f'{L}.lambda_correction_single'], reps=40)
def newton_iteration_stays_physical_and_stops_on_the_sum_rule(E):
    """loop invariant: the trial value stays above the start; the loop is left with |Re f| < eps one Newton step before the result"""
    lc = E.mod(L)
    nk, nw = grid(E, 3), E.int('nw', lo=1, cmax=5)
    beta, start, target = E.real('beta', pos=True), E.real('lambda_start'), E.real('chi_loc_sum')
    eps, delta, n = E.real('eps', pos=True), E.real('delta', pos=True), E.int('maxiter', lo=0, cmax=30)
    C = E.array('chi', nk + (nw,))
    head = {}

    def arbitrary(_):
        head.update(delta=E.real('some delta'), lambda_=E.real('some lambda'))
        head['lambda_old'] = head['lambda_']
        return head

    used = E.loop(f'{L}.lambda_correction_single', ('delta', 'lambda_', 'lambda_old'), arbitrary, lambda v: [
        ('the trial value is above the start', v['lambda_'] > start), ('delta is positive', v['delta'] > 0),
        ('both copies of the trial value agree', v['lambda_'] == v['lambda_old'])])
    got = lc.lambda_correction_single(beta, lambda_start=start, chir=C.a, chi_loc_sum=target, maxiter=n, eps=eps, delta=delta)
    used()
    E.unchanged('frame', C)
    if not E.sym:
        return
    lam = head['lambda_']
    if got is lam:
        E.true('not converged: still above the start', got > start)
        return
    tot = nk[0] * nk[1] * nk[2]

    def mean(p):
        return E.sum(0, nk[0], lambda a: E.sum(0, nk[1], lambda b: E.sum(0, nk[2], lambda c: E.sum(0, nw, lambda w: (1 / (1 / C(a, b, c, w) + lam)) ** p)))) / tot / beta
    f, df = mean(1) - target, -mean(2)
    E.scalar('one Newton step', got, lam - E.re(f / df))
    E.true('the sum rule is met within eps', E.abs(E.re(f)) < eps)
    E.true('above the start', lam > start)


@contract('C16', [f'{L}.lambda_correction_single', f'{L}.get_lambda_start'], reps=200, sym=False,
          bounded='convergence of a Newton iteration with a data dependent stop; the returned lambda is checked')
def sum_rule_of_one_channel(E):
    lc, np = E.mod(L), E.np
    nk, nw, beta, chi, lam = physical(E)
    target = total(np, 1 / (1 / chi + lam), beta)
    c0 = chi.copy()
    start = lc.get_lambda_start(chi)
    got = lc.lambda_correction_single(beta, lambda_start=start, chir=chi, chi_loc_sum=target)
    new = lc.use_lambda(chi, got)
    E.true('sum rule', abs(total(np, new, beta) - target) < 2e-6 * max(1, target))
    E.true('positive static susceptibility', bool(np.all(new[..., nw].real > 0)))
    E.true('frame', bool(np.array_equal(chi, c0)))


@contract('C16', [f'{L}.lambda_correction'], reps=150, sym=False, bounded='convergence of a Newton iteration; the returned values are checked')
def sum_rules_of_the_modes(E):
    lc, np = E.mod(L), E.np
    nk, nw, beta, M, lm = physical(E)
    inv = E.nprng.uniform(0.2, 3, size=nk)[..., None] + np.arange(-nw, nw + 1) ** 2 * 1.3
    D, ld = 1 / inv + 0j, float(E.nprng.uniform(-0.1, 0.5))
    sd, sm = total(np, 1 / (1 / D + ld), beta), total(np, 1 / (1 / M + lm), beta)
    sh = E.nprng.random(2 * nw + 1)
    sh = sh / sh.sum()
    locd, locm = sd * beta * sh, sm * beta * np.roll(sh, 1)
    mode = E.choice('mode', ['spch', 'sp'])
    D0, M0 = D.copy(), M.copy()
    if mode == 'sp':
        locd = locd + (total(np, D, beta) - sd) * beta * sh
    cd, cm, xd, xm = lc.lambda_correction(D, M, beta, locd, locm, lambda_corr=mode)
    tol = 2e-6 * max(1, abs(sd), abs(sm))
    E.true('magnetic shift', bool(np.allclose(cm, 1 / (1 / M0 + xm), rtol=1e-9)))
    E.true('magnetic positive', bool(np.all(cm[..., nw].real > 0)))
    if mode == 'spch':
        E.true('density shift', bool(np.allclose(cd, 1 / (1 / D0 + xd), rtol=1e-9)))
        E.true('density positive', bool(np.all(cd[..., nw].real > 0)))
        E.true('density sum', abs(total(np, cd, beta) - np.sum(locd) / beta) < tol)
        E.true('magnetic sum', abs(total(np, cm, beta) - np.sum(locm) / beta) < tol)
    else:
        E.true('density untouched', bool(np.array_equal(cd, D0)) and xd == 0)
        E.true('total sum', abs(total(np, cd, beta) + total(np, cm, beta) - np.sum(locd + locm) / beta) < tol)
    E.true('frame', bool(np.array_equal(D, D0) and np.array_equal(M, M0)))


@contract('C16', wholerun.PARTS + [f'{L}.lambda_correction'], sym=False, reps=14, bounded=wholerun.BOUNDED)
def sum_rules_of_a_whole_run(E):
    """the written susceptibilities are the ladder shifted by the written lambdas and obey the sum rules of the mode"""
    i = wholerun.draw(E)
    d = wholerun.run(E, i)
    o = wholerun.reference(E, i)
    chi, np = wholerun.susceptibilities(i, d), E.np
    lam = dict(zip(chi, np.ravel(np.loadtxt(d + 'lambda.txt'))))
    total = {c: (chi[c].sum(-1).mean() / i.beta).real for c in chi}
    loc = {c: (o.chi_loc[c].sum() / i.beta).real for c in chi}
    if i.corr == 'spch':  # a sum of shifted susceptibilities above the start of the search is positive
        E.assume(min(loc.values()) > 1e-3)
    elif i.corr == 'sp':
        E.assume(sum(loc.values()) - total['dens'] > 1e-3)
    for c in chi:
        E.true(f'one shift {c}', np.max(np.abs(1 / chi[c] - 1 / o.chi[c] - lam[c])) < 1e-5)
    if i.corr == 'none':
        E.true('no shift', lam['dens'] == 0 and lam['magn'] == 0)
    elif i.corr == 'sp':
        E.true('density untouched', lam['dens'] == 0)
        E.true('total sum', abs(sum(total.values()) - sum(loc.values())) < 1e-5, f'{total} {loc}')
    else:
        for c in chi:
            E.true(f'sum of the channel {c}', abs(total[c] - loc[c]) < 1e-5, f'{total} {loc}')
    for c in chi:
        if i.corr != 'none' and not (i.corr == 'sp' and c == 'dens'):
            E.true(f'static susceptibility stays positive {c}', bool(np.all(chi[c][:, i.niw].real > 0)))
