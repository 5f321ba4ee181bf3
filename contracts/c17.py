"""C17 the Eliashberg iteration returns eigenpairs of the pairing operator."""
from contracts.c06 import grid
from contracts.c11 import Obj
from engine.reg import contract

EQ = 'eliashberg_equation'
ASSUMPTIONS = ['numpy.fft.fftn / ifftn obey the convolution theorem (assumed contract of the dependency; compared with the plain convolution on samples)',
               'that the power iteration does converge is not stated; what it returns is (one application to a vector, estimate stable within eps)']


def scene(E):
    eq = E.mod(EQ)
    nk, nv = grid(E, 3), E.int('nv', lo=1, cmax=2)
    n = 2 * nv
    A, G, g = E.array('gamma', nk + (n, n)), E.array('g', nk + (n,)), E.array('gap', nk + (n,))
    return eq, nk, n, A, G, g, E.real('norm', pos=True)


def inner(E, nk, n, f, h):
    return E.sum(0, nk[0], lambda a: E.sum(0, nk[1], lambda b: E.sum(0, nk[2], lambda c: E.sum(0, n, lambda v: E.conj(f(a, b, c, v)) * h(a, b, c, v)))))


def applied(E, A, G, gap, norm, axes=(0, 1, 2)):
    """fft( 1/norm sum_v' fft(Gamma)_vv' ifft(gap |G|^2)_v' )"""
    np = E.np
    h = np.fft.ifftn(gap * np.abs(G) ** 2, axes=axes)
    return np.fft.fftn(1. / norm * np.sum(np.fft.fftn(A, axes=axes) * h[..., None, :], axis=-1), axes=axes)


@contract('C17', [f'{EQ}.EliashberPowerIteration.__init__', f'{EQ}.EliashberPowerIteration.get_eig',
                  f'{EQ}.EliashberPowerIteration.power_iteration'], reps=40, budget=120)
def one_application(E):
    """a single step: eigenvalue estimate <gap, O gap>/<gap, gap> and gap O gap / estimate"""
    eq, nk, n, A, G, g, norm = scene(E)
    p = eq.EliashberPowerIteration(gamma=A.a, gk=G.a, gap0=g.a, norm=norm, max_count=0, shift_mat=False)
    O = applied(E, A.a, G.a, g.a, norm)
    num = inner(E, nk, n, g, lambda *k: E.get(O, *k))
    den = inner(E, nk, n, g, g)
    lam = num / den
    E.scalar('estimate', E.get(p.lam, 0), lam)
    E.eq('gap', p.gap[0], nk + (n,), lambda *k: E.get(O, *k) / lam)
    E.unchanged('frame', A, G, g)


@contract('C17', [f'{EQ}.EliashberPowerIteration.power_iteration'], reps=40, budget=120)
def shifted_application(E):
    """with a shift the operator is O - shift"""
    eq, nk, n, A, G, g, norm = scene(E)
    p = eq.EliashberPowerIteration(gamma=A.a, gk=G.a, gap0=g.a, norm=norm, max_count=0, shift_mat=False)
    s = E.real('shift')
    p.gap, p.lam_s, p.shift_mat = [], s, True
    lam, gap = p.power_iteration()
    O = applied(E, A.a, G.a, g.a, norm)
    den = inner(E, nk, n, g, g)
    want = inner(E, nk, n, g, lambda *k: E.get(O, *k) - s * g(*k)) / den
    E.scalar('estimate', lam, want)
    E.eq('gap', gap, nk + (n,), lambda *k: (E.get(O, *k) - s * g(*k)) / want)


@contract('C17', [f'{EQ}.EliashberPowerIteration.power_iteration'], reps=40, budget=120)
def deflated_application(E):
    """gaps found before are projected out of the vector the operator acts on"""
    eq, nk, n, A, G, g, norm = scene(E)
    p = eq.EliashberPowerIteration(gamma=A.a, gk=G.a, gap0=g.a, norm=norm, max_count=0, shift_mat=False)
    u = E.array('u', nk + (n,))
    p.gap, p.lam_s = [u.a], None
    lam, gap = p.power_iteration()
    c = inner(E, nk, n, u, g) / inner(E, nk, n, u, u)
    P = E.given('P', nk + (n,), lambda *k: g(*k) - c * u(*k))
    O = applied(E, A.a, G.a, P.a, norm)
    want = inner(E, nk, n, P, lambda *k: E.get(O, *k)) / inner(E, nk, n, P, P)
    E.scalar('estimate', lam, want)
    E.eq('gap', gap, nk + (n,), lambda *k: E.get(O, *k) / want)


@contract('C17', [f'{EQ}.gram_schmidt_eliash', f'{EQ}.proj_eliash'], reps=60, budget=120)
def gaps_found_before_are_projected_out(E):
    eq = E.mod(EQ)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=3)
    v, G = E.array('v', nk + (n,)), E.array('g', nk + (n,))
    m = E.choice('found', [0, 1, 2])
    us = [E.array(f'u{i}', nk + (n,)) for i in range(m)]
    r = eq.gram_schmidt_eliash(v=v.a, basis=[u.a for u in us], gk=G.a)
    cs = [inner(E, nk, n, u, v) / inner(E, nk, n, u, u) for u in us]
    E.eq('v - sum <u,v>/<u,u> u', r, nk + (n,), lambda *k: v(*k) - sum((c * u(*k) for c, u in zip(cs, us)), 0))
    E.unchanged('frame', v, *us)


@contract('C17', [f'{EQ}.gram_schmidt_eliash', f'{EQ}.proj_eliash'], reps=40)
def result_is_orthogonal_to_a_gap(E):
    eq = E.mod(EQ)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=3)
    v, u, G = E.array('v', nk + (n,)), E.array('u', nk + (n,)), E.array('g', nk + (n,))
    r = eq.gram_schmidt_eliash(v=v.a, basis=[u.a], gk=G.a)
    E.scalar('<u,r> = 0', inner(E, nk, n, u, lambda *k: E.get(r, *k)), 0)


@contract('C17', [f'{EQ}.gram_schmidt_eliash'], reps=60, sym=False, bounded='cancellation of <u,u> against its inverse inside a sum')
def result_is_orthogonal(E):
    eq, np = E.mod(EQ), E.np
    sh = tuple(int(E.nprng.integers(1, 4)) for _ in range(3)) + (int(E.nprng.integers(3, 6)),)
    c = lambda: E.nprng.normal(size=sh) + 1j * E.nprng.normal(size=sh)
    u, w, v = c(), c(), c()
    w = w - np.sum(u.conj() * w) / np.sum(u.conj() * u) * u
    r = eq.gram_schmidt_eliash(v=v, basis=[u, w], gk=c())
    E.true('orthogonal', abs(np.sum(u.conj() * r)) < 1e-10 and abs(np.sum(w.conj() * r)) < 1e-10)


@contract('C17', [f'{EQ}.symmetrize_gamma'], reps=60)
def symmetrised_vertices(E):
    eq = E.mod(EQ)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=5)
    A = E.array('gamma', nk + (n, n))
    ch = E.choice('channel', ['sing', 'trip'])
    s = 1 if ch == 'sing' else -1
    r = eq.symmetrize_gamma(A.a, ch)
    E.eq('(gamma +- reversed)/2', r, nk + (n, n), lambda a, b, c, v, w: (A(a, b, c, v, w) + s * A(a, b, c, v, n - 1 - w)) / 2)
    E.eq('parity', r, nk + (n, n), lambda a, b, c, v, w: s * E.get(r, a, b, c, v, n - 1 - w))
    E.eq('twice', eq.symmetrize_gamma(r, ch), nk + (n, n), lambda *k: E.get(r, *k))
    E.raises('unknown channel', ValueError, lambda: eq.symmetrize_gamma(A.a, 'dens'))
    E.unchanged('frame', A)


@contract('C17', [f'{EQ}.get_gap_start', f'{EQ}.d_wave', f'{EQ}.p_wave_x', f'{EQ}.p_wave_y'], reps=60)
def starting_gaps(E):
    eq = E.mod(EQ)
    nk, nv = grid(E, 3), E.int('nv', lo=1, cmax=3)
    kx, ky, kz = (E.array(f'k{c}', (m,), kind='f') for c, m in zip('xyz', nk))
    kt = E.choice('momentum', ['d-wave', 'p-wave-x', 'p-wave-y'])
    vt = E.choice('frequency', ['even', 'odd'])
    sh = nk[:2] + (1,)
    g = eq.get_gap_start(shape=nk[:2] + (1, 2 * nv), k_type=kt, v_type=vt, k_grid=(kx.a, ky.a, kz.a))

    def form(a, b):
        if kt == 'd-wave':
            return E.cos(ky(b)) - E.cos(kx(a))
        return E.sin(kx(a)) if kt == 'p-wave-x' else E.sin(ky(b))
    E.eq('form and parity', g, sh + (2 * nv,), lambda a, b, c, v: E.ite(v < nv, lambda: (1 if vt == 'even' else -1) * form(a, b), lambda: form(a, b)))
    E.eq('parity', g, sh + (2 * nv,), lambda a, b, c, v: (1 if vt == 'even' else -1) * E.get(g, a, b, c, 2 * nv - 1 - v))


@contract('C17', [f'{EQ}.get_gap_start'], reps=60, sym=False, bounded='random start')
def random_starting_gaps(E):
    eq, np = E.mod(EQ), E.np
    sh = tuple(E.int(f'n{i}', lo=1, cmax=4) for i in range(3)) + (2 * E.int('nv', lo=1, cmax=4),)
    k = [2 * np.pi * np.arange(m) / m for m in sh[:3]]
    vt = E.choice('frequency', ['even', 'odd', 'random'])
    kt = E.choice('momentum', ['random', 'd-wave', 'p-wave-y'])
    if sh[2] > 1 and kt != 'random':
        sh = sh[:2] + (1,) + sh[3:]
    g = eq.get_gap_start(shape=sh, k_type=kt, v_type=vt, k_grid=k)
    E.true('shape', g.shape == sh and bool(np.any(g != 0) or kt != 'random'))
    if vt != 'random':
        E.true('parity', bool(np.allclose(g, (1 if vt == 'even' else -1) * g[..., ::-1])))


def physical(E, nk=None, herm=True):
    np, rng = E.np, E.nprng
    nk = nk or tuple(int(rng.integers(1, 4)) for _ in range(3))
    n = 2 * int(rng.integers(1, 3))
    A = rng.normal(size=nk + (n, n)) + 1j * rng.normal(size=nk + (n, n))
    R = A
    for ax in range(3):
        R = np.roll(np.flip(R, ax), 1, axis=ax)
    A = (A + np.conj(np.swapaxes(R, -1, -2))) / 2
    G = rng.uniform(0.5, 1.5, size=nk + (n,)) * np.exp(1j * rng.uniform(0, 6, size=nk + (n,)))
    if not herm:
        A = rng.normal(size=nk + (n, n)) + 1j * rng.normal(size=nk + (n, n))
    return nk, n, A, G


def dense(np, nk, n, A, G, norm):
    """matrix of (O x)(k, v) = 1/norm sum_q,v' Gamma(q - k)_vv' |G(q, v')|^2 x(q, v')"""
    N = nk[0] * nk[1] * nk[2]
    ks = [np.unravel_index(i, nk) for i in range(N)]
    M = np.zeros((N, n, N, n), complex)
    for i, k in enumerate(ks):
        for j, q in enumerate(ks):
            d = tuple((a - b) % m for a, b, m in zip(q, k, nk))
            M[i, :, j, :] = A[d] * np.abs(G[q]) ** 2 / norm
    return M.reshape(N * n, N * n)


@contract('C17', [f'{EQ}.EliashberPowerIteration.__init__', f'{EQ}.EliashberPowerIteration.power_iteration'], reps=40, budget=120)
def one_application_is_the_momentum_sum(E):
    """a single step without shift: <gap, O gap>/<gap, gap> and O gap over it, O the plain sum over momenta and frequencies"""
    E.convolution_theorem()
    eq, nk, n, A, G, g, norm = scene(E)
    p = eq.EliashberPowerIteration(gamma=A.a, gk=G.a, gap0=g.a, norm=norm, max_count=0, shift_mat=False)

    def O(a, b, c, v):
        return E.sum(0, nk[0], lambda x: E.sum(0, nk[1], lambda y: E.sum(0, nk[2], lambda z: E.sum(0, n, lambda w: A(
            E.mod_n(x - a, nk[0]), E.mod_n(y - b, nk[1]), E.mod_n(z - c, nk[2]), v, w) * E.abs(G(x, y, z, w)) ** 2 * g(x, y, z, w))))) / norm
    lam = inner(E, nk, n, g, O) / inner(E, nk, n, g, g)
    E.scalar('estimate', E.get(p.lam, 0), lam)
    E.eq('gap', p.gap[0], nk + (n,), lambda *k: O(*k) / lam)


@contract('C17', [f'{EQ}.EliashberPowerIteration.power_iteration'], reps=60, sym=False,
          bounded='numpy.fft itself evaluated, not assumed: sampled grids')
def operator_is_the_convolution(E):
    eq, np = E.mod(EQ), E.np
    nk, n, A, G = physical(E, herm=False)
    norm = float(E.nprng.uniform(0.5, 30))
    g = E.nprng.normal(size=nk + (n,)) + 1j * E.nprng.normal(size=nk + (n,))
    p = eq.EliashberPowerIteration(gamma=A, gk=G, gap0=g, norm=norm, max_count=0, shift_mat=False)
    x = g.reshape(-1)
    y = dense(np, nk, n, A, G, norm) @ x
    lam = np.vdot(x, y) / np.vdot(x, x)
    E.true('estimate', bool(np.allclose(p.lam[0], lam)))
    E.true('gap', bool(np.allclose(p.gap[0].reshape(-1), y / lam)))


@contract('C17', [f'{EQ}.EliashberPowerIteration.get_eig', f'{EQ}.EliashberPowerIteration.power_iteration'], reps=40, sym=False,
          bounded='convergence of the power iteration; returned pairs are checked against the dense operator')
def converged_eigenpairs(E):
    eq, np = E.mod(EQ), E.np
    nk, n, A, G = physical(E)
    flat = E.choice('|G|', ['constant', 'any'])
    if flat == 'constant':
        G = G / np.abs(G)
    norm = 2.0
    M = dense(np, nk, n, A, G, norm)
    ev = np.sort(np.linalg.eigvals(M).real)[::-1]
    ne = E.choice('n_eig', [1, 2])
    shift = E.choice('shift', [True, False])
    order = ev if shift else ev[np.argsort(-np.abs(ev))]
    low = abs(ev[-1]) if ev[-1] < 0 else 0
    e2 = np.sort(np.abs(ev - (-low if shift else 0)))[::-1]
    E.assume(len(ev) > ne + 1 and all(e2[i + 1] < 0.93 * e2[i] for i in range(ne)))
    # the shift is the eigenvalue of largest modulus when that one is negative
    big = ev[np.argmax(np.abs(ev))]
    a2 = np.sort(np.abs(ev))[::-1]
    if shift:
        E.assume(a2[1] < 0.93 * a2[0])
        if big > 0:
            E.assume(all(a2[i + 1] < 0.93 * a2[i] for i in range(ne)))
            order = ev[np.argsort(-np.abs(ev))]
    np.random.seed(int(E.nprng.integers(1 << 30)))
    g = E.nprng.normal(size=nk + (n,)) + 1j * E.nprng.normal(size=nk + (n,))
    p = eq.EliashberPowerIteration(gamma=A, gk=G, gap0=g, norm=norm, eps=1e-13, max_count=20000, shift_mat=shift, n_eig=ne)
    E.true('eigenvalues', bool(np.allclose(p.lam[:ne], order[:ne], atol=1e-5)))
    E.true('number', len(p.lam) == ne and len(p.gap) == ne)
    x = p.gap[0].reshape(-1)
    E.true('eigenvalue equation', np.linalg.norm(M @ x - p.lam[0] * x) < 1e-4 * np.linalg.norm(x))
    if flat == 'constant' and ne == 2:
        y = p.gap[1].reshape(-1)
        E.true('second pair', np.linalg.norm(M @ y - p.lam[1] * y) < 1e-4 * np.linalg.norm(y))
        E.true('orthogonal', abs(np.vdot(x, y)) < 1e-5 * np.linalg.norm(x) * np.linalg.norm(y))


@contract('C17', [f'{EQ}.linear_eliashberg'], reps=40, sym=False, bounded='driver: convergence of the power iteration, data from file')
def driver(E):
    """pairing vertex with the minus sign, symmetrised if requested, cut Green's function, norm N_q beta"""
    eq, np = E.mod(EQ), E.np
    nk = tuple(int(E.nprng.integers(1, 4)) for _ in range(2)) + (1,)
    npp, core = int(E.nprng.integers(1, 3)), int(E.nprng.integers(2, 5))
    n = 2 * npp
    F = E.nprng.normal(size=nk + (n, n)) + 1j * E.nprng.normal(size=nk + (n, n))
    G = E.nprng.normal(size=nk + (2 * core,)) + 1j * E.nprng.normal(size=nk + (2 * core,))
    ch, sy = E.choice('channel', ['sing', 'trip']), E.choice('symmetrise', [True, False])
    kt = E.choice('momentum', ['d-wave', 'p-wave-x', 'p-wave-y'])
    E.assume(core >= npp)
    ks = [2 * np.pi * np.arange(m) / m + 0.1 for m in nk]
    beta = float(E.nprng.uniform(1, 20))
    files = {}

    class El:
        sym_sing = sy if ch == 'sing' else not sy
        sym_trip = sy if ch == 'trip' else not sy
        gap0_sing = {'k': kt, 'v': 'even'} if ch == 'sing' else {'k': 'd-wave', 'v': 'odd'}
        gap0_trip = {'k': kt, 'v': 'odd'} if ch == 'trip' else {'k': 'd-wave', 'v': 'even'}
        eps, max_count, n_eig, output_path = 1e-3, 0, 1, '/nowhere/'

        def load_data(self, name):
            files[name] = 1
            return F.copy() if name == f'F_{ch}_pp' else F * 0 + 7
    cfg = Obj(box=Obj(niv_pp=npp), lattice=Obj(q_grid=Obj(nk_tot=nk[0] * nk[1] * nk[2], grid=ks, nk=nk)), sys=Obj(beta=beta), eliash=El(), verbosity=0)
    p = eq.linear_eliashberg(cfg, Obj(core=G), ch, shift_mat=False)
    s = 1 if ch == 'sing' else -1
    gam = -F
    if sy:
        gam = (gam + s * gam[..., ::-1]) / 2
    Gc = G[..., core - npp:core + npp]
    M = dense(np, nk, n, gam, Gc, nk[0] * nk[1] * beta)
    g0 = {'d-wave': np.cos(ks[1])[None] - np.cos(ks[0])[:, None], 'p-wave-x': np.sin(ks[0])[:, None] + 0 * ks[1][None],
          'p-wave-y': np.sin(ks[1])[None] + 0 * ks[0][:, None]}[kt][:, :, None, None] * np.concatenate((s * np.ones(npp), np.ones(npp)))
    x = g0.reshape(-1)
    E.assume(np.max(np.abs(x)) > 1e-6)
    y = M @ x
    lam = np.vdot(x, y) / np.vdot(x, x)
    E.true('eigenvalue estimate', bool(np.allclose(p.lam[0], lam)))
    E.true('gap', bool(np.allclose(p.gap[0].reshape(-1), y / lam)))
    E.raises('unknown channel', ValueError, lambda: eq.linear_eliashberg(cfg, Obj(core=G), 'dens'))


@contract('C17', [f'{EQ}.gram_schmidt', f'{EQ}.proj', f'{EQ}.remove_prev_eigenvals'], reps=60, budget=120)
def plain_projections(E):
    eq = E.mod(EQ)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=3)
    v = E.array('v', nk + (n,), kind='r')
    m = E.choice('found', [0, 1, 2])
    us = [E.array(f'u{i}', nk + (n,)) for i in range(m)]
    ls = [E.cplx(f'l{i}') for i in range(m)]
    cs = [inner(E, nk, n, u, v) / inner(E, nk, n, u, u) for u in us]
    for u, c in zip(us, cs):
        E.eq('<u,v>/<u,u> u', eq.proj(v=v.a, u=u.a), nk + (n,), lambda *k: c * u(*k))
    r = eq.gram_schmidt(v=v.a, basis=[u.a for u in us])
    E.eq('v - sum <u,v>/<u,u> u', r, nk + (n,), lambda *k: v(*k) - sum((c * u(*k) for c, u in zip(cs, us)), 0))
    ds = [l * inner(E, nk, n, u, v) for l, u in zip(ls, us)]
    r = eq.remove_prev_eigenvals(v.a, [u.a for u in us], ls)
    E.eq('v - sum lambda <u,v> u', r, nk + (n,), lambda *k: v(*k) - sum((d * u(*k) for d, u in zip(ds, us)), 0))
    E.unchanged('frame', v, *us)


@contract('C17', [f'{EQ}.EliashberPowerIteration.power_iteration', f'{EQ}.gram_schmidt_eliash'], reps=30, budget=600)
def pair_returned_after_any_number_of_iterations(E):
    """loop invariant: once converged, estimate and gap are one application of the operator to a vector from which the gaps found
    before are projected out, and the estimate moved by less than eps (or the iterations are used up)"""
    eq, nk, n, A, G, g, norm = scene(E)
    found, shifted = E.choice('gaps found before, shift', [(0, True), (0, False), (1, False)])
    us = [E.array(f'u{i}', nk + (n,)) for i in range(found)]
    eps, limit = E.real('eps', pos=True), E.int('limit', lo=0, cmax=6)
    p = eq.EliashberPowerIteration(gamma=A.a, gk=G.a, gap0=g.a, norm=norm, max_count=0, shift_mat=False)
    s = E.real('shift value')
    p.gap, p.lam_s, p.eps, p.max_count = [u.a for u in us], s if shifted else None, eps, limit
    sh = nk + (n,)
    last = {}

    def step(h, tag):
        """-> vector, operator applied to it, estimate"""
        f = lambda *k: E.get(h, *k)
        cs = [inner(E, nk, n, u, f) / inner(E, nk, n, u, u) for u in us]
        P = E.given('P' + tag, sh, lambda *k: f(*k) - sum((c * u(*k) for c, u in zip(cs, us)), 0))
        O = applied(E, A.a, G.a, P.a, norm)
        new = (lambda *k: E.get(O, *k) - s * P(*k)) if shifted else (lambda *k: E.get(O, *k))
        return P, new, inner(E, nk, n, P, new) / inner(E, nk, n, P, P)

    def arbitrary(_):
        h = E.array('some gap', sh).a
        old, count = E.cplx('some estimate'), E.int('some count', lo=0)
        last.update(h=h, old=old)
        if E.choice('left', [False, True]):
            P, new, lam = step(h, ' left')
            last['count'] = count
            return dict(gap_old=E.given('gap left', sh, lambda *k: new(*k) / lam).a, lambda_old=lam, lambda_new=lam, count=count, converged=True)
        return dict(gap_old=h, lambda_old=old, lambda_new=E.cplx('unused'), count=count, converged=False)

    def holds(v):
        if not v['converged'] or 'h' not in last:
            return []
        P, new, lam = step(last['h'], ' end')
        return [('the gap is one application', E.agrees(v['gap_old'], sh, lambda *k: new(*k) / lam)),
                ('the estimate belongs to it', E.agrees([v['lambda_new']], (1,), lambda i: lam)),
                ('converged or at the limit', (E.abs(v['lambda_new'] - last['old']) < eps) | (v['count'] > limit))]

    used = E.loop(f'{EQ}.EliashberPowerIteration.power_iteration', ('gap_old', 'lambda_old', 'lambda_new', 'count', 'converged'), arbitrary, holds)
    lam, gap = p.power_iteration()
    used()
    E.unchanged('frame', A, G, g, *us)
    if not E.sym:
        return
    P, new, want = step(last['h'], ' result')
    E.scalar('Rayleigh quotient', lam, want)
    E.eq('gap', gap, sh, lambda *k: new(*k) / want)
    E.true('converged or at the limit', (E.abs(lam - last['old']) < eps) | (last['count'] > limit))
