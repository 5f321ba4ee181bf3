"""C15 Green's functions satisfy Dyson's equation; filling, mu and energies are consistent with them."""
from contracts.c06 import grid
from contracts.c11 import Obj
from contracts.c14 import full, nu, tail
from engine.env import Missing
from engine import wholerun
from engine.reg import contract

TP = 'two_point'
ASSUMPTIONS = ['scipy.optimize.newton and minimize return a root / minimum of the function they are given (proved: which function that is; bounded: what they return)',
               'the tail sum of the filling beyond the box is left to the model Green\'s function, as in the code']


def called(calls):
    """the stand-in was used: otherwise the code has another structure and this contract says nothing"""
    if not calls:
        raise Missing('the function a stand-in replaces is not called')


def scene(E):
    """self-energy of any size and core on any grid, dispersion, tail size, chemical potential"""
    tp = E.mod(TP)
    nk = grid(E, 3)
    n, c, t = E.int('niv', lo=4, cmax=6), E.int('core', lo=1, cmax=6), E.int('tail', lo=0, cmax=4)
    E.assume(c <= n)
    beta, m0, m1, mu = E.real('beta', pos=True), E.real('smom0'), E.real('smom1'), E.real('mu')
    S, K = E.array('S', nk + (n,)), E.array('ek', nk, kind='f')
    s = tp.SelfEnergy(S.a, beta, pos=True, smom0=m0, smom1=m1, niv_core=c)
    return tp, nk, n, c, t, beta, m0, m1, mu, S, K, s


def g_half(E, S, K, k, c, beta, m0, m1, mu):
    """G at positive frequency x, inside and beyond the core"""
    def sig(x):
        return E.ite(x < c, lambda: S(*k, x), lambda: tail(E, beta, m0, m1, x))
    return lambda x: 1 / (E.i * nu(E, beta, x) + mu - K(*k) - sig(x))


def mean(E, nk, f):
    return E.sum(0, nk[0], lambda a: E.sum(0, nk[1], lambda b: E.sum(0, nk[2], lambda d: f(a, b, d)))) / (nk[0] * nk[1] * nk[2])


@contract('C15', [f'{TP}.build_g'], reps=60)
def dysons_equation(E):
    """general frequencies, dispersion and self-energy (not only symmetric ones)"""
    tp = E.mod(TP)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=5)
    V, K, S, mu = E.array('iv', (n,)), E.array('ek', nk, kind='f'), E.array('S', nk + (n,)), E.real('mu')
    E.eq('1/(iv + mu - ek - Sigma)', tp.build_g(V.a, K.a, mu, S.a), nk + (n,), lambda a, b, d, x: 1 / (V(x) + mu - K(a, b, d) - S(a, b, d, x)))
    L = E.array('Sloc', (1, 1, 1, n))
    E.eq('local self-energy', tp.build_g(V.a, K.a, mu, L.a), nk + (n,), lambda a, b, d, x: 1 / (V(x) + mu - K(a, b, d) - L(0, 0, 0, x)))
    E.eq('real frequencies', tp.get_gwk(V.a, S.a, K.a, mu), nk + (n,), lambda a, b, d, x: 1 / (V(x) + mu - K(a, b, d) - S(a, b, d, x)))
    E.eq('local Green function', tp.get_gloc(V.a, K.a, S.a, mu), (n,), lambda x: mean(E, nk, lambda a, b, d: 1 / (V(x) + mu - K(a, b, d) - S(a, b, d, x))))
    E.unchanged('frame', V, K, S, L)


@contract('C15', [f'{TP}.GreensFunction.__init__', f'{TP}.GreensFunction.build_g_core', f'{TP}.GreensFunction.build_asympt',
                  f'{TP}.GreensFunction.g_full', f'{TP}.GreensFunction.set_g_asympt'], reps=60)
def core_and_tail(E):
    tp, nk, n, c, t, beta, m0, m1, mu, S, K, s = scene(E)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=t)
    N = c + t

    def G(k):
        return g_half(E, S, K, k, c, beta, m0, m1, mu)
    E.scalar('mu', g.mu, mu)
    E.scalar('size of the box', g.niv_full, N)
    E.eq('core', g.core, nk + (2 * c,), lambda a, b, d, x: full(E, G((a, b, d)), c)(x))
    E.eq('whole box', g.g_full(), nk + (2 * N,), lambda a, b, d, x: full(E, G((a, b, d)), N)(x))
    E.eq('stored', g.full, nk + (2 * N,), lambda a, b, d, x: full(E, G((a, b, d)), N)(x))
    E.eq('frequencies', g.v, (2 * N,), lambda x: E.pi / beta * (2 * (x - N) + 1))
    E.eq('core frequencies', g.v_core, (2 * c,), lambda x: E.pi / beta * (2 * (x - c) + 1))
    E.unchanged('frame', S, K)


@contract('C15', [f'{TP}.GreensFunction.set_gloc', f'{TP}.GreensFunction.k_mean', f'{TP}.GreensFunction.set_g_asympt'], reps=40, budget=200)
def local_part(E):
    """plain zone average, also after the tail has been changed"""
    tp, nk, n, c, t, beta, m0, m1, mu, S, K, s = scene(E)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=t)

    def loc(N):
        return lambda x: mean(E, nk, lambda a, b, d: full(E, g_half(E, S, K, (a, b, d), c, beta, m0, m1, mu), N)(x))
    E.eq('average', g.g_loc, (2 * (c + t),), loc(c + t))
    E.eq('core average', g.k_mean(), (2 * c,), loc(c))
    t2 = E.int('tail2', lo=0, cmax=5)
    g.set_g_asympt(t2)
    E.eq('new box', g.g_full(), nk + (2 * (c + t2),), lambda a, b, d, x: full(E, g_half(E, S, K, (a, b, d), c, beta, m0, m1, mu), c + t2)(x))
    E.eq('new average', g.g_loc, (2 * (c + t2),), loc(c + t2))
    E.eq('average of the full box', g.k_mean(iv_range='full'), (2 * (c + t2),), loc(c + t2))
    E.eq('frequencies', g.v, (2 * (c + t2),), lambda x: E.pi / beta * (2 * (x - c - t2) + 1))


@contract('C15', [f'{TP}.GreensFunction.g_full', f'{TP}.GreensFunction.fs', 'brillouin_zone.shift_mat_by_pi'], reps=40)
def shifted_and_fermi_surface(E):
    tp, nk, n, c, t, beta, m0, m1, mu, S, K, s = scene(E)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=t)
    N = c + t

    def sh(a, b, d):
        return (a - nk[0] // 2) % nk[0], (b - nk[1] // 2) % nk[1], d
    E.eq('G(k - pi)', g.g_full(pi_shift=True), nk + (2 * N,), lambda a, b, d, x: full(E, g_half(E, S, K, sh(a, b, d), c, beta, m0, m1, mu), N)(x))
    E.eq('A(first frequency)', g.fs(), nk, lambda a, b, d: -E.im(g_half(E, S, K, (a, b, d), c, beta, m0, m1, mu)(0)) / E.pi)
    E.eq('shifted', g.fs(pi_shift=True), nk, lambda a, b, d: -E.im(g_half(E, S, K, sh(a, b, d), c, beta, m0, m1, mu)(0)) / E.pi)


@contract('C15', [f'{TP}.GreensFunction.get_sigma_full'], reps=40)
def self_energy_of_the_box(E):
    tp, nk, n, c, t, beta, m0, m1, mu, S, K, s = scene(E)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=t)
    r = E.int('other tail', lo=0, cmax=5)
    E.eq('core and tail', g.get_sigma_full(r), nk + (2 * (c + r),), lambda a, b, d, x: full(E, lambda y: E.ite(
        y < c, lambda: S(a, b, d, y), lambda: tail(E, beta, m0, m1, y)), c + r)(x))


@contract('C15', [f'{TP}.get_fill', f'{TP}.get_g_model', f'{TP}.get_gloc', f'{TP}.root_fun'], reps=60)
def filling_for_given_mu(E):
    """2 [ f(eps_loc + smom0 - mu) + 1/beta sum Re(G_loc - G_model) ]"""
    tp = E.mod(TP)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=5)
    V, K, S = E.array('iv', (n,)), E.array('ek', nk, kind='f'), E.array('S', nk + (n,))
    beta, m0, mu, h, nt = E.real('beta', pos=True), E.real('smom0'), E.real('mu'), E.real('hloc'), E.real('n')
    x = beta * (m0 + h - mu)
    E.assume(x < 20)
    d = E.sum(0, n, lambda v: E.re(mean(E, nk, lambda a, b, c: 1 / (V(v) + mu - K(a, b, c) - S(a, b, c, v)))) - E.re(1 / (V(v) + mu - h - m0)))
    e = 1 / (1 + E.exp(x)) + d / beta
    r = tp.get_fill(iv=V.a, hk=K.a, siwk=S.a, beta=beta, smom0=m0, hloc=E.np.asarray(h) if not E.sym else h, mu=mu)
    E.scalar('density', r[0], 2 * e)
    E.scalar('per spin', r[1], e)
    E.scalar('root function', tp.root_fun(mu, nt, V.a, K.a, S.a, beta, m0, E.np.asarray(h) if not E.sym else h), 2 * e - nt)
    E.unchanged('frame', V, K, S)


def sigma_of(E, S, k, c, beta, m0, m1, N):
    return full(E, lambda y: E.ite(y < c, lambda: S(*k, y), lambda: tail(E, beta, m0, m1, y)), N)


@contract('C15', [f'{TP}.GreensFunction.e_kin'], reps=40, budget=240)
def kinetic_energy(E):
    """1/beta sum_v <eps_k G> over the whole box"""
    tp, nk, n, c, t, beta, m0, m1, mu, S, K, s = scene(E)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=t)
    N = c + t
    E.scalar('kinetic', g.e_kin, E.sum(0, 2 * N, lambda x: mean(E, nk, lambda a, b, d: K(a, b, d) * full(
        E, g_half(E, S, K, (a, b, d), c, beta, m0, m1, mu), N)(x))) / beta)


def potential(E, N, nk, c, beta, m0, m1, mu, S, K, g):
    ep = E.sum(0, 2 * N, lambda x: mean(E, nk, lambda a, b, d: (sigma_of(E, S, (a, b, d), c, beta, m0, m1, N)(x) - m0) * full(
        E, g_half(E, S, K, (a, b, d), c, beta, m0, m1, mu), N)(x))) / beta
    E.scalar('potential', g.e_pot, ep + m0 * g.n / 2)


@contract('C15', [f'{TP}.GreensFunction.e_pot'], reps=40, budget=120)
def potential_energy(E):
    """1/beta sum_v <(Sigma - smom0) G> + smom0 n/2 over a box without tail"""
    tp = E.mod(TP)
    nk, n = grid(E, 3), E.int('niv', lo=4, cmax=6)
    beta, m0, m1, mu = E.real('beta', pos=True), E.real('smom0'), E.real('smom1'), E.real('mu')
    S, K = E.array('S', nk + (n,)), E.array('ek', nk, kind='f')
    g = tp.GreensFunction(tp.SelfEnergy(S.a, beta, pos=True, smom0=m0, smom1=m1, niv_core=n), K.a, mu=mu, niv_asympt=0)
    potential(E, n, nk, n, beta, m0, m1, mu, S, K, g)


@contract('C15', [f'{TP}.GreensFunction.e_pot', f'{TP}.GreensFunction.e_kin'], reps=60, budget=120)
def energies_from_their_parts(E):
    """any box with any tail: the callees by their contracts (core_and_tail, self_energy_of_the_box)"""
    tp, nk, n, c, t, beta, m0, m1, mu, S, K, s = scene(E)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=t)
    N = c + t
    G, T = E.array('G', nk + (N,)), E.array('Sigma', nk + (N,))

    def both(X):
        return E.given('full ' + X.name, nk + (2 * N,), lambda a, b, d, x: full(E, lambda y: X(a, b, d, y), N)(x))
    FG, FT = both(G), both(T)
    asked = []

    def sigma_full(niv_asympt):
        asked.append(niv_asympt)
        return FT.a
    g.g_full = lambda pi_shift=False: FG.a
    g.get_sigma_full = sigma_full
    ep = E.sum(0, 2 * N, lambda x: mean(E, nk, lambda a, b, d: (FT(a, b, d, x) - m0) * FG(a, b, d, x))) / beta
    E.scalar('potential', g.e_pot, ep + m0 * g.n / 2)
    called(asked)
    E.scalar('tail of the self-energy', asked[-1], t)
    E.scalar('kinetic', g.e_kin, E.sum(0, 2 * N, lambda x: mean(E, nk, lambda a, b, d: K(a, b, d) * FG(a, b, d, x))) / beta)


@contract('C15', [f'{TP}.GreensFunction.e_pot', f'{TP}.GreensFunction.get_sigma_full'], reps=80, sym=False,
          bounded='the case split over core and tail in both factors exceeds the prover\'s budget')
def potential_energy_with_tail(E):
    tp, nk, n, c, t, beta, m0, m1, mu, S, K, s = scene(E)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=t)
    potential(E, c + t, nk, c, beta, m0, m1, mu, S, K, g)


@contract('C15', [f'{TP}.GreensFunction.__init__', f'{TP}.GreensFunction.mu', f'{TP}.GreensFunction.n', f'{TP}.GreensFunction.beta'], reps=60)
def box_of_the_filling(E):
    """filling and mu are searched for in the box of core plus requested shell, with the zone average as local level"""
    tp, nk, n, c, _, beta, m0, m1, mu, S, K, s = scene(E)
    h = E.int('mu shell', lo=0, cmax=4)
    by_n = E.choice('filling given', [False, True])
    nt, some = E.real('n'), E.real('some filling')
    seen = []

    def fill(iv=None, hk=None, siwk=None, beta=1.0, smom0=0.0, hloc=None, mu=None, verbose=False):
        seen.append(dict(iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, hloc=hloc, mu=mu))
        return some, some / 2

    def search(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, smom0=0.0, tol=1e-6, verbose=False):
        seen.append(dict(iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, target=target_filling))
        return mu
    E.patch(tp, 'get_fill', fill)
    E.patch(tp, 'update_mu', search)
    g = tp.GreensFunction(s, K.a, n=nt, niv_asympt=0, niv_shell_mu_find=h) if by_n else tp.GreensFunction(s, K.a, mu=mu, niv_asympt=0, niv_shell_mu_find=h)
    called(seen)
    a, N = seen[0], c + h
    E.eq('frequencies', a['iv'], (2 * N,), lambda x: E.i * E.pi / beta * (2 * (x - N) + 1))
    E.eq('dispersion', a['hk'], nk, lambda *k: K(*k))
    E.eq('self-energy', a['siwk'], nk + (2 * N,), lambda p, q, r, x: sigma_of(E, S, (p, q, r), c, beta, m0, m1, N)(x))
    E.scalar('beta', a['beta'], beta)
    E.scalar('constant', a['smom0'], m0)
    if by_n:
        E.scalar('target', a['target'], nt)
    else:
        E.scalar('level', a['hloc'], mean(E, nk, K))
        E.scalar('at mu', a['mu'], mu)
    E.scalar('mu', g.mu, mu)
    E.scalar('n', g.n, nt if by_n else some)
    E.eq('G with this mu', g.core, nk + (2 * c,), lambda p, q, r, x: full(E, g_half(E, S, K, (p, q, r), c, beta, m0, m1, mu), c)(x))
    E.unchanged('frame', S, K)


@contract('C15', [f'{TP}.GreensFunction.__init__', f'{TP}.get_fill'], reps=60, sym=False,
          bounded='composition of two proved contracts (box_of_the_filling and filling_for_given_mu), evaluated end to end')
def filling_of_the_object(E):
    """given mu: the filling of the box used to find mu (core plus shell), with the zone average as local level"""
    tp, nk, n, c, _, beta, m0, m1, mu, S, K, s = scene(E)
    h = E.int('mu shell', lo=0, cmax=4)
    hloc = mean(E, nk, K)
    x = beta * (m0 + hloc - mu)
    E.assume(x < 20)
    g = tp.GreensFunction(s, K.a, mu=mu, niv_asympt=0, niv_shell_mu_find=h)

    def diff(v):
        G = mean(E, nk, lambda a, b, d: E.re(full(E, g_half(E, S, K, (a, b, d), c, beta, m0, m1, mu), c + h)(v)))
        return G - E.re(full(E, lambda y: 1 / (E.i * nu(E, beta, y) + mu - hloc - m0), c + h)(v))
    E.scalar('n', g.n, 2 / (1 + E.exp(x)) + 2 * E.sum(0, 2 * (c + h), diff) / beta)
    E.raises('mu or n', ValueError, lambda: tp.GreensFunction(s, K.a))


def physical(E, nk, nmin=20, nmax=60):
    """concrete dispersion and self-energy of a Fermi-liquid-like shape (the filling is monotonic in mu)"""
    rng = E.nprng
    beta = float(rng.uniform(2, 8))
    n = int(rng.integers(nmin, nmax))
    K = rng.uniform(-1, 1, size=nk)
    u, d = rng.uniform(0.5, 2), rng.uniform(0.8, 1.2)
    m0, m1 = u * d / 2, u ** 2 * d / 2 * (1 - d / 2)
    iv = 1j * E.np.pi / beta * (2 * E.np.arange(n) + 1)
    S = m0 + m1 / (iv + 1j * rng.uniform(0.1, 1)) + 0 * K[..., None]
    S = S + 0.05 * rng.normal(size=nk)[..., None] / (iv ** 2)
    return beta, n, K, m0, m1, S, d


def minimum_is_found(f):
    """the minimizer of scipy itself brings the deviation of the filling to zero"""
    from scipy.optimize import minimize
    fit = minimize(lambda x: f(x[0]) ** 2, x0=[0.0])
    fit_abs = minimize(lambda x: abs(f(x[0])), x0=[0.0])
    return abs(f(fit.x[0])) < 1e-4 and abs(f(fit_abs.x[0])) < 1e-4


def secant_converges(f, starts):
    """the root search of scipy itself finds the root (otherwise the code documents that it keeps the old value)"""
    import numpy as np
    from scipy.optimize import newton
    try:
        with np.errstate(all='ignore'):
            return all(abs(f(newton(f, x0, tol=1e-6))) < 1e-5 for x0 in starts)
    except RuntimeError:
        return False


@contract('C15', [f'{TP}.GreensFunction.__init__', f'{TP}.update_mu', f'{TP}.root_fun'], reps=40, sym=False,
          bounded='root search of scipy.optimize.newton: the returned root is checked, over random self-energies')
def mu_reproduces_the_filling(E):
    tp, np = E.mod(TP), E.np
    nk = (E.int('nkx', lo=1, cmax=4), E.int('nky', lo=1, cmax=4), E.int('nkz', lo=1, cmax=2))
    beta, n, K, m0, m1, S, _ = physical(E, nk)
    target = float(E.nprng.uniform(0.6, 1.4))
    shell = E.int('mu shell', lo=0, cmax=30)
    s = tp.SelfEnergy(S, beta, pos=True, smom0=m0, smom1=m1, niv_core=int(E.nprng.integers(max(4, n // 2), n + 1)))
    N = s.niv_core + shell
    iv = 1j * np.pi / beta * (2 * np.arange(-N, N) + 1)
    sig = np.where(np.abs(2 * np.arange(-N, N) + 1) <= 2 * s.niv_core - 1, 0, m0 - m1 / iv) + np.zeros(nk + (1,), complex)
    sig[..., N - s.niv_core:N] = np.conj(S[..., :s.niv_core][..., ::-1])
    sig[..., N:N + s.niv_core] = S[..., :s.niv_core]
    h = np.mean(K)

    def filling(mu):
        gl = np.mean(1 / (iv + mu - K[..., None] - sig), axis=(0, 1, 2))
        return 2 / (1 + np.exp(beta * (m0 + h - mu))) + 2 / beta * np.sum((gl - 1 / (iv + mu - h - m0)).real)

    E.assume(secant_converges(lambda m: filling(m) - target, (0.0, 0.1)))
    g = tp.GreensFunction(s, K, n=target, niv_asympt=7, niv_shell_mu_find=shell)
    mu = g.mu
    E.true('reproduces the target', abs(filling(mu) - target) < 1e-4)
    E.true('stored filling', g.n == target)
    E.true('real', np.isrealobj(mu))
    c = s.niv_core
    E.true('box built with this mu', bool(np.allclose(g.core[..., c:], 1 / (iv[N:N + c] + mu - K[..., None] - S[..., :c]), atol=1e-10)))
    mu2 = tp.update_mu(mu0=0.1, target_filling=target, iv=iv, hk=K, siwk=sig, beta=beta, smom0=m0)
    E.true('update_mu', abs(mu2 - mu) < 1e-4)


@contract('C15', [f'{TP}.RealFrequencyGF.__init__', f'{TP}.RealFrequencyGF.gwk', f'{TP}.RealFrequencyGF.awk', f'{TP}.RealFrequencyGF.gw',
                  f'{TP}.RealFrequencyGF.aw', f'{TP}.get_gwk', f'{TP}.get_filling_real_f'], reps=60, sym=False,
          bounded='np.trapz over a boolean mask and scipy.optimize.minimize have no contract; sampled')
def real_frequencies(E):
    tp, np = E.mod(TP), E.np
    nk = (E.int('nkx', lo=1, cmax=4), E.int('nky', lo=1, cmax=4), E.int('nkz', lo=1, cmax=3))
    w = np.sort(E.nprng.uniform(-12, 12, size=401))
    K, mu = E.nprng.uniform(-1, 1, size=nk), float(E.nprng.uniform(-0.5, 0.5))
    S = E.nprng.uniform(-0.3, 0.3, size=nk + (1,)) - 1j * E.nprng.uniform(0.1, 0.5, size=nk + (1,)) + np.zeros(401)
    dl = E.choice('deltino', [0.0, 0.05, 0.2])
    S0, K0 = S.copy(), K.copy()
    g = tp.RealFrequencyGF(w, S, K, mu=mu, deltino=dl)
    ref = 1 / (w + mu - K[..., None] - S0 + 1j * dl)
    E.true('G(k, w)', bool(np.allclose(g.gwk(), ref)))
    E.true('A(k, w)', bool(np.allclose(g.awk(), -ref.imag / np.pi)))
    E.true('G(w)', bool(np.allclose(g.gw, ref.mean(axis=(0, 1, 2)))))
    E.true('A(w)', bool(np.allclose(g.aw, -ref.mean(axis=(0, 1, 2)).imag / np.pi)))
    sh = ref
    for ax in (0, 1):
        sh = np.roll(sh, nk[ax] // 2, axis=ax)
    E.true('A(k - pi)', bool(np.allclose(g.awk(pi_shift=True), -sh.imag / np.pi)))
    E.true('G(k - pi)', bool(np.allclose(g.gwk(pi_shift=True), sh)))
    i0 = np.argmin(np.abs(w))
    E.true('Fermi surface', bool(np.allclose(g.fs(), -ref[..., i0].imag / np.pi)) and bool(np.allclose(g.fs(True), -sh[..., i0].imag / np.pi)))
    m = w <= 0
    a, x = -ref.mean(axis=(0, 1, 2)).imag[m] / np.pi, w[m]
    n = 2 * float(np.sum((a[1:] + a[:-1]) / 2 * np.diff(x)))
    E.true('filling', abs(g.n - n) < 1e-9)
    E.assume(minimum_is_found(lambda x: 2 * float(np.trapz((-(1 / (w + x - K[..., None] - S0 + 1j * dl)).mean(axis=(0, 1, 2)).imag / np.pi)[m], x=w[m])) - n))
    g2 = tp.RealFrequencyGF(w, S, K, n=n, deltino=dl)
    E.true('mu for the filling', abs(tp.get_filling_real_f(w, g2.gwk()) - n) < 1e-3)
    E.true('G with this mu', bool(np.allclose(g2.gwk(), 1 / (w + g2.mu - K[..., None] - S0 + 1j * dl))))
    E.raises('mu or n', ValueError, lambda: tp.RealFrequencyGF(w, S, K))
    E.true('frame', bool(np.array_equal(S, S0) and np.array_equal(K, K0)))


class Search:
    """stands for scipy.optimize: asks for the function at the value it is going to return"""

    def __init__(self, root, fails=False):
        self.root, self.fails, self.calls = root, fails, []

    def newton(self, f, x0, tol=None, args=(), **k):
        self.calls.append((f(self.root, *args), x0, tol))
        if self.fails:
            raise RuntimeError('no convergence')
        return self.root

    def minimize(self, f, x0=None, args=(), **k):
        self.calls.append((f(self.root, *args), x0, None))
        r = Obj()
        r.x = self.root
        return r


@contract('C15', [f'{TP}.update_mu', f'{TP}.root_fun', f'{TP}.get_fill', f'{TP}.update_mu_primitive', f'{TP}.root_fun_primitive',
                  f'{TP}.get_fill_primitive', f'{TP}.get_gloc', f'{TP}.get_g_model'], reps=60, budget=150)
def searched_function_is_filling_minus_target(E):
    """the root search is given the filling minus the target, so the value it returns reproduces the target; a failed search
    keeps the old value"""
    tp = E.mod(TP)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=5)
    V, K, S = E.array('iv', (n,)), E.array('ek', nk, kind='f'), E.array('S', nk + (n,))
    beta, m0, mu, nt, old, tol = E.real('beta', pos=True), E.real('smom0'), E.real('mu'), E.real('n'), E.real('old mu'), E.real('tol', pos=True)
    fails = E.choice('search fails', [False, True])
    mu = mu if E.sym else E.np.float64(mu)
    old = old if E.sym else E.np.float64(old)
    o = Search(mu, fails)
    E.patch(tp, 'opt', o)
    h = mean(E, nk, lambda a, b, c: K(a, b, c))
    x = beta * (m0 + h - mu)
    E.assume(x < 20)
    g = lambda v: mean(E, nk, lambda a, b, c: 1 / (V(v) + mu - K(a, b, c) - S(a, b, c, v)))
    r = tp.update_mu(mu0=old, target_filling=nt, iv=V.a, hk=K.a, siwk=S.a, beta=beta, smom0=m0, tol=tol)
    E.scalar('result', r, old if fails else mu)
    called(o.calls)
    val, x0, t = o.calls.pop()
    E.scalar('filling - target', val, 2 * (1 / (1 + E.exp(x)) + E.sum(0, n, lambda v: E.re(g(v)) - E.re(1 / (V(v) + mu - h - m0))) / beta) - nt)
    E.scalar('start', x0, old)
    E.scalar('precision', t, tol)
    r = tp.update_mu_primitive(mu0=old, target_filling=nt, iv=V.a, hk=K.a, siwk=S.a, beta=beta, smom0=m0, tol=tol)
    E.scalar('result of the plain sum', r, old if fails else mu)
    called(o.calls)
    val, x0, t = o.calls.pop()
    E.scalar('plain filling - target', val, 2 * E.sum(0, n, g) / beta + 1 - nt)
    E.scalar('precision of the plain sum', t, tol)
    E.unchanged('frame', V, K, S)


@contract('C15', [f'{TP}.RealFrequencyGF.__init__', f'{TP}.RealFrequencyGF.gwk', f'{TP}.RealFrequencyGF.awk', f'{TP}.RealFrequencyGF.gw',
                  f'{TP}.RealFrequencyGF.aw', f'{TP}.RealFrequencyGF.fs', f'{TP}.RealFrequencyGF.get_gwk_tb', f'{TP}.get_gwk',
                  f'{TP}.adjust_mu_real_f', f'{TP}.opt_func'], reps=60, budget=150)
def real_frequency_function(E):
    """G = 1/(w + mu - eps - Sigma + i delta), A = -Im G/pi, for a given mu or for the mu of a given filling"""
    tp = E.mod(TP)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=6)
    W, K, S = E.array('w', (n,), kind='f'), E.array('ek', nk, kind='f'), E.array('S', nk + (n,))
    mu, nt, dl, some = E.real('mu'), E.real('n'), E.real('deltino', pos=True), E.real('some filling')
    seen = []

    def filling(w, gwk):
        seen.append((w, gwk))
        return some
    E.patch(tp, 'get_filling_real_f', filling)
    by_n = E.choice('filling given', [False, True])
    o = Search(mu)
    E.patch(tp, 'opt', o)
    g = tp.RealFrequencyGF(W.a, S.a, K.a, n=nt, deltino=dl) if by_n else tp.RealFrequencyGF(W.a, S.a, K.a, mu=mu, deltino=dl)
    G = lambda a, b, c, v: 1 / (W(v) + mu - K(a, b, c) - S(a, b, c, v) + 1j * dl)
    P = lambda a, b, c, v: G(E.mod_n(a - nk[0] // 2, nk[0]), E.mod_n(b - nk[1] // 2, nk[1]), c, v)
    sh = nk + (n,)
    E.eq('G', g.gwk(), sh, G)
    E.eq('G shifted by pi', g.gwk(pi_shift=True), sh, P)
    E.eq('A', g.awk(), sh, lambda *k: -E.im(G(*k)) / E.pi)
    E.eq('A shifted by pi', g.awk(pi_shift=True), sh, lambda *k: -E.im(P(*k)) / E.pi)
    loc = lambda v: mean(E, nk, lambda a, b, c: G(a, b, c, v))
    E.eq('local G', g.gw, (n,), loc)
    E.eq('local A', g.aw, (n,), lambda v: -E.im(loc(v)) / E.pi)
    near = E.argmin(n, lambda v: E.abs(W(v)))
    E.eq('Fermi surface', g.fs(), nk, lambda a, b, c: -E.im(G(a, b, c, near)) / E.pi)
    E.scalar('mu', g.mu, mu)
    E.scalar('n', g.n, nt if by_n else some)
    called(seen)
    if by_n:
        called(o.calls)
    E.eq('on this grid', seen[0][0], (n,), lambda v: W(v))
    E.eq('filling of this G', seen[0][1], sh, G)
    if by_n:
        E.scalar('distance to the target is minimised', o.calls[0][0], (some - nt) ** 2)
    E.raises('mu or n', ValueError, lambda: tp.RealFrequencyGF(W.a, S.a, K.a))
    t = g.get_gwk_tb(deltino=dl)
    E.eq('without self-energy', t.gwk(), sh, lambda a, b, c, v: 1 / (W(v) + mu - K(a, b, c) + 1j * dl))
    E.unchanged('frame', W, K, S)


@contract('C15', wholerun.PARTS[:1] + [f'{TP}.GreensFunction.__init__', f'{TP}.update_mu', f'{TP}.get_fill'], sym=False, reps=10, bounded=wholerun.BOUNDED)
def greens_function_of_a_whole_run(E):
    """the written Green's function is Dyson's equation for the written self-energy with one chemical potential, at the filling of the input"""
    i = wholerun.draw(E)
    d = wholerun.run(E, i)
    np = E.np
    g, s = wholerun.load(d, 'giwk_dga'), wholerun.load(d, 'siwk_dga')
    n = s.shape[-1] // 2
    m = 1 / wholerun.at(g, n, 0) - wholerun.at(i.iv, n, 0) + i.ek[..., None] + s
    mu = m.mean()
    E.true('one chemical potential', np.max(np.abs(m - mu)) < 1e-8 and abs(mu.imag) < 1e-8)
    E.true('written chemical potentials', np.max(np.abs(np.ravel(np.loadtxt(d + 'mu.txt')) - [mu.real, i.mu])) < 2e-6)
    iv = 1j * np.pi / i.beta * (2 * np.arange(-n, n) + 1)
    h = i.ek.mean() + i.u * i.n / 2 - mu.real
    fill = 2 * ((wholerun.at(g, n, 0).mean((0, 1, 2)) - 1 / (iv - h)).sum() / i.beta + 1 / (1 + np.exp(i.beta * h)))
    found = abs(mu) > 1e-12  # update_mu keeps its starting value 0 where the root search fails (self-energies that are not causal)
    E.true('filling', not found or abs(fill - i.n) < 1e-4, f'{fill} {i.n} {mu}')
