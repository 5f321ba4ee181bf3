"""C14 self-energies keep their data in the core and continue with smom0 - smom1/(i nu)."""
from contracts.c06 import grid
from engine.reg import contract

TP = 'two_point'
ASSUMPTIONS = ['numpy.any and numpy.argmax of boolean arrays meet their documentation (library functions): the first true element']


def scene(E, maxn=5):
    """self-energy of any size on any grid, explicit moments, any core"""
    nk = grid(E, 3)
    n, c = E.int('niv', lo=1, cmax=maxn), E.int('core', lo=0, cmax=maxn + 2)
    beta, m0, m1 = E.real('beta', pos=True), E.real('smom0'), E.real('smom1')
    S = E.array('S', nk + (n,))
    return nk, n, c, beta, m0, m1, S


def nu(E, beta, k):
    return E.pi * (2 * k + 1) / beta


def tail(E, beta, m0, m1, k):
    return m0 - m1 / (E.i * nu(E, beta, k))


def full(E, half, m):
    """value at position x of an axis with m frequencies on each side"""
    return lambda x: E.ite(x >= m, lambda: half(x - m), lambda: E.conj(half(m - 1 - x)))


def value(E, S, k, core, beta, m0, m1):
    return lambda x: E.ite(x < core, lambda: S(*k, x), lambda: tail(E, beta, m0, m1, x))


@contract('C14', [f'{TP}.SelfEnergy.__init__', f'{TP}.SelfEnergy.get_siw', 'matsubara_frequencies.fermionic_full_nu_range',
                  'matsubara_frequencies.vn'], reps=120)
def every_box_size(E):
    """data inside the core, moments beyond, on the full axis, for every requested size"""
    tp = E.mod(TP)
    nk, n, c, beta, m0, m1, S = scene(E)
    s = tp.SelfEnergy(S.a, beta, pos=True, smom0=m0, smom1=m1, niv_core=c)
    core = E.min(c, n)
    E.scalar('stored frequencies', s.niv, n)
    E.scalar('core', s.niv_core, core)
    E.scalar('given smom0', s.smom0, m0)
    E.scalar('given smom1', s.smom1, m1)
    m = E.int('box', lo=1, cmax=9)
    E.eq('requested box', s.get_siw(m), nk + (2 * m,), lambda a, b, d, x: full(E, value(E, S, (a, b, d), core, beta, m0, m1), m)(x))
    E.eq('default box', s.get_siw(), nk + (2 * n,), lambda a, b, d, x: full(E, value(E, S, (a, b, d), core, beta, m0, m1), n)(x))
    E.eq('core box', s.sigma_core, nk + (2 * core,), lambda a, b, d, x: full(E, lambda y: S(a, b, d, y), core)(x))
    E.unchanged('frame', S)


@contract('C14', [f'{TP}.SelfEnergy.__init__', f'{TP}.SelfEnergy.get_siw'], reps=60)
def estimated_core_of_short_data(E):
    """data not longer than the minimal core are returned as they are and continued analytically"""
    tp = E.mod(TP)
    nk, n, c, beta, m0, m1, S = scene(E)
    E.assume(n <= 20)
    s = tp.SelfEnergy(S.a, beta, pos=True, smom0=m0, smom1=m1)
    E.scalar('core', s.niv_core, n)
    m = E.int('box', lo=1, cmax=9)
    E.eq('requested box', s.get_siw(m), nk + (2 * m,), lambda a, b, d, x: full(E, value(E, S, (a, b, d), n, beta, m0, m1), m)(x))


@contract('C14', [f'{TP}.SelfEnergy.__init__', f'{TP}.SelfEnergy.get_siw'], reps=60)
def layout_of_the_input(E):
    """full-range input is cut to its positive half, local input becomes a 1x1x1 grid"""
    tp = E.mod(TP)
    nk = grid(E, 3)
    n, c, m = E.int('niv', lo=1, cmax=5), E.int('core', lo=0, cmax=6), E.int('box', lo=1, cmax=8)
    beta, m0, m1 = E.real('beta', pos=True), E.real('smom0'), E.real('smom1')
    core = E.min(c, n)
    A = E.array('A', nk + (2 * n,))
    s = tp.SelfEnergy(A.a, beta, smom0=m0, smom1=m1, niv_core=c)
    E.eq('upper half', s.sigma, nk + (n,), lambda a, b, d, x: A(a, b, d, n + x))
    E.eq('box', s.get_siw(m), nk + (2 * m,), lambda a, b, d, x: full(E, value(E, lambda p, q, r, y: A(p, q, r, n + y), (a, b, d), core, beta, m0, m1), m)(x))
    B = E.array('B', (2 * n,))
    s = tp.SelfEnergy(B.a, beta, pos=False, smom0=m0, smom1=m1, niv_core=c)
    E.eq('local', s.get_siw(m), (1, 1, 1, 2 * m), lambda a, b, d, x: full(E, value(E, lambda p, q, r, y: B(n + y), (a, b, d), core, beta, m0, m1), m)(x))
    D = E.array('D', (n,))
    s = tp.SelfEnergy(D.a, beta, pos=True, smom0=m0, smom1=m1, niv_core=c)
    E.eq('local, half range', s.get_siw(m), (1, 1, 1, 2 * m), lambda a, b, d, x: full(E, value(E, lambda p, q, r, y: D(y), (a, b, d), core, beta, m0, m1), m)(x))
    E.unchanged('frame', A, B, D)
    E.raises('other ranks', ValueError, lambda: tp.SelfEnergy(E.array('Q', (2, 2, 2 * n)).a, beta))


@contract('C14', [f'{TP}.SelfEnergy.get_asympt'], reps=60)
def analytic_tail(E):
    tp = E.mod(TP)
    nk, n, c, beta, m0, m1, S = scene(E)
    s = tp.SelfEnergy(S.a, beta, pos=True, smom0=m0, smom1=m1, niv_core=c)
    core = E.min(c, n)
    m, k = E.int('n', lo=0, cmax=6), E.int('nmin', lo=0, cmax=5)
    E.eq('beyond the core', s.get_asympt(m), nk + (m,), lambda a, b, d, x: tail(E, beta, m0, m1, core + x))
    E.eq('from n_min', s.get_asympt(m, n_min=k), nk + (m,), lambda a, b, d, x: tail(E, beta, m0, m1, k + x))
    E.eq('both sides', s.get_asympt(m, pos=False), nk + (2 * m,), lambda a, b, d, x: full(E, lambda y: tail(E, beta, m0, m1, core + y), m)(x))
    E.eq('both sides from n_min', s.get_asympt(m, n_min=k, pos=False), nk + (2 * m,),
         lambda a, b, d, x: full(E, lambda y: tail(E, beta, m0, m1, k + y), m)(x))


@contract('C14', [f'{TP}.SelfEnergy.get_siw', 'brillouin_zone.shift_mat_by_pi'], reps=40)
def shifted_by_pi(E):
    tp = E.mod(TP)
    nk, n, c, beta, m0, m1, S = scene(E)
    s = tp.SelfEnergy(S.a, beta, pos=True, smom0=m0, smom1=m1, niv_core=c)
    m = E.int('box', lo=1, cmax=7)
    core = E.min(c, n)
    E.eq('Sigma(k - pi)', s.get_siw(m, pi_shift=True), nk + (2 * m,), lambda a, b, d, x: full(E, value(
        E, S, ((a - nk[0] // 2) % nk[0], (b - nk[1] // 2) % nk[1], d), core, beta, m0, m1), m)(x))


@contract('C14', [f'{TP}.fit_smom', f'{TP}.SelfEnergy.__init__', f'{TP}.SelfEnergy.k_mean'], reps=60)
def fitted_moments(E):
    """without explicit moments: mean of Re Sigma and of nu Im Sigma over the last fifth (at least 4 frequencies)"""
    tp = E.mod(TP)
    nk = grid(E, 2)
    g = E.int('fifth', lo=0, cmax=6)
    r = E.int('rest', lo=0, hi=4)
    n = 5 * g + r
    E.assume(n >= 4)
    f = E.ite(g < 4, lambda: 4, lambda: g)
    beta, m0, m1 = E.real('beta', pos=True), E.real('smom0'), E.real('smom1')
    S = E.array('S', nk + (n,))
    N = nk[0] * nk[1] * nk[2]

    def loc(x):
        return E.sum(0, nk[0], lambda a: E.sum(0, nk[1], lambda b: E.sum(0, nk[2], lambda d: S(a, b, d, x)))) / N
    e0 = E.sum(0, f, lambda x: E.re(loc(n - f + x))) / f
    e1 = E.sum(0, f, lambda x: E.im(loc(n - f + x)) * nu(E, beta, n - f + x)) / f
    s = tp.SelfEnergy(S.a, beta, pos=True, niv_core=n)
    E.scalar('smom0', s.smom0, e0)
    E.scalar('smom1', s.smom1, e1)
    s = tp.SelfEnergy(S.a, beta, pos=True, niv_core=n, smom0=m0)
    E.scalar('explicit smom0', s.smom0, m0)
    E.scalar('fitted smom1', s.smom1, e1)
    s = tp.SelfEnergy(S.a, beta, pos=True, niv_core=n, smom1=m1)
    E.scalar('fitted smom0', s.smom0, e0)
    E.scalar('explicit smom1', s.smom1, m1)
    E.eq('zone average', s.k_mean(), (n,), loc)
    E.unchanged('frame', S)


@contract('C14', [f'{TP}.get_smom0', f'{TP}.get_smom1', f'{TP}.get_sum_chiupup'], reps=40)
def analytic_moments(E):
    tp, mf = E.mod(TP), E.mod('matsubara_frequencies')
    u, n = E.real('u'), E.real('n')
    E.scalar('Hartree', tp.get_smom0(u, n), u * n / 2)
    E.scalar('1/nu', tp.get_smom1(u, n), -u * u * n * (2 - n) / 4)
    E.scalar('sum rule', tp.get_sum_chiupup(n), n * (2 - n) / 4)


@contract('C14', [f'{TP}.create_dga_siwk_with_dmft_as_asympt', 'matsubara_frequencies.inv_cut_v', 'matsubara_frequencies.concatenate_core_asmypt'], reps=60)
def combined_self_energy(E):
    """lattice data in the core, local data (or their tail) in the shell, local moments beyond"""
    tp = E.mod(TP)
    nk = grid(E, 3)
    n, c = E.int('nloc', lo=1, cmax=6), E.int('core_loc', lo=0, cmax=7)
    k, s = E.int('nlat', lo=1, cmax=5), E.int('shell', lo=1, cmax=5)
    beta, m0, m1 = E.real('beta', pos=True), E.real('smom0'), E.real('smom1')
    P, L = E.array('Slat', nk + (k,)), E.array('Sloc', (n,))
    A = E.given('A', nk + (2 * k,), lambda a, b, d, x: full(E, lambda y: P(a, b, d, y), k)(x))
    loc = tp.SelfEnergy(L.a, beta, pos=True, smom0=m0, smom1=m1, niv_core=c)
    core = E.min(c, n)
    r = tp.create_dga_siwk_with_dmft_as_asympt(A.a, loc, s)
    lv = value(E, lambda p, q, t, y: L(y), (0, 0, 0), core, beta, m0, m1)
    E.scalar('moments 0', r.smom0, m0)
    E.scalar('moments 1', r.smom1, m1)
    E.scalar('core', r.niv_core, k + s)
    m = E.int('box', lo=1, cmax=12)
    E.eq('lattice, local, tail', r.get_siw(m), nk + (2 * m,), lambda a, b, d, x: full(E, lambda y: E.ite(y < k, lambda: P(a, b, d, y), lambda: E.ite(
        y < k + s, lambda: lv(y), lambda: tail(E, beta, m0, m1, y))), m)(x))
    E.unchanged('frame', A, L)


@contract('C14', [f'{TP}.SelfEnergy.estimate_niv_core', f'{TP}.SelfEnergy.__init__'], reps=60, budget=240)
def first_agreement_with_the_tail(E):
    """core: the first frequencies at which real and imaginary part of the zone average agree with the tail, the larger one; not shorter than
    the minimum, not longer than the data, all data where they never agree"""
    tp = E.mod(TP)
    nk = grid(E, 3)
    n = E.int('n', lo=1, cmax=40)
    beta, m0, m1 = E.real('beta', pos=True), E.real('smom0'), E.real('smom1')
    err, least = E.real('err', lo=0, hi=2), tp.SelfEnergy.niv_core_min
    S = E.array('S', nk + (n,))
    N = nk[0] * nk[1] * nk[2]

    def dev(x):
        loc = E.sum(0, nk[0], lambda a: E.sum(0, nk[1], lambda b: E.sum(0, nk[2], lambda d: S(a, b, d, x)))) / N
        return loc - (m0 - m1 / (E.i * nu(E, beta, x)))
    s = tp.SelfEnergy(S.a, beta, pos=True, smom0=m0, smom1=m1, err=err)
    re, im = E.first(n, lambda x: E.abs(E.re(dev(x))) < err), E.first(n, lambda x: E.abs(E.im(dev(x))) < err)
    E.scalar('core', s.niv_core, E.min(n, E.max(E.max(re, im), least)))
    E.unchanged('frame', S)


@contract('C14', [f'{TP}.SelfEnergy.estimate_niv_core'], sym=False, reps=60, bounded='first frequency within an error margin: data dependent search')
def estimated_core(E):
    """not shorter than the minimum, long enough to contain everything before the data first agree with the tail"""
    import numpy as np
    tp = E.mod(TP)
    n = E.int('niv', lo=4, cmax=60)
    nk = (E.int('kx', lo=1, cmax=3), E.int('ky', lo=1, cmax=3), 1)
    beta, m0, m1 = E.real('beta', lo=1, hi=9), E.real('smom0', lo=0.5, hi=2), E.real('smom1', lo=0.3, hi=2)
    b, d = E.int('real from', lo=0, cmax=70), E.int('imag from', lo=0, cmax=70)
    v = np.pi / beta * (2 * np.arange(n) + 1)
    t = m0 - m1 / (1j * v)
    dev = np.where(np.arange(n) < b, 0.3, 0) + 1j * np.where(np.arange(n) < d, 0.4, 0)
    wob = E.nprng.uniform(-.1, .1, nk + (n,))
    data = t + dev + (wob - wob.mean((0, 1, 2)))
    s = tp.SelfEnergy(data, beta, pos=True, smom0=m0, smom1=m1)
    E.true('core', s.niv_core == min(n, max(min(b, n), min(d, n), 20)))
    E.same('data in the core', s.get_siw(s.niv_core)[..., s.niv_core:], data[..., :s.niv_core])
    E.same('box', s.get_siw(n + 3).shape, nk + (2 * n + 6,))
