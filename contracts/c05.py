"""C05 the local bubble is -beta G(v)G(v-w), by every route."""
from engine.reg import contract

BU = 'bubble'
NOTATIONS = ['minus', 'plus', 'center']


def arguments(E, not_, w):
    """frequency shifts of the two Green's functions prescribed by the notation"""
    if not_ == 'minus':
        return 0, -w
    if not_ == 'plus':
        return 0, w
    h = w // 2
    return h, h - w


def room(E, not_, lo, hi, x):
    """x fermionic frequencies beyond the window suffice for all w in [lo, hi]"""
    E.assume(lo >= -x)
    E.assume(hi <= x)
    if not_ == 'center':
        E.assume(E.abs(lo) <= x)


def plain_g(E, n):
    return E.array('G', (2 * n,))


def sym_g(E, n):
    """a Green's function with G(-v) = G(v)*"""
    P = E.array('P', (n,))

    def g(i):
        return E.ite(i >= n, lambda: P(i - n), lambda: E.conj(P(n - 1 - i)))
    return E.given('G', (2 * n,), g)


def _grid(E):
    nv, x = E.int('nv', lo=1, cmax=5), E.int('x', lo=0, cmax=5)
    return nv, x, nv + x


@contract('C05', [f'{BU}.get_gchi0', 'matsubara_frequencies.get_freq_shift'], reps=60)
def generalised_bubble(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nv, x, n = _grid(E)
    w = E.int('w', lo=None)
    room(E, nt, w, w, x)
    G, beta = plain_g(E, n), E.real('beta', pos=True)
    s1, s2 = arguments(E, nt, w)
    r = bu.get_gchi0(G.a, beta, nv, w, nt)
    E.eq('-beta G G', r, (2 * nv,), lambda v: -beta * G(n - nv + v + s1) * G(n - nv + v + s2))
    r = bu.get_gchi0(G.a, beta, nv, w)
    if nt == 'minus':
        E.eq('default notation is minus', r, (2 * nv,), lambda v: -beta * G(n - nv + v) * G(n - nv + v - w))
    E.unchanged('frame', G)


@contract('C05', [f'{BU}.vec_get_gchi0'], reps=60)
def generalised_bubble_list(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nv, x, n = _grid(E)
    m, s = E.int('m', lo=1, cmax=5), E.int('s', lo=None)
    room(E, nt, s, s + m - 1, x)
    G, beta = plain_g(E, n), E.real('beta', pos=True)
    w = E.given('w', (m,), lambda i: s + i, kind='i')

    def spec(i, v):
        s1, s2 = arguments(E, nt, s + i)
        return -beta * G(n - nv + v + s1) * G(n - nv + v + s2)
    E.eq('-beta G G', bu.vec_get_gchi0(G.a, beta, nv, w.a, nt), (m, 2 * nv), spec)
    E.unchanged('frame', G, w)


@contract('C05', [f'{BU}.vec_get_gchi0', 'matsubara_frequencies.bosonic_full_nu_range'], reps=60)
def generalised_bubble_shortcut(E):
    bu, mf = E.mod(BU), E.mod('matsubara_frequencies')
    nt = E.choice('notation', NOTATIONS)
    nv, x, n = _grid(E)
    nw = E.int('nw', lo=0, hi=x)
    G, beta = sym_g(E, n), E.real('beta', pos=True)

    def spec(i, v):
        s1, s2 = arguments(E, nt, i - nw)
        return -beta * G(n - nv + v + s1) * G(n - nv + v + s2)
    r = bu.vec_get_gchi0(G.a, beta, nv, mf.wn(nw), nt, is_full_wn=True)
    E.eq('shortcut = direct', r, (2 * nw + 1, 2 * nv), spec)


@contract('C05', [f'{BU}.get_chi0_sum', f'{BU}.vec_get_chi0_sum', f'{BU}.vec_get_gchi0'], reps=60)
def bubble_susceptibility(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nv, x, n = _grid(E)
    m, s = E.int('m', lo=1, cmax=5), E.int('s', lo=None)
    room(E, nt, s, s + m - 1, x)
    G, beta = plain_g(E, n), E.real('beta', pos=True)
    w = E.given('w', (m,), lambda i: s + i, kind='i')

    def spec(i):
        s1, s2 = arguments(E, nt, s + i)
        return -E.sum(0, 2 * nv, lambda v: G(n - nv + v + s1) * G(n - nv + v + s2)) / beta
    r = bu.vec_get_chi0_sum(G.a, beta, nv, w.a, nt)
    E.eq('-1/beta sum GG', r, (m,), spec)
    E.scalar('single frequency', bu.get_chi0_sum(G.a, beta, nv, s, nt), spec(0))
    g = bu.vec_get_gchi0(G.a, beta, nv, w.a, nt)
    E.eq('sum of the generalised bubble / beta^2', r, (m,),
         lambda i: E.sum(0, 2 * nv, lambda v: E.get(g, i, v)) / beta ** 2)
    E.unchanged('frame', G, w)


@contract('C05', [f'{BU}.vec_get_chi0_sum'], reps=60)
def bubble_susceptibility_shortcut(E):
    bu, mf = E.mod(BU), E.mod('matsubara_frequencies')
    nt = E.choice('notation', NOTATIONS)
    nv, x, n = _grid(E)
    nw = E.int('nw', lo=0, hi=x)
    G, beta = sym_g(E, n), E.real('beta', pos=True)

    def spec(i):
        s1, s2 = arguments(E, nt, i - nw)
        return -E.sum(0, 2 * nv, lambda v: G(n - nv + v + s1) * G(n - nv + v + s2)) / beta
    r = bu.vec_get_chi0_sum(G.a, beta, nv, mf.wn(nw), nt, is_full_wn=True)
    E.eq('shortcut = direct', r, (2 * nw + 1,), spec)


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def greens(E, n=None, ek_shape=None, s='', G=None):
    """what the generator uses of a Green's function object: local part, moments, dispersion"""
    g = Obj(sigma=Obj(smom0=E.real('smom0' + s), smom1=E.real('smom1' + s)), mu=E.real('mu' + s), beta=E.real('beta' + s, pos=True))
    if n is not None:
        g.g_loc = G.a if G is not None else None
    if ek_shape is not None:
        g.EK = E.array('ek', ek_shape, kind='f')
        g.ek = g.EK.a
    return g


def ek_moments(E, g):
    nx, ny, nz = g.EK.shape
    N = nx * ny * nz

    def mean(f):
        return E.sum(0, nx, lambda a: E.sum(0, ny, lambda b: E.sum(0, nz, lambda c: f(a, b, c)))) / N
    return mean(lambda a, b, c: g.EK(a, b, c)), mean(lambda a, b, c: g.EK(a, b, c) ** 2)


def tail_factors(E, g):
    """G(v) = 1/(iv) - a1/(iv)^2 + a2/(iv)^3 with a1 = <mu-ek-s0>, a2 = <(mu-ek-s0)^2> - s1 for <ek> = 0"""
    m1, m2 = ek_moments(E, g)
    a = g.mu - g.sigma.smom0
    return a, a ** 2 + m2 - g.sigma.smom1, a ** 2 + m1 ** 2


def _k(E):
    return tuple(E.int(c, lo=1, cmax=4) for c in ('kx', 'ky', 'kz'))


@contract('C05', [f'{BU}.BubbleGenerator.get_asympt_prefactors'], reps=30)
def tail_prefactors(E):
    bu = E.mod(BU)
    g = greens(E, ek_shape=_k(E))
    w = E.given('w', (1,), lambda i: 0, kind='i')
    f = bu.BubbleGenerator(w.a, g).get_asympt_prefactors()
    for i, (got, want) in enumerate(zip(f, tail_factors(E, g))):
        E.scalar(f'coefficient {i}', got, want)


def _wn(E):
    nw = E.int('nw', lo=0, cmax=5)
    return nw, E.given('w', (2 * nw + 1,), lambda i: i - nw, kind='i')


def any_range(E, spacing=(1, 3)):
    """bosonic frequencies with equal spacing, anywhere"""
    m, s, t = E.int('m', lo=1, cmax=5), E.int('s', lo=None), E.choice('spacing', list(spacing))
    return m, s, E.given('w', (m,), lambda i: s + t * i, kind='i')


@contract('C05', [f'{BU}.BubbleGenerator.get_asympt_sum'], reps=30, budget=200)
def windowed_tail_sum(E):
    """finite-window part of the asymptotic expansion"""
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    own = E.choice('own', [False, True])
    g = greens(E)
    nv = E.int('nv', lo=1, cmax=5)
    m, _, w = any_range(E, (1, 3) if own else (1,))
    bg = bu.BubbleGenerator(w.a, g, freq_notation=nt)
    f1, f2, f3 = (E.real(f'fac{i}') for i in (1, 2, 3))
    bg.get_asympt_prefactors = lambda: (f1, f2, f3)     # callee by its contract (tail_prefactors): arbitrary coefficients
    r = bg.get_asympt_sum(nv) if own else bg.get_asympt_sum(nv, freq_notation=nt)

    def spec(i):
        s1, s2 = arguments(E, nt, w(i))

        def term(v):
            a = 1 / (E.i * E.pi / g.beta * (2 * (v - nv + s1) + 1))
            b = 1 / (E.i * E.pi / g.beta * (2 * (v - nv + s2) + 1))
            return a * b - f1 * (a * a * b + a * b * b) + f2 * (a ** 3 * b + a * b ** 3) + f3 * a * a * b * b
        return -E.sum(0, 2 * nv, term) / g.beta
    E.eq('-1/beta sum over the window', r, (m,), spec)
    E.unchanged('frame', w)


def exact_tail(E, g, w, f2, f3):
    """sum over all fermionic frequencies: sum 1/(iv)^2 = -beta^2/4, sum 1/(iv)^4 = beta^4/48, and partial fractions for w != 0"""
    b = g.beta

    def finite():
        iw = 2 * E.pi * w / b * E.i
        return -b / 2 * (f2 - f3) / iw ** 2
    return E.ite(w == 0, lambda: b / 4 - b ** 3 / 24 * f2 - b ** 3 / 48 * f3, finite)


@contract('C05', [f'{BU}.BubbleGenerator.get_exact_asymptotics'], reps=30)
def analytic_tail_sum(E):
    bu = E.mod(BU)
    g = greens(E, ek_shape=_k(E))
    nw, w = _wn(E)
    r = bu.BubbleGenerator(w.a, g).get_exact_asymptotics()
    _, f2, f3 = tail_factors(E, g)
    E.eq('analytic sum', r, (2 * nw + 1,), lambda i: exact_tail(E, g, i - nw, f2, f3))
    E.unchanged('frame', w, g.EK)


@contract('C05', [f'{BU}.BubbleGenerator.get_exact_asymptotics', f'{BU}.BubbleGenerator.get_asympt_sum'], sym=False, reps=12,
          bounded='limit of an infinite series')
def analytic_sum_is_the_limit(E):
    """independent oracle for the analytic sum: it is the limit of the windowed sums"""
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    g = greens(E, ek_shape=(3, 2, 1))
    import numpy as np
    g.ek = g.ek - np.mean(g.ek)
    nw = E.int('nw', lo=0, cmax=4)
    bg = bu.BubbleGenerator(np.arange(-nw, nw + 1), g, freq_notation=nt)
    a, b, c = (bg.get_asympt_sum(n) - bg.get_exact_asymptotics() for n in (500, 1000, 2000))
    # remainder of the leading 1/v^2 term halves with doubled window
    E.true('difference decays like 1/n', np.all(np.abs(b) <= 0.6 * np.abs(a) + 1e-9) and np.all(np.abs(c) <= 0.6 * np.abs(b) + 1e-9)
           and np.all(np.abs(c) < 0.05), f'{a} {b} {c}')


@contract('C05', [f'{BU}.BubbleGenerator.get_chi0', f'{BU}.BubbleGenerator.get_asymptotic_correction'], reps=40)
def completed_bubble(E):
    """core + completion = window sum of GG + (analytic - windowed) tail, for direct and shortcut evaluation"""
    bu = E.mod(BU)
    full = E.choice('full', [False, True])
    nt = E.choice('notation', NOTATIONS)
    nv, x, n = _grid(E)
    nw = E.int('nw', lo=0, hi=x)
    G = sym_g(E, n)
    g = greens(E, n=n, G=G)
    w = E.given('w', (2 * nw + 1,), lambda i: i - nw, kind='i')
    bg = bu.BubbleGenerator(w.a, g, freq_notation=nt, is_full_wn=full)
    X, S = E.array('exact', (2 * nw + 1,)), E.array('window', (2 * nw + 1,))
    ex, su = X.a, S.a
    asked = []
    bg.get_exact_asymptotics = lambda: ex               # callees by their contracts (analytic_tail_sum, windowed_tail_sum)

    def windowed(niv_sum, freq_notation=None):
        asked.append((niv_sum, nt if freq_notation is None else freq_notation))
        return su
    bg.get_asympt_sum = windowed
    core = bg.get_chi0(nv)
    tail = bg.get_asymptotic_correction(nv)

    def spec(i):
        s1, s2 = arguments(E, nt, i - nw)
        return -E.sum(0, 2 * nv, lambda v: G(n - nv + v + s1) * G(n - nv + v + s2)) / g.beta
    E.eq('core', core, (2 * nw + 1,), spec)
    E.eq('completion', tail, (2 * nw + 1,), lambda i: E.get(ex, i) - E.get(su, i))
    E.eq('core + completion', bg.get_chi0(nv, do_asympt=True), (2 * nw + 1,),
         lambda i: spec(i) + E.get(ex, i) - E.get(su, i))
    E.true('same window and notation in core and completion', all((a == nv) & (b == nt) for a, b in asked) if not E.sym else
           [E.true('same window', a == nv) for a, _ in asked] and all(b == nt for _, b in asked))


@contract('C05', [f'{BU}.BubbleGenerator.get_gchi0', f'{BU}.BubbleGenerator.contract_legs', f'{BU}.BubbleGenerator.get_gchi0_vvp_full'], reps=40)
def generator_generalised_bubble(E):
    bu = E.mod(BU)
    full = E.choice('full', [False, True])
    nt = E.choice('notation', NOTATIONS)
    nv, x, n = _grid(E)
    nw = E.int('nw', lo=0, hi=x)
    G = sym_g(E, n)
    g = greens(E, n=n, G=G)
    w = E.given('w', (2 * nw + 1,), lambda i: i - nw, kind='i')
    bg = bu.BubbleGenerator(w.a, g, freq_notation=nt, is_full_wn=full)
    r = bg.get_gchi0(nv)

    def spec(i, v):
        s1, s2 = arguments(E, nt, i - nw)
        return -g.beta * G(n - nv + v + s1) * G(n - nv + v + s2)
    E.eq('-beta GG', r, (2 * nw + 1, 2 * nv), spec)
    E.eq('contracted legs', bg.contract_legs(r), (2 * nw + 1,), lambda i: E.sum(0, 2 * nv, lambda v: spec(i, v)) / g.beta ** 2)
    E.eq('diagonal embedding', bg.get_gchi0_vvp_full(r), (2 * nw + 1, 2 * nv, 2 * nv),
         lambda i, v, vp: E.ite(v == vp, lambda: spec(i, v), 0))
    if nt == 'minus':
        E.eq('explicit notation', bg.get_gchi0(nv, freq_notation='minus'), (2 * nw + 1, 2 * nv), spec)


@contract('C05', [f'{BU}.BubbleGenerator.__init__'], reps=10)
def generator_rejects_unknown_settings(E):
    bu = E.mod(BU)
    w = E.given('w', (3,), lambda i: i - 1, kind='i')
    E.raises('method', ValueError, lambda: bu.BubbleGenerator(w.a, None, chi0_method='exact'))
    E.raises('notation', ValueError, lambda: bu.BubbleGenerator(w.a, None, freq_notation='minuz'))
