"""C06 the momentum-dependent bubble is the zone average of G(k)G(k+q)."""
from contracts.c05 import NOTATIONS, Obj, any_range, arguments, exact_tail, greens, room
from engine.reg import contract

BU = 'bubble'


def grid(E, cmax=4):
    return tuple(E.int(c, lo=1, cmax=cmax) for c in ('kx', 'ky', 'kz'))


def zone(E, nk, f):
    nx, ny, nz = nk
    return E.sum(0, nx, lambda a: E.sum(0, ny, lambda b: E.sum(0, nz, lambda c: f(a, b, c)))) / (nx * ny * nz)


def kpq(E, nk, k, q):
    return tuple(E.mod_n(a + b, n) for a, b, n in zip(k, q, nk))


def lattice_g(E, nk, n):
    return E.array('G', nk + (2 * n,))


def lattice_g_sym(E, nk, n):
    P = E.array('P', nk + (n,))

    def g(a, b, c, i):
        return E.ite(i >= n, lambda: P(a, b, c, i - n), lambda: E.conj(P(a, b, c, n - 1 - i)))
    return E.given('G', nk + (2 * n,), g)


def gg(E, G, nk, q, i1, i2):
    """zone average of G(k, i1) G(k+q, i2)"""
    return zone(E, nk, lambda a, b, c: G(a, b, c, i1) * G(*kpq(E, nk, (a, b, c), q), i2))


def window(E):
    nv, x = E.int('nv', lo=1, cmax=3), E.int('x', lo=0, cmax=4)
    return nv, x, nv + x


def one_q(E):
    return tuple(E.int(c, lo=None) for c in ('qx', 'qy', 'qz'))


@contract('C06', [f'{BU}.get_gchi0_q', 'brillouin_zone.shift_mat_by_ind'], reps=60)
def generalised_bubble_q(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nk, q = grid(E), one_q(E)
    nv, x, n = window(E)
    w = E.int('w', lo=None)
    room(E, nt, w, w, x)
    G, beta = lattice_g(E, nk, n), E.real('beta', pos=True)
    s1, s2 = arguments(E, nt, w)
    r = bu.get_gchi0_q(G.a, beta, nv, w, q, nt)
    E.eq('-beta <G(k) G(k+q)>', r, (2 * nv,), lambda v: -beta * gg(E, G, nk, q, n - nv + v + s1, n - nv + v + s2))
    E.unchanged('frame', G)


@contract('C06', [f'{BU}.get_chi0_q'], reps=60)
def bubble_susceptibility_q(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nk, q = grid(E), one_q(E)
    nv, x, n = window(E)
    w = E.int('w', lo=None)
    room(E, nt, w, w, x)
    G, beta = lattice_g(E, nk, n), E.real('beta', pos=True)
    s1, s2 = arguments(E, nt, w)
    r = bu.get_chi0_q(G.a, beta, nv, w, q, nt)
    E.scalar('-1/beta sum_v <G(k) G(k+q)>', r,
             -E.sum(0, 2 * nv, lambda v: gg(E, G, nk, q, n - nv + v + s1, n - nv + v + s2)) / beta)
    E.unchanged('frame', G)


@contract('C06', [f'{BU}.get_gchi0_q', f'{BU}.get_chi0_q'], reps=40)
def only_q_modulo_reciprocal_vector(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nk, q = grid(E), one_q(E)
    m = tuple(E.int(c, lo=None) for c in ('mx', 'my', 'mz'))
    nv, x, n = window(E)
    w = E.int('w', lo=None)
    room(E, nt, w, w, x)
    G, beta = lattice_g(E, nk, n), E.real('beta', pos=True)
    q2 = tuple(a + b * c for a, b, c in zip(q, m, nk))
    E.same('generalised', bu.get_gchi0_q(G.a, beta, nv, w, q2, nt), bu.get_gchi0_q(G.a, beta, nv, w, q, nt))
    E.same('susceptibility', bu.get_chi0_q(G.a, beta, nv, w, q2, nt), bu.get_chi0_q(G.a, beta, nv, w, q, nt))


@contract('C06', [f'{BU}.get_gchi0_q', f'{BU}.get_chi0_q', f'{BU}.get_gchi0', f'{BU}.get_chi0_sum'], reps=60)
def momentum_independent_input_gives_local_bubble(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nk, q = grid(E), one_q(E)
    nv, x, n = window(E)
    w = E.int('w', lo=None)
    room(E, nt, w, w, x)
    g, beta = E.array('g', (2 * n,)), E.real('beta', pos=True)
    G = E.given('G', nk + (2 * n,), lambda a, b, c, i: g(i))
    E.same('generalised', bu.get_gchi0_q(G.a, beta, nv, w, q, nt), bu.get_gchi0(g.a, beta, nv, w, nt))
    E.same('susceptibility', bu.get_chi0_q(G.a, beta, nv, w, q, nt), bu.get_chi0_sum(g.a, beta, nv, w, nt))


def q_list(E, cmax=4):
    nq = E.int('nq', lo=1, cmax=cmax)
    return nq, E.array('q', (nq, 3), kind='i')


def q_of(Q, i):
    return Q(i, 0), Q(i, 1), Q(i, 2)


@contract('C06', [f'{BU}.vec_get_gchi0_q', f'{BU}.vec_get_chi0_q'], reps=60)
def bubble_for_lists(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nk = grid(E)
    nq, Q = q_list(E)
    nv, x, n = window(E)
    m, s = E.int('m', lo=1, cmax=4), E.int('s', lo=None)
    room(E, nt, s, s + m - 1, x)
    E.assume(E.max(E.abs(s), E.abs(s + m - 1)) <= x)
    G, beta = lattice_g(E, nk, n), E.real('beta', pos=True)
    w = E.given('w', (m,), lambda i: s + i, kind='i')

    def pair(iq, i, v):
        s1, s2 = arguments(E, nt, s + i)
        return gg(E, G, nk, q_of(Q, iq), n - nv + v + s1, n - nv + v + s2)
    E.eq('generalised', bu.vec_get_gchi0_q(G.a, beta, nv, w.a, Q.a, nt), (nq, m, 2 * nv), lambda iq, i, v: -beta * pair(iq, i, v))
    E.eq('susceptibility', bu.vec_get_chi0_q(G.a, beta, nv, w.a, Q.a, nt), (nq, m),
         lambda iq, i: -E.sum(0, 2 * nv, lambda v: pair(iq, i, v)) / beta)
    E.unchanged('frame', G, Q, w)


@contract('C06', [f'{BU}.vec_get_gchi0_q', f'{BU}.vec_get_chi0_q'], reps=60)
def shortcut_for_full_bosonic_grid(E):
    bu, mf = E.mod(BU), E.mod('matsubara_frequencies')
    nt = E.choice('notation', NOTATIONS)
    nk = grid(E)
    nq, Q = q_list(E)
    nv, x, n = window(E)
    nw = E.int('nw', lo=0, hi=x)
    G, beta = lattice_g_sym(E, nk, n), E.real('beta', pos=True)

    def pair(iq, i, v):
        s1, s2 = arguments(E, nt, i - nw)
        return gg(E, G, nk, q_of(Q, iq), n - nv + v + s1, n - nv + v + s2)
    E.eq('generalised', bu.vec_get_gchi0_q(G.a, beta, nv, mf.wn(nw), Q.a, nt, is_full_wn=True), (nq, 2 * nw + 1, 2 * nv),
         lambda iq, i, v: -beta * pair(iq, i, v))
    E.eq('susceptibility', bu.vec_get_chi0_q(G.a, beta, nv, mf.wn(nw), Q.a, nt, is_full_wn=True), (nq, 2 * nw + 1),
         lambda iq, i: -E.sum(0, 2 * nv, lambda v: pair(iq, i, v)) / beta)


@contract('C06', [f'{BU}.BubbleGenerator.get_chi0_q_list', f'{BU}.BubbleGenerator.get_gchi0_q_list'], reps=60)
def generator_lists(E):
    bu = E.mod(BU)
    full = E.choice('full', [False, True])
    nt = E.choice('notation', NOTATIONS)
    own = E.choice('own', [True, False])
    nk = grid(E)
    nq, Q = q_list(E)
    nv, x, n = window(E)
    nw = E.int('nw', lo=0, hi=x)
    G = lattice_g_sym(E, nk, n)
    g = greens(E)
    g.g_full = lambda *a, **k: G.a
    w = E.given('w', (2 * nw + 1,), lambda i: i - nw, kind='i')
    bg = bu.BubbleGenerator(w.a, g, freq_notation=nt if own else 'minus', is_full_wn=full)
    k = {} if own else {'freq_notation': nt}

    def pair(iq, i, v):
        s1, s2 = arguments(E, nt, i - nw)
        return gg(E, G, nk, q_of(Q, iq), n - nv + v + s1, n - nv + v + s2)
    E.eq('generalised', bg.get_gchi0_q_list(nv, Q.a, **k), (nq, 2 * nw + 1, 2 * nv), lambda iq, i, v: -g.beta * pair(iq, i, v))
    E.eq('susceptibility', bg.get_chi0_q_list(nv, Q.a, **k), (nq, 2 * nw + 1),
         lambda iq, i: -E.sum(0, 2 * nv, lambda v: pair(iq, i, v)) / g.beta)
    E.unchanged('frame', G, Q, w)


@contract('C06', [f'{BU}.BubbleGenerator.get_ek_ekpq', f'{BU}.BubbleGenerator.get_asympt_prefactors_q'], reps=40)
def tail_prefactors_q(E):
    bu = E.mod(BU)
    nk = grid(E)
    nq, Q = q_list(E)
    g = greens(E, ek_shape=nk)
    w = E.given('w', (1,), lambda i: 0, kind='i')
    bg = bu.BubbleGenerator(w.a, g)
    ek = g.EK

    def pair(iq):
        return zone(E, nk, lambda a, b, c: ek(a, b, c) * ek(*kpq(E, nk, (a, b, c), q_of(Q, iq))))
    E.eq('<e(k) e(k+q)>', bg.get_ek_ekpq(Q.a), (nq,), pair)
    f1, f2, f3 = bg.get_asympt_prefactors_q(Q.a)
    a = g.mu - g.sigma.smom0
    E.scalar('1/v^2', f1, a)
    E.scalar('1/v^3', f2, a ** 2 + zone(E, nk, lambda i, j, k: ek(i, j, k) ** 2) - g.sigma.smom1)
    E.eq('mixed', f3, (nq,), lambda iq: a ** 2 + pair(iq))
    E.unchanged('frame', ek, Q)


def opaque_factors(E, bg, nq):
    """callee by its contract (tail_prefactors_q): arbitrary coefficients"""
    f1, f2, F3 = E.real('fac1'), E.real('fac2'), E.array('fac3', (nq,), kind='f')
    bg.get_asympt_prefactors_q = lambda q_list: (f1, f2, F3.a)
    return f1, f2, F3


@contract('C06', [f'{BU}.BubbleGenerator.get_asympt_sum_q'], reps=40, budget=200)
def windowed_tail_sum_q(E):
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    nq, Q = q_list(E)
    g = greens(E)
    nv = E.int('nv', lo=1, cmax=5)
    m, _, w = any_range(E)
    bg = bu.BubbleGenerator(w.a, g, freq_notation=nt)
    f1, f2, f3 = opaque_factors(E, bg, nq)

    def spec(iq, i):
        s1, s2 = arguments(E, nt, w(i))

        def term(v):
            a = 1 / (E.i * E.pi / g.beta * (2 * (v - nv + s1) + 1))
            b = 1 / (E.i * E.pi / g.beta * (2 * (v - nv + s2) + 1))
            return a * b - f1 * (a * a * b + a * b * b) + f2 * (a ** 3 * b + a * b ** 3) + f3(iq) * a * a * b * b
        return -E.sum(0, 2 * nv, term) / g.beta
    E.eq('-1/beta sum over the window', bg.get_asympt_sum_q(nv, Q.a), (nq, m), spec)
    E.unchanged('frame', w, Q)


@contract('C06', [f'{BU}.BubbleGenerator.get_asympt_sum_q', f'{BU}.BubbleGenerator.get_asymptotic_correction_q'], reps=40, budget=300)
def windowed_tail_sum_q_notation(E):
    """a notation given explicitly overrides the one of the generator"""
    bu = E.mod(BU)
    nt, dn = E.choice('notation and default', [('plus', 'minus'), ('center', 'minus'), ('minus', 'center')])
    nq, Q = q_list(E)
    g = greens(E)
    nv = E.int('nv', lo=1, cmax=5)
    m, _, w = any_range(E)
    X = E.array('exact', (nq, m))
    f = E.real('fac1'), E.real('fac2'), E.array('fac3', (nq,), kind='f').a

    def generator(notation):
        bg = bu.BubbleGenerator(w.a, g, freq_notation=notation)
        bg.get_asympt_prefactors_q = lambda q_list: f
        bg.get_exact_asymptotics_q = lambda q_list: X.a
        return bg
    E.same('given notation wins', generator(dn).get_asympt_sum_q(nv, Q.a, freq_notation=nt), generator(nt).get_asympt_sum_q(nv, Q.a))
    bg, A = generator(dn), {x: E.array(f'sum {x}', (nq, m)) for x in (dn, nt)}
    bg.get_asympt_sum_q = lambda niv_sum, q_list, freq_notation=None: A[freq_notation or dn].a
    E.eq('in the correction', bg.get_asymptotic_correction_q(nv, Q.a, freq_notation=nt), (nq, m), lambda q, i: X(q, i) - A[nt](q, i))
    E.eq('default in the correction', bg.get_asymptotic_correction_q(nv, Q.a), (nq, m), lambda q, i: X(q, i) - A[dn](q, i))


@contract('C06', [f'{BU}.BubbleGenerator.get_exact_asymptotics_q'], reps=40)
def analytic_tail_sum_q(E):
    bu = E.mod(BU)
    nq, Q = q_list(E)
    g = greens(E)
    nw = E.int('nw', lo=0, cmax=5)
    w = E.given('w', (2 * nw + 1,), lambda i: i - nw, kind='i')
    bg = bu.BubbleGenerator(w.a, g)
    f1, f2, f3 = opaque_factors(E, bg, nq)
    E.eq('analytic sum', bg.get_exact_asymptotics_q(Q.a), (nq, 2 * nw + 1), lambda iq, i: exact_tail(E, g, i - nw, f2, f3(iq)))
    E.unchanged('frame', w, Q)


@contract('C06', [f'{BU}.BubbleGenerator.get_asymptotic_correction_q', f'{BU}.BubbleGenerator.get_chi0q_shell'], reps=40)
def shell_bubble(E):
    """core + shell = bubble of the full window + (analytic - windowed) tail at the same q"""
    bu = E.mod(BU)
    nt = E.choice('notation', NOTATIONS)
    own = E.choice('own', [True, False])
    nq, Q = q_list(E)
    g = greens(E)
    nc, ns, nw = E.int('nc', lo=1, cmax=3), E.int('ns', lo=0, cmax=3), E.int('nw', lo=0, cmax=3)
    w = E.given('w', (2 * nw + 1,), lambda i: i - nw, kind='i')
    bg = bu.BubbleGenerator(w.a, g, freq_notation=nt if own else 'minus')
    k = {} if own else {'freq_notation': nt}
    sh = (nq, 2 * nw + 1)
    X, S, C, F = (E.array(c, sh) for c in ('exact', 'window', 'core', 'full'))
    asked = []

    def windowed(niv, q_list, freq_notation=None):
        asked.append((niv, nt if freq_notation is None and own else freq_notation))
        return S.a

    def bubble(niv, q_list, freq_notation=None):
        asked.append((niv, nt if freq_notation is None and own else freq_notation))
        return F.a
    bg.get_exact_asymptotics_q = lambda q_list: X.a
    bg.get_asympt_sum_q = windowed
    bg.get_chi0_q_list = bubble
    r = bg.get_asymptotic_correction_q(nc, Q.a, **k)
    E.eq('correction', r, sh, lambda iq, i: X(iq, i) - S(iq, i))
    E.true('window', asked[-1][0] == nc)
    E.true('notation', asked[-1][1] == nt)
    asked.clear()
    r = bg.get_chi0q_shell(C.a, nc, ns, Q.a, **k)
    E.eq('shell', r, sh, lambda iq, i: F(iq, i) - C(iq, i) + X(iq, i) - S(iq, i))
    for a, b in asked:
        E.true('full window', a == nc + ns)
        E.true('full notation', b == nt)
    E.unchanged('frame', X, S, C, F, Q, w)


@contract('C06', [f'{BU}.BubbleGenerator.get_chi0q_shell', f'{BU}.BubbleGenerator.get_asymptotic_correction_q',
                  f'{BU}.BubbleGenerator.get_chi0'], sym=False, reps=12, bounded='numerical cross-check local/non-local completion')
def flat_band_completion_is_local(E):
    """for a momentum independent Green's function the completed bubble equals the local one at every q"""
    import numpy as np
    bu = E.mod(BU)
    nk = grid(E, 3)
    nq, Q = q_list(E, 3)
    n = 40
    g = greens(E)
    g.EK = E.given('ek', nk, lambda a, b, c: 0.0, kind='f')
    g.ek = g.EK.a
    v = 1j * np.pi / g.beta * (2 * np.arange(-n, n) + 1)
    g.g_loc = 1 / (v + 0.3 - 0.2 / v)
    gk = np.broadcast_to(g.g_loc, nk + (2 * n,)).copy()
    g.g_full = lambda *a, **k: gk
    nw = E.int('nw', lo=0, cmax=4)
    w = np.arange(-nw, nw + 1)
    bg = bu.BubbleGenerator(w, g, is_full_wn=E.choice('full', [True, False]))
    nc, ns = E.int('nc', lo=1, cmax=5), E.int('ns', lo=0, cmax=5)
    core = bg.get_chi0_q_list(nc, Q.a)
    tot = core + bg.get_chi0q_shell(core, nc, ns, Q.a)
    loc = bg.get_chi0(nc + ns, do_asympt=True)
    E.eq('same for every q', tot, (nq, 2 * nw + 1), lambda iq, i: loc[i])
