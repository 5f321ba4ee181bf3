"""C20 optical response sums use the documented momenta, frequencies and weights."""
from contracts.c06 import grid, kpq, zone
from contracts.c11 import Obj
from engine import wholerun
from engine.reg import contract

OP, MF = 'optics', 'matsubara_frequencies'
ASSUMPTIONS = ['light vertices are those of WannierHr.get_light_vertex (C19)', 'sum over MPI processes: Allreduce contract of C09',
               'numpy.trapz (bounded contract)']
SHIFT = {'minus': lambda w: (0, -w), 'plus': lambda w: (0, w), 'center': lambda w: (w // 2 + w % 2, -(w // 2))}


@contract('C20', [f'{OP}.get_chijj_bubble', f'{MF}.get_freq_shift'], reps=60)
def bubble(E):
    """-2/beta <v_a v_b sum_nu G(k,nu) G(k,nu-omega)>"""
    op = E.mod(OP)
    nk, m, w = grid(E, 3), E.int('niv_sum', lo=1, cmax=3), E.int('w', lo=None)
    x = E.int('x', lo=0, cmax=6)
    E.assume(w <= x)
    E.assume(-w <= x)
    n = m + x
    G, A, B, beta = E.array('G', nk + (2 * n,)), E.array('va', nk, kind='f'), E.array('vb', nk, kind='f'), E.real('beta', pos=True)

    def want(s1, s2):
        return -2 / beta * zone(E, nk, lambda a, b, c: A(a, b, c) * B(a, b, c) * E.sum(0, 2 * m, lambda v: G(a, b, c, x + v + s1) * G(a, b, c, x + v + s2)))
    E.scalar('nu, nu - omega', op.get_chijj_bubble(G.a, A.a, B.a, beta, w, m), want(0, -w))
    E.scalar('minus', op.get_chijj_bubble(G.a, A.a, B.a, beta, w, m, freq_notation='minus'), want(0, -w))
    E.scalar('plus', op.get_chijj_bubble(G.a, A.a, B.a, beta, w, m, freq_notation='plus'), want(0, w))
    E.unchanged('frame', G, A, B)


@contract('C20', [f'{OP}.vec_get_chijj_bubble'], reps=40)
def bubble_for_all_frequencies(E):
    op = E.mod(OP)
    nk, m, nw, x = grid(E, 3), E.int('niv_sum', lo=1, cmax=3), E.int('nw', lo=1, cmax=3), E.int('x', lo=0, cmax=4)
    w0 = E.int('w0', lo=None)
    E.assume(w0 >= -x)
    E.assume(w0 + nw - 1 <= x)
    n = m + x
    G, A, B, beta = E.array('G', nk + (2 * n,)), E.array('va', nk, kind='f'), E.array('vb', nk, kind='f'), E.real('beta', pos=True)
    w = E.given('w', (nw,), lambda i: w0 + i, kind='i')
    asked = []

    def lv(kg, der=0):
        asked.append((kg, der))
        return A.a if der == 0 else B.a
    kg = Obj(nk_tot=nk[0] * nk[1] * nk[2])
    r = op.vec_get_chijj_bubble(Obj(beta=beta, g_full=lambda: G.a), Obj(get_light_vertex=lv), kg, w.a, m, der_a=0, der_b=1)
    E.true('light vertices on the grid', all(k is kg for k, _ in asked) and {d for _, d in asked} == {0, 1})
    E.eq('every frequency', r, (nw,), lambda i: -2 / beta * zone(E, nk, lambda a, b, c: A(a, b, c) * B(a, b, c) * E.sum(
        0, 2 * m, lambda v: G(a, b, c, x + v) * G(a, b, c, x + v - (w0 + i)))))


def scene(E, nc=None):
    nk = grid(E, 3)
    nq, np_, p0 = E.int('nq', lo=1, cmax=3), E.int('nwp', lo=1, cmax=3), E.int('p0', lo=None)
    m, x = E.int('nv', lo=1, cmax=2), E.int('x', lo=0, cmax=12)
    n = m + x
    G, A, B = E.array('G', nk + (2 * n,)), E.array('va', nk, kind='f'), E.array('vb', nk, kind='f')
    q = E.array('q', (nq, 3), kind='i', lo=-3, hi=7)
    p = E.given('wp', (np_,), lambda i: p0 + i, kind='i')
    return nk, nq, np_, p0, m, x, n, G, A, B, q, p, E.real('beta', pos=True), E.int('nktot', lo=1, cmax=40)


def vertex_part(E, nk, nq, np_, p0, m, off, G, A, B, q, beta, nkt, F, w):
    """G(v): position off + v"""
    def at_q(i, a, b, c):
        k = kpq(E, nk, (a, b, c), tuple(q(i, d) for d in range(3)))
        return zone_term(i, a, b, c, k)

    def zone_term(i, a, b, c, k):
        return A(a, b, c) * B(*k) * E.sum(0, 2 * m, lambda v: G(a, b, c, off + v - w) * G(a, b, c, off + v) * E.sum(0, np_, lambda j: G(
            *k, off + v - (p0 + j)) * G(*k, off + v - (p0 + j) - w) * F(i, j, v)))
    return -2 / (beta ** 2 * nkt) * E.sum(0, nq, lambda i: zone(E, nk, lambda a, b, c: at_q(i, a, b, c)))


@contract('C20', [f'{OP}.get_chijj_vertex', 'brillouin_zone.shift_mat_by_ind'], reps=40, budget=120)
def vertex_correction(E):
    """-2/(beta^2 N) sum_q <v_a(k) v_b(k+q) sum_nu GG(k) sum_omega' GG(k+q) F>"""
    op = E.mod(OP)
    nk, nq, np_, p0, m, x, n, G, A, B, q, p, beta, nkt = scene(E)
    w = E.int('w', lo=None)
    for z in (w, p0, p0 + np_ - 1, p0 + w, p0 + np_ - 1 + w):
        E.assume(z <= x)
        E.assume(-z <= x)
    F = E.array('F', (nq, np_, 2 * m))
    r = op.get_chijj_vertex(F.a, A.a, B.a, G.a, beta, w, p.a, q.a, nkt)
    E.scalar('quadruple sum', r, vertex_part(E, nk, nq, np_, p0, m, x, G, A, B, q, beta, nkt, F, w))
    E.unchanged('frame', F, G, A, B, q, p)


@contract('C20', [f'{OP}.vec_get_chijj_vert'], reps=40, budget=180)
def vertex_correction_for_all_frequencies(E):
    op = E.mod(OP)
    nk, nq, _, _, m, x, _, _, A, B, q, _, beta, nkt = scene(E)
    P, W = E.int('niw_vert', lo=0, cmax=2), E.int('niw_cond', lo=0, cmax=2)
    n = m + P + W + x
    G = E.array('Gf', nk + (2 * n,))
    F = E.array('F', (nq, 2 * P + 1, W + 1, 2 * m))
    wv, wc = E.given('wv', (2 * P + 1,), lambda i: i - P, kind='i'), E.given('wc', (W + 1,), lambda i: i, kind='i')
    kg = Obj(nk_tot=nkt)
    hr = Obj(get_light_vertex=lambda k, der=0: A.a if der == 0 else B.a)
    r = op.vec_get_chijj_vert(F.a, Obj(beta=beta, g_full=lambda: G.a), hr, kg, wv.a, wc.a, q.a, der_a=0, der_b=1)
    E.eq('every frequency', r, (W + 1,), lambda t: vertex_part(E, nk, nq, 2 * P + 1, -P, m, n - m, G, A, B, q, beta, nkt, lambda i, j, v: F(i, j, t, v), t))


@contract('C20', [f'{OP}.get_chijj_vertex'], reps=30, budget=120)
def parts_of_the_momentum_sum_add_up(E):
    """splitting the list of momenta anywhere and adding the two results gives the full result"""
    op = E.mod(OP)
    nk, nq, np_, p0, m, x, n, G, A, B, q, p, beta, nkt = scene(E)
    w, s = E.int('w', lo=None), E.int('split', lo=0, hi=nq)
    for z in (w, p0, p0 + np_ - 1, p0 + w, p0 + np_ - 1 + w):
        E.assume(z <= x)
        E.assume(-z <= x)
    F = E.array('F', (nq, np_, 2 * m))
    one = op.get_chijj_vertex(F.a, A.a, B.a, G.a, beta, w, p.a, q.a, nkt)
    a = op.get_chijj_vertex(F.a[:s], A.a, B.a, G.a, beta, w, p.a, q.a[:s], nkt)
    b = op.get_chijj_vertex(F.a[s:], A.a, B.a, G.a, beta, w, p.a, q.a[s:], nkt)
    E.scalar('sum of the parts', one, a + b)


@contract('C20', [f'{MF}.add_bosonic', f'{MF}.niw_from_mat'], reps=80)
def bubble_and_vertex_of_different_range(E):
    mf = E.mod(MF)
    n1, n2, t = E.int('n1', lo=0, cmax=4), E.int('n2', lo=0, cmax=4), E.int('t', lo=1, cmax=3)
    A, B = E.array('A', (2 * n1 + 1,), kind='r'), E.array('B', (2 * n2 + 1,), kind='r')

    def at(X, n, w):
        return E.ite((w >= -n) & (w <= n), lambda: X(n + w), lambda: 0)
    N = E.max(n1, n2)
    E.eq('equal frequencies', mf.add_bosonic(A.a, B.a), (2 * N + 1,), lambda i: at(A, n1, i - N) + at(B, n2, i - N))
    C, D = E.array('C', (t, 2 * n1 + 1), kind='r'), E.array('D', (t, 2 * n2 + 1), kind='r')
    E.eq('another axis', mf.add_bosonic(C.a, D.a, axis=1), (t, 2 * N + 1),
         lambda k, i: at(lambda j: C(k, j), n1, i - N) + at(lambda j: D(k, j), n2, i - N))
    E.unchanged('frame', A, B, C, D)


@contract('C20', [f'{OP}.vec_get_chijj_bubble_realf', f'{OP}.get_sigma_from_chijj_realf'], reps=20, sym=False, bounded='trapezoidal rule and interpolation of scipy')
def real_frequency_bubble(E):
    """-2 <v v int dnu f(nu) A(nu) [G(nu+w) + conj G(nu-w)]>, windows symmetric about zero"""
    op, np, rng = E.mod(OP), E.np, E.nprng
    nk = tuple(int(rng.integers(1, 4)) for _ in range(3))
    half = int(rng.integers(30, 60))
    w = np.linspace(-6, 6, 2 * half + 1)
    beta = rng.uniform(2, 10)
    g = 1 / (w + 1j * rng.uniform(.2, .5) - rng.uniform(-2, 2, nk)[..., None])
    A, B = rng.uniform(-1, 1, nk), rng.uniform(-1, 1, nk)
    obj = Obj(w=w, gwk=lambda pi_shift=False: g, awk=lambda pi_shift=False: -g.imag / np.pi)
    wmax = rng.uniform(1, 4)
    hr = Obj(get_light_vertex=lambda k, der=0: A if der == 0 else B)
    chi, wb = op.vec_get_chijj_bubble_realf(obj, hr, None, beta, wmax, 0, 1)
    im = int(np.argmin(np.abs(w - wmax)))
    h = 2 * half + 1 - im
    E.true('frequencies', np.allclose(wb, w[half + 1:im]))
    ok = True
    for i in (0, len(wb) // 2, len(wb) - 1):
        vs = [v for v in range(half - h + 1, half + h)]
        f = np.array([-2 * np.mean(A * B * 1 / (np.exp(beta * w[v]) + 1) * (-g.imag / np.pi)[..., v] * (g[..., v + i + 1] + np.conj(g[..., v - i - 1]))) for v in vs])
        full = np.sum((f[1:] + f[:-1]) / 2) * (w[1] - w[0])
        ok = ok and abs(chi[i] - full) < 1e-3 * max(1, abs(full))
    E.true('integral over the window', ok)
    s, wn = op.get_sigma_from_chijj_realf(chi, wb)
    E.true('conductivity is chi/omega', bool(np.allclose(s[1:], chi.imag / wb)) and bool(np.allclose(wn, np.concatenate([[0], wb]))))


@contract('C20', [f'{OP}.vec_get_chijj_bubble_realf', f'{OP}.vec_get_sigma_bub_realf', f'{OP}.get_sigma_from_chijj_realf', f'{OP}.fermi_function'], reps=30,
          sym=False, bounded='trapezoidal rule and interpolation of scipy on meshes of 400 to 800 points')
def real_frequency_bubble_on_every_mesh(E):
    """the frequencies of the propagators are nu + w and nu - w whatever the spacing of the mesh; the documented integral up to discretisation"""
    op, ac, np, rng = E.mod(OP), E.mod('analytic_continuation'), E.np, E.nprng
    nk = tuple(int(rng.integers(1, 3)) for _ in range(3))
    kind = E.choice('mesh', ['linear', 'tan', 'lorentzian', 'hyperbolic'])
    n, top = int(rng.integers(400, 800)), float(rng.uniform(8, 15))
    w = ac.get_w_mesh(kind, -top, top, n, 0.04)
    beta, wmax, s = rng.uniform(2, 5), top / 3, rng.uniform(.3, .5)
    e, A, B = rng.uniform(-1.5, 1.5, nk), rng.uniform(-1, 1, nk), rng.uniform(-1, 1, nk)

    def green(x):
        return 1 / (x + 1j * s - e[..., None])
    g = green(w)
    obj = Obj(w=w, gwk=lambda pi_shift=False: g, awk=lambda pi_shift=False: -g.imag / np.pi)
    hr = Obj(get_light_vertex=lambda k, der=0: A if der == 0 else B)
    chi, wb = op.vec_get_chijj_bubble_realf(obj, hr, None, beta, wmax, 0, 1)
    E.true('positive frequencies of the mesh', len(wb) == len(chi) and bool(np.all(wb > -1e-12)) and bool(np.all(np.isin(wb, w))))
    pos = w[w > 1e-9]
    E.true('up to the limit', wb[0] <= pos[2] and pos[max(0, np.searchsorted(pos, wmax) - 3)] <= wb[-1] <= pos[np.searchsorted(pos, wmax) + 1])
    lim = top - wmax
    v = np.linspace(-lim, lim, 4001)
    f = (A * B)[..., None] / (np.exp(beta * v) + 1) * -green(v).imag / np.pi
    scale = np.mean(abs(A * B)) / s
    for i in sorted({0, len(wb) // 3, len(wb) - 1}):
        y = f * (green(v + wb[i]) + np.conj(green(v - wb[i])))
        full = -2 * np.mean(np.sum((y[..., 1:] + y[..., :-1]) / 2, axis=-1) * (v[1] - v[0]))
        E.true('the documented integral', abs(chi[i] - full) < .02 * scale, f'{kind} {n} {wb[i]}: {chi[i]} {full}')
    s1, w1 = op.vec_get_sigma_bub_realf(obj, hr, None, beta, wmax, 0, 1)
    E.true('conductivity is chi/omega', bool(np.allclose(s1[1:], chi.imag / wb)) and bool(np.allclose(w1, np.concatenate([[0], wb]))))


@contract('C20', wholerun.PARTS[:1] + [f'{OP}.vec_get_chijj_bubble', f'{OP}.vec_get_chijj_vert', f'{OP}.build_vertex_for_optical_conductivity',
                                       f'{OP}.write_optics_vertex_components'], sym=False, reps=8, bounded=wholerun.BOUNDED)
def response_of_a_whole_run(E):
    """both parts of the current correlation written by the program, from its Green's function and ladder vertex"""
    i = wholerun.draw(E, least=(1, 2))
    a, b = E.choice('a', [0, 1]), E.choice('b', [0, 1])
    d = wholerun.run(E, i, extra={'optics': {'do_bubble': True, 'do_vertex': True, 'der_a': a, 'der_b': b}})
    o = wholerun.reference(E, i)
    F = wholerun.vertex(i, o, wholerun.tame(E, wholerun.susceptibilities(i, d)))
    g = wholerun.load(d, 'giwk_dga')
    e = wholerun.folder(d, 'Optics')
    bub, ver = wholerun.load(e, 'chijj_bubble'), wholerun.load(e, 'chijj_vert')
    m = min(i.niw // 2, i.nv - 1)
    E.true('frequency range', len(bub) == len(ver) == 2 * m + 1)
    for w in range(m + 1):
        x = wholerun.current_bubble(i, g, a, b, w, i.nv + i.s + 2 * i.niw - 2 * m)
        y = wholerun.current_vertex(i, o, g, F, a, b, w, i.nv - m, i.niw)
        E.true('bubble', abs(bub[m + w] - x) < 1e-8 and abs(bub[m - w] - E.np.conj(x)) < 1e-8, f'{bub[m + w]} {x}')
        E.true('vertex part', abs(ver[m + w] - y) < 1e-8 and abs(ver[m - w] - E.np.conj(y)) < 1e-8, f'{ver[m + w]} {y}')
