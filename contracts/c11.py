"""C11 physical susceptibilities and vertices agree with the full ladder summation."""
from contracts.c10 import CH, SIGN, Axis, params, same_labels, setup
from engine import wholerun
from engine.reg import contract

L, F, H = 'local_four_point', 'four_point', 'high_level_routines'
ASSUMPTIONS = ['numpy.linalg.inv returns the inverse matrix (library function)',
               'bubble generators are used through the contracts of C05/C06 (arbitrary bubbles here)']


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def diag_inv(E, n, B, *ix):
    """element function of diag(1/B[ix]) plus an arbitrary part"""
    return lambda a, b: E.ite(a == b, lambda: 1 / B(*ix, a), 0)


def aux(E, n, b, g, shift, *ix):
    """inverse of diag(1/b) + g - shift"""
    d = diag_inv(E, n, b, *ix)
    return E.matinv(n, lambda p, q: d(p, q) + g(p, q) - shift)


def chi_from_aux(x, tail, ur):
    return 1 / (1 / (x + tail) + ur)


@contract('C11', [f'{L}.chi_phys_urange', f'{L}.chi_phys_asympt', f'{F}.chi_phys_from_chi_aux_q', f'{F}.chi_phys_asympt_q', f'{L}.get_ur'],
          reps=60)
def susceptibility_from_auxiliary(E):
    """same formula for local and for momentum-dependent arrays"""
    lf, fp = E.mod(L), E.mod(F)
    ch = E.choice('channel', CH)
    nq, nw = E.int('nq', lo=1, cmax=4), E.int('nw', lo=1, cmax=5)
    u = E.real('u', pos=True)
    a, c, f, t = (E.array(x, (nq, nw)) for x in ('aux', 'core', 'full', 'tail'))
    ur = SIGN[ch] * u
    E.eq('q: 1/(1/(aux + shell) + U)', fp.chi_phys_from_chi_aux_q(a.a, f.a, c.a, u, ch), (nq, nw),
         lambda q, w: chi_from_aux(a(q, w), f(q, w) - c(q, w), ur))
    E.eq('local: the same at every frequency', lf.chi_phys_urange(a.a[0], c.a[0], f.a[0], u, ch), (nw,),
         lambda w: chi_from_aux(a(0, w), f(0, w) - c(0, w), ur))
    E.eq('q: bubble tail added', fp.chi_phys_asympt_q(a.a, f.a, t.a), (nq, nw), lambda q, w: a(q, w) + t(q, w) - f(q, w))
    E.eq('local: bubble tail added', lf.chi_phys_asympt(a.a[0], f.a[0], t.a[0]), (nw,), lambda w: a(0, w) + t(0, w) - f(0, w))
    E.unchanged('frame', a, c, f, t)


@contract('C11', [f'{L}.gchi_aux_core_from_gammar', f'{L}.local_gchi_aux_from_gammar', f'{L}.local_gchi_aux_from_gammar_wn',
                  f'{L}.LocalNPoint.contract_legs'], reps=60)
def auxiliary_susceptibility(E):
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    B = E.array('chi0', (ax.n, 2 * nv))
    s = SIGN[ch] * u / beta ** 2
    sh = (ax.n, 2 * nv, 2 * nv)

    def spec(i, v, w):
        return aux(E, 2 * nv, B, lambda p, q: X(i, p, q), s, i)(v, w)
    r = lf.gchi_aux_core_from_gammar(x, B.a)
    E.eq('1/(1/chi0 + Gamma - U)', r.mat, sh, spec, tol=1e-7)
    same_labels(E, lf, ax, r, ch, beta, u)
    E.eq('second routine', lf.local_gchi_aux_from_gammar(x, B.a).mat, sh, spec, tol=1e-7)
    E.eq('sum over both legs', x.contract_legs(), (ax.n,),
         lambda i: E.sum(0, 2 * nv, lambda a: E.sum(0, 2 * nv, lambda b: X(i, a, b))) / beta ** 2)
    E.unchanged('frame', X, B)


@contract('C11', [f'{L}.gchi_aux_core_from_gammar_urange', f'{L}.gchi_aux_core'], reps=60)
def auxiliary_susceptibility_in_larger_boxes(E):
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    s = E.int('shell', lo=0, cmax=2)
    n = nv + s
    B = E.array('chi0', (ax.n, 2 * n))
    ur = SIGN[ch] * u / beta ** 2

    def gam(i, a, b):
        c = (a >= s) & (a < s + 2 * nv) & (b >= s) & (b < s + 2 * nv)
        return E.ite(c, lambda: X(i, a - s, b - s), ur)
    r = lf.gchi_aux_core_from_gammar_urange(x, B.a)
    E.eq('Gamma continued by U', r.mat, (ax.n, 2 * n, 2 * n),
         lambda i, v, w: aux(E, 2 * n, B, lambda p, q: gam(i, p, q), ur, i)(v, w), tol=1e-7)
    same_labels(E, lf, ax, r, ch, beta, u)

    def from_chi(i, v, w):
        k = E.matinv(2 * nv, lambda p, q: X(i, p, q))
        return E.matinv(2 * nv, lambda p, q: k(p, q) - ur)(v, w)
    r = lf.gchi_aux_core(x)
    E.eq('from the susceptibility', r.mat, (ax.n, 2 * nv, 2 * nv), from_chi, tol=1e-7)
    same_labels(E, lf, ax, r, ch, beta, u)
    E.unchanged('frame', X, B)


@contract('C11', [f'{L}.vrg_from_gchi_aux', f'{L}.vrg_from_gchi_aux_asympt', f'{F}.vrg_from_gchi_aux', f'{F}.vrg_from_gchi_aux_asympt'], reps=60)
def fermion_boson_vertex(E):
    """inverse bubble times the auxiliary susceptibility summed over the other frequency; local = momentum-dependent"""
    lf, fp = E.mod(L), E.mod(F)
    ch = E.choice('channel', ['dens', 'magn'])
    ax = Axis(E)
    nq, nv = E.int('nq', lo=1, cmax=3), E.int('nv', lo=1, cmax=3)
    beta, u = params(E)
    X, B = E.array('X', (nq, ax.n, 2 * nv, 2 * nv)), E.array('chi0', (nq, ax.n, 2 * nv))
    cu, ca = E.array('chi_u', (nq, ax.n)), E.array('chi_a', (nq, ax.n))
    ur = SIGN[ch] * u
    iq = E.int('iq', lo=0, hi=nq - 1)
    x = ax.obj(lf.LocalFourPoint, ch, X.a[iq], beta, u)
    sh = (ax.n, 2 * nv)

    def vrg(q, i, v, axis=-1):
        return E.sum(0, 2 * nv, lambda t: X(q, i, v, t) if axis == -1 else X(q, i, t, v)) / B(q, i, v)

    def fac(q, i):
        return (1 - ur * cu(q, i)) / (1 - ur * ca(q, i))
    r = lf.vrg_from_gchi_aux(x, B.a[iq])
    E.eq('local', r.mat, sh, lambda i, v: vrg(iq, i, v))
    same_labels(E, lf, ax, r, ch, beta, u, 2)
    E.eq('local, other leg', lf.vrg_from_gchi_aux(x, B.a[iq], sum_axis=-2).mat, sh, lambda i, v: vrg(iq, i, v, -2))
    r = lf.vrg_from_gchi_aux_asympt(x, B.a[iq], cu.a[iq], ca.a[iq])
    E.eq('local with asymptotics', r.mat, sh, lambda i, v: vrg(iq, i, v) * fac(iq, i))
    same_labels(E, lf, ax, r, ch, beta, u, 2)
    E.eq('local with asymptotics, other leg', lf.vrg_from_gchi_aux_asympt(x, B.a[iq], cu.a[iq], ca.a[iq], sum_axis=-2).mat, sh,
         lambda i, v: vrg(iq, i, v, -2) * fac(iq, i))
    E.eq('q', fp.vrg_from_gchi_aux(X.a, B.a), (nq,) + sh, vrg)
    E.eq('q with asymptotics', fp.vrg_from_gchi_aux_asympt(X.a, B.a, cu.a, ca.a, u, ch), (nq,) + sh,
         lambda q, i, v: vrg(q, i, v) * fac(q, i))
    E.unchanged('frame', X, B, cu, ca)


@contract('C11', [f'{F}.get_gchir_aux_from_gammar_q', f'{F}.get_gchir_from_gamma_loc_q'], reps=60)
def lattice_ladder(E):
    """every (q, w) inverts its own bubble with the local vertex of w"""
    lf, fp = E.mod(L), E.mod(F)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    nq = E.int('nq', lo=1, cmax=3)
    B = E.array('chi0', (nq, ax.n, 2 * nv))
    s = SIGN[ch] * u / beta ** 2
    sh = (nq, ax.n, 2 * nv, 2 * nv)
    E.eq('auxiliary', fp.get_gchir_aux_from_gammar_q(x, B.a), sh,
         lambda q, i, v, w: aux(E, 2 * nv, B, lambda a, b: X(i, a, b), s, q, i)(v, w), tol=1e-7)
    E.eq('full', fp.get_gchir_from_gamma_loc_q(x, B.a), sh,
         lambda q, i, v, w: aux(E, 2 * nv, B, lambda a, b: X(i, a, b), 0, q, i)(v, w), tol=1e-7)
    E.unchanged('frame', X, B)


def local_gen(E, ax, nv, n):
    """bubble generator with arbitrary bubbles"""
    gc = E.array('gchi0', (ax.n, 2 * nv))
    c0, cf, tail = E.array('chi0_core', (ax.n,)), E.array('chi0_full', (ax.n,)), E.array('tail', (ax.n,))
    g = Obj()

    def get_chi0(niv, *a, **k):
        if nv != n and niv == nv:
            return c0.a
        E.true('bubble of the full box', niv == n)
        return cf.a

    def get_gchi0(niv, *a, **k):
        E.true('generalised bubble of the core box', niv == nv)
        return gc.a

    def corr(niv, *a, **k):
        E.true('tail beyond the full box', niv == n)
        return tail.a
    g.get_chi0, g.get_gchi0, g.get_asymptotic_correction = get_chi0, get_gchi0, corr
    return g, gc, (c0 if nv != n else cf), cf, tail


@contract('C11', [f'{L}.get_vrg_and_chir_tilde_from_gammar_urange', f'{L}.get_vrg_and_chir_tilde_from_gammar_uasympt'], reps=60)
def local_vertex_and_susceptibility(E):
    lf = E.mod(L)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    s = 0 if E.choice('no shell', [True, False]) else E.int('shell', lo=1, cmax=3)
    g, gc, c0, cf, tail = local_gen(E, ax, nv, nv + s)
    ur = SIGN[ch] * u
    axis = E.choice('axis', [-1, -2])

    def A(i):
        return aux(E, 2 * nv, gc, lambda p, q: X(i, p, q), ur / beta ** 2, i)

    def chi(i):
        m = A(i)
        return chi_from_aux(E.sum(0, 2 * nv, lambda a: E.sum(0, 2 * nv, lambda b: m(a, b))) / beta ** 2, cf(i) - c0(i), ur)

    def vrg(i, v):
        m = A(i)
        return E.sum(0, 2 * nv, lambda t: m(v, t) if axis == -1 else m(t, v)) / gc(i, v)
    v, c = lf.get_vrg_and_chir_tilde_from_gammar_urange(x, g, niv_shell=s, sum_axis=axis)
    E.eq('susceptibility', c, (ax.n,), chi, tol=1e-6)
    E.eq('vertex', v.mat, (ax.n, 2 * nv), vrg, tol=1e-6)
    same_labels(E, lf, ax, v, ch, beta, u, 2)
    v, c = lf.get_vrg_and_chir_tilde_from_gammar_uasympt(x, g, niv_shell=s, sum_axis=axis)
    E.eq('susceptibility with tail', c, (ax.n,), lambda i: chi(i) + tail(i), tol=1e-6)
    E.eq('vertex with tail', v.mat, (ax.n, 2 * nv), lambda i, n: vrg(i, n) * (1 - ur * chi(i)) / (1 - ur * (chi(i) + tail(i))), tol=1e-6)
    E.unchanged('frame', X, gc, c0, cf, tail)


@contract('C11', [f'{L}.get_vrg_and_chir_tilde_from_chir_uasympt', f'{L}.gchi_aux_core'], reps=60)
def local_vertex_from_susceptibility(E):
    lf = E.mod(L)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    s = 0 if E.choice('no shell', [True, False]) else E.int('shell', lo=1, cmax=3)
    g, gc, c0, cf, tail = local_gen(E, ax, nv, nv + s)
    ur = SIGN[ch] * u

    def A(i):
        k = E.matinv(2 * nv, lambda p, q: X(i, p, q))
        return E.matinv(2 * nv, lambda p, q: k(p, q) - ur / beta ** 2)

    def chi(i):
        m = A(i)
        return chi_from_aux(E.sum(0, 2 * nv, lambda a: E.sum(0, 2 * nv, lambda b: m(a, b))) / beta ** 2, cf(i) - c0(i), ur)

    def vrg(i, v):
        m = A(i)
        return E.sum(0, 2 * nv, lambda t: m(v, t)) / gc(i, v)
    v, c = lf.get_vrg_and_chir_tilde_from_chir_uasympt(x, g, u, niv_shell=s)
    E.eq('susceptibility with tail', c, (ax.n,), lambda i: chi(i) + tail(i), tol=1e-6)
    E.eq('vertex with tail', v.mat, (ax.n, 2 * nv), lambda i, n: vrg(i, n) * (1 - ur * chi(i)) / (1 - ur * (chi(i) + tail(i))), tol=1e-6)
    E.unchanged('frame', X, gc, c0, cf, tail)


@contract('C11', [f'{F}.ladder_vertex_from_chi_aux_components', f'{L}.fob2_from_vrg_and_chir', f'{L}.get_f_dc_asympt'], reps=60)
def ladder_vertex(E):
    """F = beta^2/chi0 (1 - chi_aux/chi0) + (1 - U chi) U gamma gamma, from components and from the local routines"""
    lf, fp = E.mod(L), E.mod(F)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    B, G, K, C = E.array('chi0', (ax.n, 2 * nv)), E.array('g', (ax.n, 2 * nv)), E.array('g2', (ax.n, 2 * nv)), E.array('chi', (ax.n,))
    ur = SIGN[ch] * u
    sh = (ax.n, 2 * nv, 2 * nv)

    def f1(i, v, w):
        return beta ** 2 / B(i, v) * (E.ite(v == w, 1, 0) - X(i, v, w) / B(i, w))

    def f2(i, v, w, other=G):
        return ur * G(i, v) * other(i, w)
    a, b = fp.ladder_vertex_from_chi_aux_components(gchi_aux=X.a, vrg=G.a, gchi0=B.a, beta=beta, u_r=ur)
    E.eq('first component', a, sh, f1)
    E.eq('second component', b, sh, f2)
    a, b = fp.ladder_vertex_from_chi_aux_components(gchi_aux=X.a[0], vrg=G.a[0], gchi0=B.a[0], beta=beta, u_r=ur)
    E.eq('first component, one frequency', a, sh[1:], lambda v, w: f1(0, v, w))
    E.eq('second component, one frequency', b, sh[1:], lambda v, w: f2(0, v, w))
    g, k = (ax.obj(lf.LocalThreePoint, ch, y.a, beta, u) for y in (G, K))
    f = lf.fob2_from_vrg_and_chir(x, g, k, C.a, B.a)
    E.eq('vertex / beta^2 from both legs', f.mat, sh, lambda i, v, w: (f1(i, v, w) + (1 - ur * C(i)) * f2(i, v, w, K)) / beta ** 2)
    same_labels(E, lf, ax, f, ch, beta, u)
    f = lf.get_f_dc_asympt(g, x, C.a, B.a, u)
    E.eq('vertex', f.mat, sh, lambda i, v, w: f1(i, v, w) + (1 - ur * C(i)) * f2(i, v, w))
    same_labels(E, lf, ax, f, ch, beta, u)
    E.unchanged('frame', X, B, G, K, C)


@contract('C11', [f'{L}.lam_from_chir', f'{L}.vrg_from_lam', f'{L}.get_chir_shell', f'{L}.get_chir_tilde', f'{L}.get_lam_tilde',
                  f'{L}.get_lam_shell', f'{F}.lam_from_chir_q', f'{F}.get_lam_tilde', f'{F}.get_chir_shell', f'{F}.chir_tilde',
                  f'{F}.vrg_q_tilde'], reps=60)
def lambda_vertex_routines(E):
    """local and momentum-dependent routines evaluate the same expressions"""
    lf, fp = E.mod(L), E.mod(F)
    ch = E.choice('channel', ['dens', 'magn'])
    ax = Axis(E, ('full', 'list'))
    nq, nv = E.int('nq', lo=1, cmax=3), E.int('nv', lo=1, cmax=3)
    iq = E.int('iq', lo=0, hi=nq - 1)
    beta, u = params(E)
    sg = SIGN[ch]
    X, B = E.array('X', (nq, ax.n, 2 * nv, 2 * nv)), E.array('chi0', (nq, ax.n, 2 * nv))
    S, C, Y = E.array('shell', (nq, ax.n)), E.array('chi', (nq, ax.n)), E.array('lam', (nq, ax.n, 2 * nv))
    sh = (ax.n, 2 * nv)
    x = ax.obj(lf.LocalFourPoint, ch, X.a[iq], beta, u)
    y = ax.obj(lf.LocalThreePoint, ch, Y.a[iq], beta, u)

    def lam(q, i, v):
        return -sg * (1 - E.sum(0, 2 * nv, lambda t: X(q, i, v, t)) / B(q, i, v))

    def lamt(q, i, v):
        return (Y(q, i, v) - u * S(q, i)) / (1 + sg * u * S(q, i))

    def shell(q, i):
        return -sg * u * S(q, i) ** 2 + S(q, i) * (1 - 2 * u / beta ** 2 * E.sum(0, 2 * nv, lambda v: (Y(q, i, v) + sg) * B(q, i, v)))

    def tilde(q, i):
        return (C(q, i) + shell(q, i)) / (1 - (u * S(q, i)) ** 2)

    def vrg(q, i, v):
        return (1 + sg * Y(q, i, v)) / (1 - sg * u * C(q, i))
    E.eq('lambda q', fp.lam_from_chir_q(X.a, B.a, ch), (nq,) + sh, lam)
    l = lf.lam_from_chir(x, B.a[iq])
    E.eq('lambda local', l.mat, sh, lambda i, v: lam(iq, i, v))
    same_labels(E, lf, ax, l, ch, beta, u, 2)
    E.eq('lambda tilde q', fp.get_lam_tilde(Y.a, S.a, u, ch), (nq,) + sh, lamt)
    E.eq('lambda tilde local', lf.get_lam_tilde(y, S.a[iq]).mat, sh, lambda i, v: lamt(iq, i, v))
    E.eq('shell q', fp.get_chir_shell(Y.a, S.a, B.a, beta, u, ch), (nq, ax.n), shell)
    E.eq('shell local', lf.get_chir_shell(y, S.a[iq], B.a[iq], u), (ax.n,), lambda i: shell(iq, i))
    E.eq('chi tilde q', fp.chir_tilde(C.a, Y.a, S.a, B.a, beta, u, ch), (nq, ax.n), tilde)
    E.eq('chi tilde local', lf.get_chir_tilde(y, C.a[iq], S.a[iq], B.a[iq], u), (ax.n,), lambda i: tilde(iq, i))
    E.eq('vertex q', fp.vrg_q_tilde(Y.a, C.a, u, ch), (nq,) + sh, vrg)
    E.eq('vertex local', lf.vrg_from_lam(y, C.a[iq]).mat, sh, lambda i, v: vrg(iq, i, v))
    E.unchanged('frame', X, B, S, C, Y)


@contract('C11', [f'{H}.construct_vrg_and_chi_q_urange'], reps=60)
def lattice_vertex_and_susceptibility(E):
    hr, lf = E.mod(H), E.mod(L)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    nq = E.int('nq', lo=1, cmax=3)
    B = E.array('chi0', (nq, ax.n, 2 * nv))
    c0, cf = E.array('chi0_core', (nq, ax.n)), E.array('chi0_full', (nq, ax.n))
    ur = SIGN[ch] * u
    cfg = Obj(sys=Obj(beta=beta, u=u), eliash=Obj(do_pairing_vertex=False), optics=Obj(do_vertex=False), save_fq=False)
    v, c = hr.construct_vrg_and_chi_q_urange(x, B.a, cf.a, c0.a, cfg, None)

    def A(q, i):
        return aux(E, 2 * nv, B, lambda a, b: X(i, a, b), ur / beta ** 2, q, i)

    def chi(q, i):
        m = A(q, i)
        return chi_from_aux(E.sum(0, 2 * nv, lambda a: E.sum(0, 2 * nv, lambda b: m(a, b))) / beta ** 2, cf(q, i) - c0(q, i), ur)

    def vrg(q, i, n):
        m = A(q, i)
        return E.sum(0, 2 * nv, lambda t: m(n, t)) / B(q, i, n)
    E.eq('susceptibility', c, (nq, ax.n), chi, tol=1e-6)
    E.eq('vertex', v, (nq, ax.n, 2 * nv), vrg, tol=1e-6)
    E.unchanged('frame', X, B, c0, cf)


@contract('C11', [f'{F}.get_vrg_and_chir_lad_from_gammar_uasympt_q'], reps=40)
def lattice_vertex_with_tail(E):
    fp, lf = E.mod(F), E.mod(L)
    ax = Axis(E, ('full', 'list'))
    nq, nv, s = E.int('nq', lo=1, cmax=3), E.int('nv', lo=1, cmax=2), E.int('shell', lo=0, cmax=2)
    n = nv + s
    beta, u = params(E)
    X = {c: E.array('X' + c, (ax.n, 2 * nv, 2 * nv)) for c in ('dens', 'magn')}
    x = {c: ax.obj(lf.LocalFourPoint, c, X[c].a, beta, u) for c in X}
    D = E.array('F', (ax.n, 2 * n, 2 * n))
    f = ax.obj(lf.LocalFourPoint, 'magn', D.a, beta, u)
    B, T = E.array('chi0', (nq, ax.n, 2 * n)), E.array('tail', (nq, ax.n))
    V, C = E.array('vrg_loc', (ax.n, 2 * nv)), E.array('chi_loc', (ax.n,))
    vl = ax.obj(lf.LocalThreePoint, 'magn', V.a, beta, u)
    ql = E.array('q', (nq, 3), kind='i', lo=0, hi=5)

    def lst(niv, q):
        E.true('bubble of the full box', niv == n)
        E.true('own momenta', q is ql.a)
        return B.a

    def corr(niv, q):
        E.true('tail beyond the full box', niv == n)
        E.true('own momenta', q is ql.a)
        return T.a
    gen = Obj(get_gchi0_q_list=lst, get_asymptotic_correction_q=corr)
    r = fp.get_vrg_and_chir_lad_from_gammar_uasympt_q(x['dens'], x['magn'], f, vl, C.a, gen, u, ql.a, niv_shell=s)

    def core(q, i, v):
        return B(q, i, v + s)

    def A(c, q, i):
        return aux(E, 2 * nv, core, lambda a, b: X[c](i, a, b), SIGN[c] * u / beta ** 2, q, i)

    def chi(c, q, i):
        m = A(c, q, i)
        full = E.sum(0, 2 * n, lambda v: B(q, i, v)) / beta ** 2
        co = E.sum(0, 2 * nv, lambda v: core(q, i, v)) / beta ** 2
        return chi_from_aux(E.sum(0, 2 * nv, lambda a: E.sum(0, 2 * nv, lambda b: m(a, b))) / beta ** 2, full - co, SIGN[c] * u)

    def vrg(c, q, i, v):
        m = A(c, q, i)
        k = chi(c, q, i)
        return E.sum(0, 2 * nv, lambda t: m(v, t)) / core(q, i, v) * (1 - SIGN[c] * u * k) / (1 - SIGN[c] * u * (k + T(q, i)))
    for k, c in ((0, 'dens'), (1, 'magn')):
        E.eq(f'vertex {c}', r[k], (nq, ax.n, 2 * nv), lambda q, i, v: vrg(c, q, i, v), tol=1e-5)
        E.eq(f'susceptibility {c}', r[k + 2], (nq, ax.n), lambda q, i: chi(c, q, i) + T(q, i), tol=1e-5)
    E.unchanged('frame', X['dens'], X['magn'], D, B, T, V, C)


@contract('C11', [f'{L}.gchi_aux_core_from_gammar', f'{L}.chi_phys_urange', f'{L}.vrg_from_gchi_aux', f'{L}.fob2_from_vrg_and_chir',
                  f'{L}.fob2_from_gamob2_urange', f'{F}.ladder_vertex_from_chi_aux_components'], sym=False, reps=120,
          bounded='consequences of the proved definitions that need matrix algebra (Sherman-Morrison, block inverse)')
def equals_the_full_ladder(E):
    import numpy as np
    lf, fp, hr = E.mod(L), E.mod(F), E.mod(H)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    s = E.int('shell', lo=0, cmax=3)
    n = nv + s
    B = E.array('chi0', (ax.n, 2 * n))
    core = B.a[:, s:s + 2 * nv]
    full = lf.gchir_from_gamob2(lf.get_urange(x, x.u_r / beta ** 2, s), B.a)
    A = lf.gchi_aux_core_from_gammar(x, core)
    c0, cf = core.sum(-1) / beta ** 2, B.a.sum(-1) / beta ** 2
    chi = lf.chi_phys_urange(A.contract_legs(), c0, cf, u, ch)
    E.same('chi = summed ladder in the full box', chi, full.contract_legs(), tol=1e-6)
    g = lf.vrg_from_gchi_aux(A, core)
    k = lf.vrg_from_gchi_aux(A, core, sum_axis=-2)
    E.same('vertex = core of the ladder', g.mat * (1 - x.u_r * chi)[:, None],
           (full.mat.sum(-1) / B.a)[:, s:s + 2 * nv], tol=1e-6)
    fv = lf.fob2_from_vrg_and_chir(A, g, k, chi, core)
    ff = lf.fob2_from_gamob2_urange(x, B.a).mat[:, s:s + 2 * nv, s:s + 2 * nv]
    E.same('full vertex from fermion-boson vertices', fv.mat, ff, tol=1e-5)
    # flat bubble: momentum-dependent = local
    nq = E.int('nq', lo=1, cmax=3)
    cfg = Obj(sys=Obj(beta=beta, u=u), eliash=Obj(do_pairing_vertex=False), optics=Obj(do_vertex=False), save_fq=False)
    vq, cq = hr.construct_vrg_and_chi_q_urange(x, np.repeat(core[None], nq, 0), np.repeat(cf[None], nq, 0), np.repeat(c0[None], nq, 0), cfg, None)
    E.same('lattice = local chi', cq, np.repeat(chi[None], nq, 0), tol=1e-6)
    E.same('lattice = local vertex', vq, np.repeat(g.mat[None], nq, 0), tol=1e-6)
    # identity: u_mat carries u, which only represents the density channel
    E.unchanged('frame', X, B)


@contract('C11', wholerun.PARTS, sym=False, reps=8, bounded=wholerun.BOUNDED)
def susceptibility_of_a_whole_run(E):
    """without lambda correction the program writes the full ladder summation at every momentum; the written vertex is the ladder vertex"""
    i = wholerun.draw(E, corr=['none'])
    d = wholerun.run(E, i, extra={'output': {'save_fq': True}})
    o = wholerun.reference(E, i)
    chi = wholerun.susceptibilities(i, d)
    f = wholerun.vertex(i, o, chi)
    for c in wholerun.SIGN:
        E.same(f'susceptibility {c}', chi[c], o.chi[c], tol=1e-7)
        E.same(f'ladder vertex {c}', wholerun.load(d, f'F_{c}').reshape(f[c].shape), f[c], tol=1e-6)
