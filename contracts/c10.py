"""C10 two-particle relations invert each other exactly."""
from engine.reg import contract

L = 'local_four_point'
CH = ['dens', 'magn', 'updo', 'upup']
SIGN = {'dens': 1, 'magn': -1, 'updo': 1, 'upup': -1}
ASSUMPTIONS = ['numpy.linalg.inv returns the inverse matrix (library function): the same symbol for the same matrix, inv(inv(A)) = A']


class Axis:
    """bosonic axis: complete symmetric grid, non-negative half, or a list of consecutive frequencies anywhere"""

    def __init__(self, E, kinds=('full', 'half', 'list'), cmax=3):
        self.kind = E.choice('wn', list(kinds))
        if self.kind == 'full':
            k = E.int('niw', lo=0, cmax=cmax)
            self.n, self.s, self.wn = 2 * k + 1, -k, None
        elif self.kind == 'half':
            self.n, self.s = E.int('nw', lo=1, cmax=cmax + 1), 0
            self.wn = E.given('wn', (self.n,), lambda i: i, kind='i').a
        else:
            self.n, self.s = E.int('nw', lo=1, cmax=cmax), E.int('w0', lo=None)
            self.wn = E.given('wn', (self.n,), lambda i: self.s + i, kind='i').a

    def label(self, i):
        return self.s + i

    def obj(self, cls, ch, mat, beta, u):
        if self.kind == 'full':
            return cls(ch, mat, beta, u, is_full_w=True)
        return cls(ch, mat, beta, u, wn=self.wn)


def params(E, full_range=True):
    return E.real('beta', pos=True), E.real('u', pos=True)


def setup(E, lf, ch, name='X', kinds=('full', 'half', 'list'), kind='c'):
    ax = Axis(E, kinds)
    nv = E.int('nv', lo=1, cmax=3)
    beta, u = params(E)
    X = E.array(name, (ax.n, 2 * nv, 2 * nv), kind=kind)
    return ax, nv, beta, u, X, ax.obj(lf.LocalFourPoint, ch, X.a, beta, u)


def same_labels(E, lf, ax, obj, ch, beta, u, nd=3):
    """result keeps channel, interaction, temperature and the bosonic labels"""
    E.true('channel kept', obj.channel == ch)
    E.true('type', isinstance(obj, lf.LocalFourPoint if nd == 3 else lf.LocalThreePoint))
    E.scalar('beta kept', obj.beta, beta)
    E.scalar('interaction kept', obj.u, u)
    E.eq('bosonic labels kept', obj.wn, (ax.n,), lambda i: ax.label(i))


def delta(E, i, j):
    return E.ite(i == j, 1, 0)


@contract('C10', [f'{L}.get_ur', f'{L}.get_sign'], reps=20)
def interaction_of_the_channel(E):
    lf = E.mod(L)
    u = E.real('u')
    for c in CH:
        E.scalar(f'U_{c}', lf.get_ur(u, c), SIGN[c] * u)
    for c in ('dens', 'magn'):
        E.scalar(f'sign {c}', lf.get_sign(c), SIGN[c])
    for c in ('trip', 'sing', 'pp', 'density', ''):
        E.raises(f'unknown channel {c}', (ValueError,), lambda: lf.get_ur(u, c))
        E.raises(f'unknown channel {c} (sign)', (ValueError,), lambda: lf.get_sign(c))


@contract('C10', [f'{L}.gchir_from_g2', f'{L}.g2_from_chir', f'{L}.get_ggv'], reps=80)
def g2_and_susceptibility(E):
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch, kind='r')
    extra = E.int('wider', lo=0, cmax=3)
    n = nv + extra
    G = E.array('G', (2 * n,))

    def disc(i, v, w):
        gg = 2 * G(extra + v) * G(extra + w)
        return E.ite(ax.label(i) == 0, gg, 0) if ch == 'dens' else 0
    c = lf.gchir_from_g2(x, G.a)
    E.eq('chi = beta (G2 - 2 G G delta)', c.mat, (ax.n, 2 * nv, 2 * nv), lambda i, v, w: beta * (X(i, v, w) - disc(i, v, w)))
    same_labels(E, lf, ax, c, ch, beta, u)
    back = lf.g2_from_chir(c, G.a)
    E.eq('G2 -> chi -> G2', back.mat, (ax.n, 2 * nv, 2 * nv), lambda *ix: X(*ix))
    g = lf.g2_from_chir(x, G.a)
    E.eq('G2 = chi/beta + 2 G G delta', g.mat, (ax.n, 2 * nv, 2 * nv), lambda i, v, w: X(i, v, w) / beta + disc(i, v, w))
    same_labels(E, lf, ax, g, ch, beta, u)
    E.eq('chi -> G2 -> chi', lf.gchir_from_g2(g, G.a).mat, (ax.n, 2 * nv, 2 * nv), lambda *ix: X(*ix))
    E.unchanged('frame', X, G)


@contract('C10', [f'{L}.get_ggv'], reps=40)
def disconnected_part(E):
    lf = E.mod(L)
    nv, x = E.int('nv', lo=1, cmax=4), E.int('wider', lo=0, cmax=4)
    G = E.array('G', (2 * (nv + x),))
    E.eq('G G in a window', lf.get_ggv(G.a, nv), (2 * nv, 2 * nv), lambda a, b: G(x + a) * G(x + b))
    E.eq('G G on the whole grid', lf.get_ggv(G.a), (2 * (nv + x), 2 * (nv + x)), lambda a, b: G(a) * G(b))
    E.unchanged('frame', G)


@contract('C10', [f'{L}.get_gchi0_full', f'{L}.fob2_from_gchir', f'{L}.gchir_from_fob2'], reps=60)
def full_vertex_and_susceptibility(E):
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    B = E.array('chi0', (ax.n, 2 * nv))
    sh = (ax.n, 2 * nv, 2 * nv)
    E.eq('diagonal', lf.get_gchi0_full(B.a), sh, lambda i, v, w: E.ite(v == w, lambda: B(i, v), 0))
    f = lf.fob2_from_gchir(x, B.a)
    E.eq('F = 1/chi0 - chi/chi0^2', f.mat, sh, lambda i, v, w: E.ite(v == w, lambda: 1 / B(i, v), 0) - X(i, v, w) / (B(i, v) * B(i, w)))
    same_labels(E, lf, ax, f, ch, beta, u)
    E.eq('chi -> F -> chi', lf.gchir_from_fob2(f, B.a).mat, sh, lambda *ix: X(*ix))
    c = lf.gchir_from_fob2(x, B.a)
    E.eq('chi = chi0 - chi0 F chi0', c.mat, sh, lambda i, v, w: E.ite(v == w, lambda: B(i, v), 0) - X(i, v, w) * (B(i, v) * B(i, w)))
    same_labels(E, lf, ax, c, ch, beta, u)
    E.eq('F -> chi -> F', lf.fob2_from_gchir(c, B.a).mat, sh, lambda *ix: X(*ix))
    E.unchanged('frame', X, B)


@contract('C10', [f'{L}.gamob2_from_gchir', f'{L}.gamob2_from_gchir_wn', f'{L}.gchir_from_gamob2', f'{L}.gchir_from_gamob2_wn'], reps=60)
def irreducible_vertex_and_susceptibility(E):
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    B = E.array('chi0', (ax.n, 2 * nv))
    sh = (ax.n, 2 * nv, 2 * nv)

    def inv(i, f):
        return E.matinv(2 * nv, lambda a, b: f(i, a, b))
    g = lf.gamob2_from_gchir(x, B.a)
    E.eq('Gamma = 1/chi - 1/chi0', g.mat, sh, lambda i, v, w: inv(i, X)(v, w) - E.ite(v == w, lambda: 1 / B(i, v), 0), tol=1e-7)
    same_labels(E, lf, ax, g, ch, beta, u)
    E.eq('chi -> Gamma -> chi', lf.gchir_from_gamob2(g, B.a).mat, sh, lambda *ix: X(*ix), tol=1e-6)
    c = lf.gchir_from_gamob2(x, B.a)
    E.eq('chi = 1/(1/chi0 + Gamma)', c.mat, sh,
         lambda i, v, w: inv(i, lambda i, a, b: E.ite(a == b, lambda: 1 / B(i, a), 0) + X(i, a, b))(v, w), tol=1e-7)
    same_labels(E, lf, ax, c, ch, beta, u)
    E.eq('Gamma -> chi -> Gamma', lf.gamob2_from_gchir(c, B.a).mat, sh, lambda *ix: X(*ix), tol=1e-6)
    E.unchanged('frame', X, B)


@contract('C10', [f'{L}.gamob2_from_gchir_urange', f'{L}.gamob2_from_gchir_urange_wn'], reps=60)
def irreducible_vertex_with_shell(E):
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    s = E.int('shell', lo=0, cmax=3)
    n = nv + s
    B = E.array('chi0', (ax.n, 2 * n))
    ur = SIGN[ch] * u
    sh = (ax.n, 2 * nv, 2 * nv)
    g = lf.gamob2_from_gchir_urange(x, B.a)

    def spec(i, v, w):
        t = E.matinv(2 * n, lambda a, b: E.ite(a == b, lambda: 1 / B(i, a), 0) + ur / beta ** 2)
        c = E.matinv(2 * nv, lambda a, b: t(a + s, b + s))
        return E.matinv(2 * nv, lambda a, b: X(i, a, b))(v, w) - c(v, w) + ur / beta ** 2
    E.eq('Gamma = 1/chi - 1/(core of chi tilde) + U', g.mat, sh, spec, tol=1e-6)
    same_labels(E, lf, ax, g, ch, beta, u)
    if s == 0:
        E.eq('no shell: plain relation', g.mat, sh, lambda i, v, w: E.get(lf.gamob2_from_gchir(x, B.a).mat, i, v, w), tol=1e-6)
    E.unchanged('frame', X, B)


@contract('C10', [f'{L}.fob2_from_gamob2_urange', f'{L}.get_urange'], reps=60)
def full_vertex_from_irreducible(E):
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    s = E.int('shell', lo=0, cmax=2)
    n = nv + s
    B = E.array('chi0', (ax.n, 2 * n))
    ur = SIGN[ch] * u
    sh = (ax.n, 2 * n, 2 * n)

    def gam(i, a, b):
        c = (a >= s) & (a < s + 2 * nv) & (b >= s) & (b < s + 2 * nv)
        return E.ite(c, lambda: X(i, a - s, b - s), ur / beta ** 2)
    E.eq('Gamma continued by U', lf.get_urange(x, ur / beta ** 2, s).mat, sh, gam)
    f = lf.fob2_from_gamob2_urange(x, B.a)

    def spec(i, v, w):
        m = E.matinv(2 * n, lambda a, b: E.ite(a == b, 1, 0) + B(i, a) * gam(i, a, b))
        return E.sum(0, 2 * n, lambda j: gam(i, v, j) * m(j, w))
    E.eq('F = Gamma / (1 + chi0 Gamma)', f.mat, sh, spec, tol=1e-6)
    same_labels(E, lf, ax, f, ch, beta, u)
    E.unchanged('frame', X, B)


@contract('C10', [f'{L}.fob2_from_gamob2_urange', f'{L}.gamob2_from_gchir_urange', f'{L}.gchir_from_gamob2', f'{L}.gamob2_from_gchir',
                  f'{L}.fob2_from_gchir', f'{L}.gchir_from_fob2', f'{L}.get_urange', f'{L}.gchi_aux_core_from_gammar_urange'],
          sym=False, reps=150, bounded='consequences of the proved definitions that need matrix algebra (Woodbury, push-through)')
def bethe_salpeter_identities(E):
    import numpy as np
    lf = E.mod(L)
    ch = E.choice('channel', CH)
    ax, nv, beta, u, X, x = setup(E, lf, ch)
    s = E.int('shell', lo=0, cmax=3)
    n = nv + s
    B = E.array('chi0', (ax.n, 2 * n))
    g = lf.fob2_from_gamob2_urange(x, B.a).mat
    full = lf.get_urange(x, x.u_r / beta ** 2, s)
    for i in range(ax.n):
        E.same('F = Gamma - Gamma chi0 F', g[i], full.mat[i] - full.mat[i] @ np.diag(B.a[i]) @ g[i], tol=1e-6)
    chi = lf.gchir_from_gamob2(full, B.a)
    E.same('full-box F of chi', lf.fob2_from_gchir(chi, B.a).mat, g, tol=1e-6)
    E.same('full-box chi of F', lf.gchir_from_fob2(lf.fob2_from_gamob2_urange(x, B.a), B.a).mat, chi.mat, tol=1e-6)
    core = ax.obj(lf.LocalFourPoint, ch, chi.mat[:, s:s + 2 * nv, s:s + 2 * nv].copy(), beta, u)
    E.same('core chi -> Gamma with interaction valued shell', lf.gamob2_from_gchir_urange(core, B.a).mat, X.a, tol=1e-6)
    E.same('object -> shell of width zero', lf.get_urange(x, 3.3, 0).mat, X.a)
    E.unchanged('frame', X, B)
