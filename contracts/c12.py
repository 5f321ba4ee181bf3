"""C12 the local Schwinger-Dyson equation is evaluated term by term as defined."""
from contracts.c10 import SIGN, Axis, params
from engine import wholerun
from engine.reg import contract

L, T, F = 'local_four_point', 'two_point', 'four_point'


def scene(E, kinds=('full', 'list')):
    """bosonic axis, core window nv, Green's function wide enough for all shifted windows of nv + s frequencies"""
    ax = Axis(E, kinds)
    nv, s = E.int('nv', lo=1, cmax=3), E.int('shell', lo=0, cmax=3)
    x = E.int('x', lo=0, cmax=7)
    E.assume(ax.label(0) >= -x)
    E.assume(ax.label(ax.n - 1) <= x)
    n = nv + s + x
    G = E.array('G', (2 * n,))
    beta, u = params(E)
    return ax, nv, s, n, G, beta, u


def core_term(E, ax, nv, n, G, beta, ur, chi, vrg):
    """U_r/(2 beta) sum_w [1 - (1 - U_r chi) vrg] G(v - w)"""
    return lambda v: ur / (2 * beta) * E.sum(0, ax.n, lambda i: (1 - (1 - ur * chi(i)) * vrg(i, v)) * G(n - nv + v - ax.label(i)))


def shell_term(E, ax, nv, s, n, G, beta, u, chi):
    """U^2/(2 beta) sum_w chi G(v - w), v in the shell |v| >= nv: position v < s negative frequencies"""
    def f(v):
        pos = E.ite(v < s, lambda: n - nv - s + v, lambda: n + nv + (v - s))
        return u ** 2 / (2 * beta) * E.sum(0, ax.n, lambda i: chi(i) * G(pos - ax.label(i)))
    return f


def whole(E, nv, s, core, shell):
    def f(v):
        return E.ite(v < s, lambda: shell(v), lambda: E.ite(v < s + 2 * nv, lambda: core(v - s), lambda: shell(v - 2 * nv)))
    return f


@contract('C12', [f'{L}.schwinger_dyson_vrg', 'matsubara_frequencies.wn_slices_gen'], reps=60)
def core_part(E):
    lf = E.mod(L)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, s, n, G, beta, u = scene(E)
    V, C = E.array('vrg', (ax.n, 2 * nv)), E.array('chi', (ax.n,))
    v = ax.obj(lf.LocalThreePoint, ch, V.a, beta, u)
    E.eq('U/2b sum [1 - (1 - U chi) vrg] G', lf.schwinger_dyson_vrg(v, C.a, G.a), (2 * nv,),
         core_term(E, ax, nv, n, G, beta, SIGN[ch] * u, C, V))
    E.unchanged('frame', V, C, G)


@contract('C12', [f'{L}.schwinger_dyson_shell', f'{F}.schwinger_dyson_shell', 'matsubara_frequencies.wn_slices_shell'], reps=60)
def shell_part(E):
    lf, fp = E.mod(L), E.mod(F)
    ax, nv, s, n, G, beta, u = scene(E)
    E.assume(s > 0)
    C = E.array('chi', (ax.n,))
    w = E.given('w', (ax.n,), lambda i: ax.label(i), kind='i')
    spec = shell_term(E, ax, nv, s, n, G, beta, u, C)
    E.eq('U^2/2b sum chi G', lf.schwinger_dyson_shell(C.a, G.a, beta, u, s, nv, w.a), (2 * s,), spec)
    E.eq('second routine', fp.schwinger_dyson_shell(C.a, G.a, beta, u, s, nv, w.a), (2 * s,), spec)
    E.unchanged('frame', C, G, w)


@contract('C12', [f'{L}.schwinger_dyson_core_urange', f'{L}.schwinger_dyson_vrg', f'{L}.schwinger_dyson_shell'], reps=60)
def one_channel(E):
    """shell frequencies are attached outside the core, the core does not depend on the shell"""
    lf = E.mod(L)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, s, n, G, beta, u = scene(E)
    V, C = E.array('vrg', (ax.n, 2 * nv)), E.array('chi', (ax.n,))
    v = ax.obj(lf.LocalThreePoint, ch, V.a, beta, u)
    r = lf.schwinger_dyson_core_urange(v, C.a, G.a, s)
    co = core_term(E, ax, nv, n, G, beta, SIGN[ch] * u, C, V)
    E.eq('core plus shell', r, (2 * (nv + s),), whole(E, nv, s, co, shell_term(E, ax, nv, s, n, G, beta, u, C)))
    E.eq('core without shell', lf.schwinger_dyson_core_urange(v, C.a, G.a, 0), (2 * nv,), co)
    E.unchanged('frame', V, C, G)


@contract('C12', [f'{L}.schwinger_dyson_full', f'{T}.get_smom0'], reps=60)
def whole_equation(E):
    """Hartree term and both channels"""
    lf, tp = E.mod(L), E.mod(T)
    ax, nv, s, n, G, beta, u = scene(E)
    nel = E.real('n', pos=True)
    V = {c: E.array('vrg' + c, (ax.n, 2 * nv)) for c in ('dens', 'magn')}
    C = {c: E.array('chi' + c, (ax.n,)) for c in V}
    v = {c: ax.obj(lf.LocalThreePoint, c, V[c].a, beta, u) for c in V}
    r = lf.schwinger_dyson_full(v['dens'], v['magn'], C['dens'].a, C['magn'].a, G.a, nel, niv_shell=s)
    co = {c: core_term(E, ax, nv, n, G, beta, SIGN[c] * u, C[c], V[c]) for c in V}
    sh = {c: shell_term(E, ax, nv, s, n, G, beta, u, C[c]) for c in V}
    f = whole(E, nv, s, lambda x: co['dens'](x) + co['magn'](x), lambda x: sh['dens'](x) + sh['magn'](x))
    E.eq('U n/2 + density + magnetic', r, (2 * (nv + s),), lambda x: u * nel / 2 + f(x))
    E.scalar('Hartree term', tp.get_smom0(u, nel), u * nel / 2)
    r = lf.schwinger_dyson_full(v['dens'], v['magn'], C['dens'].a, C['magn'].a, G.a, nel)
    E.eq('no shell by default', r, (2 * nv,), lambda x: u * nel / 2 + co['dens'](x) + co['magn'](x))
    E.unchanged('frame', V['dens'], V['magn'], C['dens'], C['magn'], G)


@contract('C12', [f'{L}.schwinger_dyson_f'], reps=60)
def form_with_the_full_vertex(E):
    lf = E.mod(L)
    ch = E.choice('channel', ['dens', 'magn', 'updo'])
    ax, nv, s, n, G, beta, u = scene(E)
    Fv, B = E.array('F', (ax.n, 2 * nv, 2 * nv)), E.array('chi0', (ax.n, 2 * nv))
    f = ax.obj(lf.LocalFourPoint, ch, Fv.a, beta, u)
    E.eq('U/b sum F chi0 G', lf.schwinger_dyson_f(f, B.a, G.a), (2 * nv,),
         lambda v: u / beta * E.sum(0, ax.n, lambda i: E.sum(0, 2 * nv, lambda t: Fv(i, v, t) * B(i, t)) * G(n - nv + v - ax.label(i))))
    E.unchanged('frame', Fv, B, G)


@contract('C12', [f'{L}.schwinger_dyson_f', f'{L}.schwinger_dyson_vrg', f'{L}.fob2_from_gamob2_urange', f'{L}.vrg_from_gchi_aux',
                  f'{L}.chi_phys_urange', f'{L}.get_vrg_and_chir_tilde_from_gammar_urange'], sym=False, reps=80,
          bounded='equivalence of the two forms needs matrix algebra (Sherman-Morrison)')
def both_forms_agree(E):
    """U_r/2 [1 - (1 - U_r chi) vrg] G summed = U/(2 b) F chi0 G with the sign of the channel"""
    import numpy as np
    from contracts.c11 import Obj
    lf = E.mod(L)
    ch = E.choice('channel', ['dens', 'magn'])
    ax, nv, s, n, G, beta, u = scene(E)
    X, B = E.array('gamma', (ax.n, 2 * nv, 2 * nv)), E.array('chi0', (ax.n, 2 * (nv + s)))
    x = ax.obj(lf.LocalFourPoint, ch, X.a, beta, u)
    full = lf.fob2_from_gamob2_urange(x, B.a)
    ns = nv + s
    gen = Obj(get_chi0=lambda k: B.a[:, ns - k:ns + k].sum(-1) / beta ** 2, get_gchi0=lambda k: B.a[:, ns - k:ns + k])
    v, c = lf.get_vrg_and_chir_tilde_from_gammar_urange(x, gen, niv_shell=s, sum_axis=-1)
    a = lf.schwinger_dyson_vrg(v, c, G.a)
    b = lf.schwinger_dyson_f(full, B.a, G.a)[s:s + 2 * nv]
    E.same('two forms', a, SIGN[ch] * b / 2, tol=1e-5)
    E.true('finite', bool(np.all(np.isfinite(a))))


class Quiet:
    def __getattr__(self, k):
        return lambda *a, **b: None


@contract('C12', ['high_level_routines.local_sde_from_g2'], sym=False, reps=60,
          bounded='composition of proved callees: the nested inverses exceed the solver budget')
def from_the_two_particle_greens_function(E):
    """every step of the local calculation is fed with the quantities of its own channel and box"""
    from contracts.c11 import Obj
    lf, hr, bu = E.mod(L), E.mod('high_level_routines'), E.mod('bubble')
    k = E.int('niw', lo=0, cmax=2)
    nv, s = E.int('nv', lo=1, cmax=2), E.int('shell', lo=0, cmax=2)
    n = nv + s + k + E.int('x', lo=0, cmax=2)
    beta, u, nel = E.real('beta', pos=True), E.real('u', pos=True), E.real('n', pos=True)
    nw = 2 * k + 1
    X = {c: E.array('g2' + c, (nw, 2 * nv, 2 * nv)) for c in ('dens', 'magn')}
    g2 = {c: lf.LocalFourPoint(c, X[c].a, beta, u, is_full_w=True) for c in X}
    P = E.array('G', (n,))
    G = E.given('Gfull', (2 * n,), lambda i: E.ite(i >= n, lambda: P(i - n), lambda: E.conj(P(n - 1 - i))))
    gk = Obj(g_loc=G.a, beta=beta, niv_full=n)
    w = E.np.arange(-k, k + 1)
    cfg = Obj(logger=Quiet(), comm=Obj(rank=0), verbosity=0, pdir='', sys=Obj(n=nel, beta=beta, u=u),
              box=Obj(wn=w, niv_full=nv + s, niv_core=nv, niv_shell=s, niw_core=k))
    gd, gm, cd, cm, vd, vm, siw = hr.local_sde_from_g2(g2['dens'], g2['magn'], gk, cfg)
    bg = bu.BubbleGenerator(wn=w, giwk_obj=gk, is_full_wn=True)
    ref = {}
    for c, gam, chi, v in (('dens', gd, cd, vd), ('magn', gm, cm, vm)):
        gr = lf.gamob2_from_gchir_urange(lf.gchir_from_g2(g2[c], G.a), bg.get_gchi0(nv + s))
        vr, cr = lf.get_vrg_and_chir_tilde_from_gammar_urange(gr, bg, niv_shell=s)
        E.same(f'irreducible vertex {c}', gam.mat, gr.mat)
        E.true(f'channel {c}', gam.channel == c and v.channel == c)
        E.same(f'susceptibility {c}', chi, cr)
        E.same(f'three-leg vertex {c}', v.mat, vr.mat)
        ref[c] = (vr, cr)
    E.same('self-energy', siw, lf.schwinger_dyson_full(ref['dens'][0], ref['magn'][0], ref['dens'][1], ref['magn'][1], G.a, nel, niv_shell=s))
    E.unchanged('frame', X['dens'], X['magn'], G)


@contract('C12', wholerun.PARTS[:4], sym=False, reps=8, bounded=wholerun.BOUNDED)
def local_self_energy_of_a_whole_run(E):
    """the local self-energy the program writes is the local equation for its own input"""
    i = wholerun.draw(E, size=[(2, 2, 1)])
    d = wholerun.run(E, i)
    o = wholerun.reference(E, i)
    E.same('core', wholerun.at(wholerun.load(d, 'siw_sde_full'), i.nv, 0), o.sde_loc, tol=1e-7)
    for c in wholerun.SIGN:
        E.same(f'local susceptibility {c}', wholerun.load(d, f'chi_{c}_loc'), o.chi_loc[c], tol=1e-7)
