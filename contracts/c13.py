"""C13 the lattice Schwinger-Dyson equation sums every q once with the right weight."""
from contracts.c06 import grid, kpq
from contracts.c10 import SIGN, params
from engine import wholerun
from engine.reg import contract

F, H, L = 'four_point', 'high_level_routines', 'local_four_point'
ASSUMPTIONS = ['sum over MPI processes: Allreduce contract of C09']


def scene(E, shell=True):
    """any list of transfers q, any consecutive bosonic frequencies, a Green's function wide enough"""
    nk = grid(E, 3)
    nq, nw, w0 = E.int('nq', lo=1, cmax=3), E.int('nw', lo=1, cmax=3), E.int('w0', lo=None)
    nv = E.int('nv', lo=1, cmax=2)
    s = E.int('shell', lo=0, cmax=2) if shell else 0
    x = E.int('x', lo=0, cmax=7)
    E.assume(w0 >= -x)
    E.assume(w0 + nw - 1 <= x)
    n = nv + s + x
    G = E.array('G', nk + (2 * n,))
    q = E.array('q', (nq, 3), kind='i', lo=-2, hi=6)
    w = E.given('w', (nw,), lambda i: w0 + i, kind='i')
    beta, u = params(E)
    return nk, nq, nw, w0, nv, s, n, G, q, w, beta, u


def gq(E, G, nk, k, q, iq, pos):
    return G(*kpq(E, nk, k, tuple(q(iq, c) for c in range(3))), pos)


@contract('C13', [f'{F}.get_kernel', f'{F}.get_kernel_dc'], reps=60)
def kernels(E):
    fp, lf = E.mod(F), E.mod(L)
    ch = E.choice('channel', ['dens', 'magn', 'updo', 'upup'])
    nq, nw, nv = E.int('nq', lo=1, cmax=3), E.int('nw', lo=1, cmax=4), E.int('nv', lo=1, cmax=3)
    beta, u = params(E)
    V, C, B, D = E.array('vrg', (nq, nw, 2 * nv)), E.array('chi', (nq, nw)), E.array('chi0', (nq, nw, 2 * nv)), E.array('F', (nw, 2 * nv, 2 * nv))
    ur = SIGN[ch] * u
    E.eq('U/2 [1 - (1 - U chi) vrg]', fp.get_kernel(V.a, C.a, u, ch), (nq, nw, 2 * nv),
         lambda q, i, v: ur / 2 * (1 - (1 - ur * C(q, i)) * V(q, i, v)))
    f = lf.LocalFourPoint(ch, D.a, beta, u, wn=E.np.arange(0, nw))
    E.eq('double counting: U sum F chi0', fp.get_kernel_dc(f, B.a), (nq, nw, 2 * nv),
         lambda q, i, v: ur * E.sum(0, 2 * nv, lambda t: D(i, v, t) * B(q, i, t)))
    E.unchanged('frame', V, C, B, D)


@contract('C13', [f'{F}.schwinger_dyson_kernel_q', 'brillouin_zone.shift_mat_by_ind', 'matsubara_frequencies.cut_iv_with_iw_shift'], reps=40)
def convolution_with_a_kernel(E):
    fp = E.mod(F)
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E, False)
    K = E.array('K', (nq, nw, 2 * nv))
    nqt = E.int('nqtot', lo=1, cmax=30)
    E.eq('1/(beta Nq) sum K G(k+q, v-w)', fp.schwinger_dyson_kernel_q(K.a, G.a, beta, q.a, w.a, nqt), nk + (2 * nv,),
         lambda a, b, c, v: E.sum(0, nq, lambda i: E.sum(0, nw, lambda j: K(i, j, v) * gq(E, G, nk, (a, b, c), q, i, n - nv + v - (w0 + j)))) / (beta * nqt))
    E.unchanged('frame', K, G, q, w)


@contract('C13', [f'{F}.schwinger_dyson_vrg_q'], reps=40)
def core_of_one_channel(E):
    fp = E.mod(F)
    ch = E.choice('channel', ['dens', 'magn'])
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E, False)
    V, C, D = E.array('vrg', (nq, nw, 2 * nv)), E.array('chi', (nq, nw)), E.array('mult', (nq,), kind='f')
    nqt = E.int('nqtot', lo=1, cmax=30)
    ur = SIGN[ch] * u
    E.eq('weighted sum', fp.schwinger_dyson_vrg_q(V.a, C.a, G.a, beta, u, ch, q.a, D.a, w.a, nqt), nk + (2 * nv,),
         lambda a, b, c, v: ur / 2 / (beta * nqt) * E.sum(0, nq, lambda i: D(i) * E.sum(0, nw, lambda j: (
             1 - (1 - ur * C(i, j)) * V(i, j, v)) * gq(E, G, nk, (a, b, c), q, i, n - nv + v - (w0 + j)))))
    E.unchanged('frame', V, C, D, G, q, w)


def shell_pos(E, n, nv, s, v):
    return E.ite(v < s, lambda: n - nv - s + v, lambda: n + nv + (v - s))


@contract('C13', [f'{F}.schwinger_dyson_q_shell'], reps=40)
def shell_of_one_channel(E):
    fp = E.mod(F)
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E)
    E.assume(s > 0)
    C = E.array('chi', (nq, nw))
    nqt = E.int('nqtot', lo=1, cmax=30)
    E.eq('U^2/2 chi G', fp.schwinger_dyson_q_shell(C.a, G.a, beta, u, s, nv, w.a, q.a, nqt), nk + (2 * s,),
         lambda a, b, c, v: u ** 2 / 2 / (beta * nqt) * E.sum(0, nq, lambda i: E.sum(0, nw, lambda j: C(i, j) * gq(
             E, G, nk, (a, b, c), q, i, shell_pos(E, n, nv, s, v) - (w0 + j)))))
    E.unchanged('frame', C, G, q, w)


def in_core(E, nv, s, v, core, shell):
    return E.ite(v < s, lambda: shell(v), lambda: E.ite(v < s + 2 * nv, lambda: core(v - s), lambda: shell(v - 2 * nv)))


@contract('C13', [f'{F}.schwinger_dyson_channel_q', f'{F}.schwinger_dyson_vrg_q', f'{F}.schwinger_dyson_q_shell'], reps=40)
def one_channel_with_shell(E):
    """shell outside the core; multiplicities weight core and shell alike"""
    fp = E.mod(F)
    ch = E.choice('channel', ['dens', 'magn'])
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E)
    V, C, D = E.array('vrg', (nq, nw, 2 * nv)), E.array('chi', (nq, nw)), E.array('mult', (nq,), kind='f')
    nqt = E.int('nqtot', lo=1, cmax=30)
    ur = SIGN[ch] * u

    def core(k):
        return lambda v: ur / 2 / (beta * nqt) * E.sum(0, nq, lambda i: D(i) * E.sum(0, nw, lambda j: (
            1 - (1 - ur * C(i, j)) * V(i, j, v)) * gq(E, G, nk, k, q, i, n - nv + v - (w0 + j))))

    def shell(k):
        return lambda v: u ** 2 / 2 / (beta * nqt) * E.sum(0, nq, lambda i: D(i) * E.sum(0, nw, lambda j: C(i, j) * gq(
            E, G, nk, k, q, i, shell_pos(E, n, nv, s, v) - (w0 + j))))
    r = fp.schwinger_dyson_channel_q(V.a, C.a, ch, G.a, beta, u, q.a, D.a, w.a, nqt, niv_shell=s)
    E.eq('core and shell', r, nk + (2 * (nv + s),), lambda a, b, c, v: in_core(E, nv, s, v, core((a, b, c)), shell((a, b, c))))
    E.unchanged('frame', V, C, D, G, q, w)


@contract('C13', [f'{F}.schwinger_dyson_full_q', f'{F}.schwinger_dyson_kernel_q', f'{F}.get_kernel', f'{F}.schwinger_dyson_q_shell'], reps=40)
def whole_equation(E):
    """kernel = density + 3 magnetic - double counting; shell with both susceptibilities"""
    fp = E.mod(F)
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E)
    V = {c: E.array('vrg' + c, (nq, nw, 2 * nv)) for c in ('dens', 'magn')}
    C = {c: E.array('chi' + c, (nq, nw)) for c in V}
    D = E.array('dc', (nq, nw, 2 * nv))
    nqt = E.int('nqtot', lo=1, cmax=30)

    def ker(i, j, v):
        return sum(m * SIGN[c] * u / 2 * (1 - (1 - SIGN[c] * u * C[c](i, j)) * V[c](i, j, v)) for c, m in (('dens', 1), ('magn', 3))) - D(i, j, v)

    def core(k):
        return lambda v: E.sum(0, nq, lambda i: E.sum(0, nw, lambda j: ker(i, j, v) * gq(E, G, nk, k, q, i, n - nv + v - (w0 + j)))) / (beta * nqt)

    def shell(k):
        return lambda v: u ** 2 / 2 / (beta * nqt) * E.sum(0, nq, lambda i: E.sum(0, nw, lambda j: (C['dens'](i, j) + C['magn'](i, j)) * gq(
            E, G, nk, k, q, i, shell_pos(E, n, nv, s, v) - (w0 + j))))
    r = fp.schwinger_dyson_full_q(V['dens'].a, V['magn'].a, C['dens'].a, C['magn'].a, D.a, G.a, beta, u, q.a, w.a, nqt, niv_shell=s)
    E.eq('core and shell', r, nk + (2 * (nv + s),), lambda a, b, c, v: in_core(E, nv, s, v, core((a, b, c)), shell((a, b, c))))
    E.unchanged('frame', V['dens'], V['magn'], C['dens'], C['magn'], D, G, q, w)


@contract('C13', [f'{F}.schwinger_dyson_dc'], reps=40)
def double_counting_part(E):
    fp = E.mod(F)
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E, False)
    K, D = E.array('K', (nq, nw, 2 * nv)), E.array('mult', (nq,), kind='f')
    nqt = E.int('nqtot', lo=1, cmax=30)
    E.eq('U/Nq sum K G', fp.schwinger_dyson_dc(K.a, G.a, u, q.a, D.a, w.a, nqt), nk + (2 * nv,),
         lambda a, b, c, v: u / nqt * E.sum(0, nq, lambda i: D(i) * E.sum(0, nw, lambda j: K(i, j, v) * gq(
             E, G, nk, (a, b, c), q, i, n - nv + v - (w0 + j)))))
    E.unchanged('frame', K, D, G, q, w)


@contract('C13', [f'{F}.schwinger_dyson_full_q', f'{F}.schwinger_dyson_kernel_q', f'{F}.schwinger_dyson_q_shell'], reps=30)
def parts_of_the_q_list_add_up(E):
    """splitting the list of q between processes and adding the parts"""
    fp = E.mod(F)
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E)
    V = {c: E.array('vrg' + c, (nq, nw, 2 * nv)) for c in ('dens', 'magn')}
    C = {c: E.array('chi' + c, (nq, nw)) for c in V}
    D = E.array('dc', (nq, nw, 2 * nv))
    m = E.int('cut', lo=0, hi=nq)
    nqt = E.int('nqtot', lo=1, cmax=30)

    def run(sl):
        return fp.schwinger_dyson_full_q(V['dens'].a[sl], V['magn'].a[sl], C['dens'].a[sl], C['magn'].a[sl], D.a[sl], G.a, beta, u,
                                         q.a[sl], w.a, nqt, niv_shell=s)
    E.same('sum of the parts', run(slice(0, m)) + run(slice(m, None)), run(slice(None)))


@contract('C13', [f'{F}.schwinger_dyson_full_q', f'{L}.schwinger_dyson_full'], reps=40)
def reduces_to_the_local_equation(E):
    """momentum-independent input: density + magnetic form at every k (double counting removes twice the magnetic part)"""
    fp, lf = E.mod(F), E.mod(L)
    nk, nq, nw, w0, nv, s, n, G, q, w, beta, u = scene(E)
    V = {c: E.array('vrg' + c, (nw, 2 * nv)) for c in ('dens', 'magn')}
    C = {c: E.array('chi' + c, (nw,)) for c in V}
    g = E.array('g', (2 * n,))
    gk = E.given('gk', nk + (2 * n,), lambda a, b, c, v: g(v))
    rep = {}
    for c in V:
        rep[c] = (E.given('v' + c, (nq, nw, 2 * nv), lambda i, j, v, c=c: V[c](j, v)).a, E.given('c' + c, (nq, nw), lambda i, j, c=c: C[c](j)).a)
    dc = 2 * fp.get_kernel(*rep['magn'], u, 'magn')
    r = fp.schwinger_dyson_full_q(rep['dens'][0], rep['magn'][0], rep['dens'][1], rep['magn'][1], dc, gk.a, beta, u, q.a, w.a, nq, niv_shell=s)
    v = {c: lf.LocalThreePoint(c, V[c].a, beta, u, wn=w.a) for c in V}
    loc = lf.schwinger_dyson_full(v['dens'], v['magn'], C['dens'].a, C['magn'].a, g.a, 0, niv_shell=s)
    E.eq('lattice = local', r, nk + (2 * (nv + s),), lambda a, b, c, x: E.get(loc, x))


class Quiet:
    def __getattr__(self, k):
        return lambda *a, **b: None


@contract('C13', [f'{H}.construct_dc_kernel', f'{F}.get_kernel_dc', f'{L}.fob2_from_gamob2_urange'], reps=40)
def double_counting_kernel(E):
    """full local magnetic vertex with interaction-valued shell, contracted with the bubble of q in the full box, cut to the core"""
    from contracts.c11 import Obj
    hr, fp, lf = E.mod(H), E.mod(F), E.mod(L)
    nw, nq, nv, s = E.int('nw', lo=1, cmax=3), E.int('nq', lo=1, cmax=3), E.int('nv', lo=1, cmax=2), E.int('shell', lo=0, cmax=2)
    n = nv + s
    beta, u = params(E)
    X, b, B = E.array('gamma', (nw, 2 * nv, 2 * nv)), E.array('chi0', (nw, 2 * n)), E.array('chi0q', (nq, nw, 2 * n))
    gm = lf.LocalFourPoint('magn', X.a, beta, u, wn=E.np.arange(0, nw))

    def get(k, *a, **kw):
        E.true('bubble of the full box', k == n)
        return b.a
    cfg = Obj(box=Obj(niv_full=n, niv_core=nv), comm=Obj(rank=1), pdir='', logger=Quiet())
    r = hr.construct_dc_kernel(gm, Obj(get_gchi0=get), B.a, cfg)
    f = lf.fob2_from_gamob2_urange(gm, b.a)
    E.eq('-U sum F chi0(q), core', r, (nq, nw, 2 * nv), lambda q, i, v: -u * E.sum(0, 2 * n, lambda t: E.get(f.mat, i, v + s, t) * B(q, i, t)), tol=1e-6)
    E.unchanged('frame', X, b, B)


@contract('C13', wholerun.PARTS + [f'{F}.schwinger_dyson_full_q', 'two_point.create_dga_siwk_with_dmft_as_asympt', 'mpi_aux.MpiDistributor.allreduce'], sym=False,
          reps=14, bounded=wholerun.BOUNDED)
def self_energy_of_a_whole_run(E):
    """what the program writes is the lattice equation for the written susceptibilities, whatever the symmetries and the number of processes"""
    i = wholerun.draw(E)
    d = wholerun.run(E, i)
    o = wholerun.reference(E, i)
    got = wholerun.load(d, 'siwk_dga')
    chi = wholerun.tame(E, wholerun.susceptibilities(i, d))
    want = wholerun.sigma(i, o, chi)
    E.same('core', wholerun.at(got, i.nv, 0), want, tol=1e-7)
    n = i.nv + i.s
    v = abs(2 * E.np.arange(-n, n) + 1) > 2 * i.nv
    E.same('shell', got[..., v], wholerun.at(i.siw, n, 0)[v] * E.np.ones(i.nk + (1,)), tol=1e-7)
