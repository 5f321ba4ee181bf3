"""C18 vertices stored per process are reassembled completely and at the right place."""
import shutil
import tempfile

from contracts.c06 import grid
from contracts.c09 import Rank
from contracts.c11 import Obj
from engine.env import Missing
from engine import wholerun
from engine.reg import contract

FP, PV, OP = 'four_point', 'pairing_vertex', 'optics'
SGN = {'dens': 1, 'magn': -1}
ASSUMPTIONS = ['h5py stores and returns arrays unchanged under the group name they were given (library)',
               'files written by one process are complete before they are collected (barrier in the driver)']


class Quiet:
    """plots and log messages have no observable effect here"""
    def __getattr__(self, k):
        return lambda *a, **kw: None


def silence(m):
    for k in ('plotting', 'lfp'):
        if hasattr(m, k):
            setattr(m, k, _Silent(getattr(m, k)))


class _Silent:
    def __init__(self, m):
        self.__dict__['_m'] = m

    def __getattr__(self, k):
        return (lambda *a, **kw: None) if k.startswith('plot') else getattr(self._m, k)


@contract('C18', [f'{FP}.ladder_vertex_from_chi_aux_components'], reps=60)
def components_of_the_ladder_vertex(E):
    fp = E.mod(FP)
    n = E.int('n', lo=1, cmax=5)
    lead = tuple(E.int(f'l{i}', lo=1, cmax=3) for i in range(E.choice('leading', [0, 1, 2])))
    X, V, C = E.array('chi', lead + (n, n)), E.array('vrg', lead + (n,)), E.array('chi0', lead + (n,))
    beta, u = E.real('beta', pos=True), E.real('u')
    f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=X.a, vrg=V.a, gchi0=C.a, beta=beta, u_r=u)

    def s1(*k):
        q, v, w = k[:-2], k[-2], k[-1]
        return beta ** 2 / C(*q, v) * (E.ite(v == w, 1, 0) - X(*q, v, w) / C(*q, w))
    E.eq('beta^2/chi0 (1 - chi/chi0)', f1, lead + (n, n), s1)
    E.eq('u gamma gamma', f2, lead + (n, n), lambda *k: u * V(*k[:-1]) * V(*k[:-2], k[-1]))
    E.unchanged('frame', X, V, C)


@contract('C18', [f'{PV}.ladder_vertex_from_chi_aux'], reps=60)
def assembled_ladder_vertex(E):
    pv = E.mod(PV)
    n = E.int('n', lo=1, cmax=5)
    lead = tuple(E.int(f'l{i}', lo=1, cmax=3) for i in range(E.choice('leading', [0, 1, 2])))
    X, V, C, P = E.array('chi', lead + (n, n)), E.array('vrg', lead + (n,)), E.array('chi0', lead + (n,)), E.array('phys', lead)
    beta, u = E.real('beta', pos=True), E.real('u')
    f = pv.ladder_vertex_from_chi_aux(gchi_aux=X.a, vrg=V.a, chir=P.a, gchi0=C.a, beta=beta, u_r=u)

    def s(*k):
        q, v, w = k[:-2], k[-2], k[-1]
        return beta ** 2 / C(*q, v) * (E.ite(v == w, 1, 0) - X(*q, v, w) / C(*q, w)) + u * (1 - u * P(*q)) * beta * V(*q, v) * beta * V(*q, w)
    E.eq('beta^2/chi0 (1 - chi/chi0) + U (1 - U chi) beta gamma beta gamma', f, lead + (n, n), s)


@contract('C18', [f'{PV}.get_omega_condition'], reps=30)
def transfer_frequency_of_the_pairing_vertex(E):
    pv = E.mod(PV)
    n = E.int('niv', lo=1, cmax=6)
    E.eq('nu - nu\'', pv.get_omega_condition(n), (2 * n, 2 * n), lambda i, j: i - j)


@contract('C18', [f'{PV}.reshape_chi'], reps=60)
def susceptibility_at_the_transfer_frequency(E):
    pv = E.mod(PV)
    nk, n, more = grid(E, 3), E.int('niv', lo=1, cmax=3), E.int('more', lo=0, cmax=3)
    nw = 2 * n - 1 + more
    C = E.array('chi', nk + (2 * nw + 1,))
    E.eq('chi(nu - nu\')', pv.reshape_chi(C.a, n), nk + (2 * n, 2 * n), lambda a, b, c, i, j: C(a, b, c, nw + i - j))
    E.unchanged('frame', C)


@contract('C18', [f'{OP}.get_vmw_v_slice'], reps=60)
def slice_of_the_optical_vertex(E):
    """element (omega, nu) is F(nu, nu - omega)"""
    op = E.mod(OP)
    m, W, more = E.int('niv_vert', lo=1, cmax=3), E.int('niw', lo=0, cmax=3), E.int('more', lo=0, cmax=2)
    n = m + W + more
    F = E.array('F', (2 * n, 2 * n))
    r = op.get_vmw_v_slice(F.a, E.np.arange(0, W + 1), m)
    E.eq('F(nu, nu - omega)', r, (W + 1, 2 * m), lambda w, v: F(n - m + v, n - m + v - w))
    E.unchanged('frame', F)


class Loaded:
    """the collected components, returned by the loader of the module in its documented order"""
    def __init__(self, E, m, name, shape):
        self.E, self.calls = E, []
        self.arr = [E.array(k, shape) for k in ('f1m', 'f2m', 'f1d', 'f2d')]
        if not hasattr(m, name):
            raise Missing(f'{m}.{name}')
        setattr(m, name, self)

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        return tuple(x.a.copy() for x in self.arr)


def lattice(E, nk, nirr):
    J = E.array('irr', nk, kind='i', lo=0, hi=nirr)

    def fold(mat, mesh=None, shape='mesh', **k):
        if (mesh if mesh in ('mesh', 'list') else shape) != 'mesh':
            raise Missing('another layout of the zone')
        return mat[J.a]
    g = Obj(map_irrk2fbz=fold, nk_irr=nirr, k_mean=lambda m, *a, **k: m[0, 0, 0])
    return J, g


class Store(dict):
    def save_data(self, mat, name):
        if name in self:
            raise ValueError('written twice')
        self[name] = mat


def config(E, st, g, u, **k):
    lat = Obj(q_grid=g, k_grid=Obj(kx=None, ky=None))
    return Obj(output_path='/nowhere', lattice=lat, sys=Obj(u=u), save_data=st.save_data, logger=Quiet(), **k)


@contract('C18', [f'{FP}.build_vertex_fq'], reps=30)
def full_vertex(E):
    fp = E.mod(FP)
    nk, q, nw, n = grid(E, 3), E.int('nirr', lo=1, cmax=4), E.int('niw', lo=0, cmax=2), E.int('niv', lo=1, cmax=3)
    sh = nk + (2 * nw + 1, 2 * n, 2 * n)
    L = Loaded(E, fp, 'load_vertex_from_rank_files', (q,) + sh[3:])
    silence(fp)
    J, g = lattice(E, nk, q)
    u, D, M = E.real('u'), E.array('dens', sh[:4]), E.array('magn', sh[:4])
    st = Store()
    fp.build_vertex_fq(config(E, st, g, u, box=Obj(niw_core=nw, niv_core=n)), Rank(0, 1), M.a, D.a)
    if not L.calls:
        raise Missing('components are not taken from the loader')
    f1m, f2m, f1d, f2d = L.arr
    E.true('both channels are saved', set(st) == {'F_dens', 'F_magn'})
    E.eq('density', st['F_dens'], sh, lambda a, b, c, w, v, x: f1d(J(a, b, c), w, v, x) + (1 - u * D(a, b, c, w)) * f2d(J(a, b, c), w, v, x))
    E.eq('magnetic', st['F_magn'], sh, lambda a, b, c, w, v, x: f1m(J(a, b, c), w, v, x) + (1 + u * M(a, b, c, w)) * f2m(J(a, b, c), w, v, x))


@contract('C18', [f'{PV}.build_pairing_vertex'], reps=30)
def singlet_and_triplet_vertex(E):
    pv = E.mod(PV)
    nk, q, n, more = grid(E, 3), E.int('nirr', lo=1, cmax=4), E.int('niv', lo=1, cmax=3), E.int('more', lo=0, cmax=2)
    nw = 2 * n - 1 + more
    sh = nk + (2 * n, 2 * n)
    L = Loaded(E, pv, 'load_pairing_vertex_from_rank_files', (q,) + sh[3:])
    silence(pv)
    J, g = lattice(E, nk, q)
    u, D, M = E.real('u'), E.array('dens', nk + (2 * nw + 1,)), E.array('magn', nk + (2 * nw + 1,))
    st = Store()
    el = Obj(output_path='/nowhere', save_data=st.save_data)
    pv.build_pairing_vertex(config(E, Store(), g, u, box=Obj(niv_pp=n), eliash=el), Rank(0, 1), M.a, D.a)
    if not L.calls:
        raise Missing('components are not taken from the loader')
    f1m, f2m, f1d, f2d = L.arr

    def magn(a, b, c, v, w):
        return f1m(J(a, b, c), v, w) + (1 + u * M(a, b, c, nw + v - w)) * f2m(J(a, b, c), v, w)

    def dens(a, b, c, v, w):
        return f1d(J(a, b, c), v, w) + (1 - u * D(a, b, c, nw + v - w)) * f2d(J(a, b, c), v, w)
    E.true('both channels are saved', set(st) == {'F_sing_pp', 'F_trip_pp'})
    E.eq('singlet', st['F_sing_pp'], sh, lambda *k: (3 * magn(*k) - dens(*k)) / 2)
    E.eq('triplet', st['F_trip_pp'], sh, lambda *k: (magn(*k) + dens(*k)) / 2)


@contract('C18', [f'{OP}.build_vertex_for_optical_conductivity'], reps=30)
def optical_vertex(E):
    op = E.mod(OP)
    nk, q, nw, more = grid(E, 3), E.int('nirr', lo=1, cmax=4), E.int('niw', lo=0, cmax=2), E.int('more', lo=0, cmax=2)
    W, n = E.int('niw_cond', lo=0, cmax=2), E.int('niv', lo=1, cmax=3)
    sh = nk + (2 * nw + 1, W + 1, 2 * n)
    L = Loaded(E, op, 'load_optics_vertex_from_rank_files', (q,) + sh[3:])
    silence(op)
    J, g = lattice(E, nk, q)
    N = nw + more
    u, D, M = E.real('u'), E.array('dens', nk + (2 * N + 1,)), E.array('magn', nk + (2 * N + 1,))
    st = Store()
    oc = Obj(output_path='/nowhere', save_data=st.save_data, niw_vert=nw, niv_vert=n, niw_cond=W)
    op.build_vertex_for_optical_conductivity(config(E, Store(), g, u, optics=oc), Rank(0, 1), M.a, D.a)
    if not L.calls:
        raise Missing('components are not taken from the loader')
    f1m, f2m, f1d, f2d = L.arr

    def spec(a, b, c, w, x, v):
        k = (J(a, b, c), w, x, v)
        magn = f1m(*k) + (1 + u * M(a, b, c, more + w)) * f2m(*k)
        dens = f1d(*k) + (1 - u * D(a, b, c, more + w)) * f2d(*k)
        return -dens / 2 - 3 * magn / 2
    E.true('saved', set(st) == {'F_cond'})
    E.eq('-1/2 density - 3/2 magnetic', st['F_cond'], sh, spec)


# ---- through the files: every process writes its momenta, then everything is collected (bounded)

class Folder:
    def __init__(self, E):
        self.path = tempfile.mkdtemp(prefix='dga_c18_') + '/'
        E.cleanup.append(lambda: shutil.rmtree(self.path, ignore_errors=True))


def written(E, nq, P, full, write):
    """every process in its own turn writes its share; the order of the processes is arbitrary"""
    m = E.mod('mpi_aux')
    path = Folder(E).path
    for r in E.nprng.permutation(P):
        d = m.MpiDistributor(ntasks=nq, comm=Rank(int(r), P), output_path=path, name='Q')
        for ch in E.nprng.permutation(['dens', 'magn']):
            X, V, C = full[ch]
            write(d, str(ch), X[d.my_slice], V[d.my_slice], C[d.my_slice])
    return path


def data(E, nq, nw, n):
    c = lambda *s: E.nprng.uniform(-1, 1, s) + 1j * E.nprng.uniform(-1, 1, s)
    return {ch: (c(nq, nw, n, n), c(nq, nw, n), c(nq, nw, n) + 3) for ch in ('dens', 'magn')}


def plain(E, full, beta, u):
    """components of both channels from their definition, in the documented order of the loader"""
    np, out = E.np, {}
    for ch, (X, V, C) in full.items():
        n = X.shape[-1]
        out['f1', ch] = beta ** 2 * (np.eye(n) / C[..., :, None] - X / (C[..., :, None] * C[..., None, :]))
        out['f2', ch] = SGN[ch] * u * V[..., :, None] * V[..., None, :]
    return [out['f1', 'magn'], out['f2', 'magn'], out['f1', 'dens'], out['f2', 'dens']]


NAMES = ['f1 magn', 'f2 magn', 'f1 dens', 'f2 dens']


def sizes(E):
    """momenta, processes; sometimes more than ten or more than a hundred bosonic frequencies"""
    big = E.rng.random()
    if big < .1:
        return E.rng.randint(1, 2), E.rng.randint(1, 2), E.rng.randint(99, 112), 1
    if big < .3:
        return E.rng.randint(1, 13), E.rng.randint(1, 4), E.rng.randint(9, 12), E.rng.randint(1, 2)
    return E.rng.randint(1, 12), E.rng.randint(1, 5), E.rng.randint(0, 4), E.rng.randint(1, 4)


def close(E, got, want):
    np = E.np
    return np.shape(got) == np.shape(want) and bool(np.allclose(got, want, atol=1e-9))


@contract('C18', [f'{FP}.write_vertex_components', f'{FP}.load_vertex_from_rank_files', 'mpi_aux.MpiDistributor.__enter__', 'mpi_aux.MpiDistributor.__exit__'],
          reps=12, sym=False, bounded='files on disk: up to 13 momenta, 5 processes, 225 bosonic frequencies')
def full_vertex_through_files(E):
    fp = E.mod(FP)
    nq, P, nw, n = sizes(E)
    full, beta, u = data(E, nq, 2 * nw + 1, 2 * n), E.rng.uniform(1, 20), E.rng.uniform(.5, 4)
    wn = E.np.arange(-nw, nw + 1)
    cfg = Obj(box=Obj(wn=wn, niw_core=nw, niv_core=n), sys=Obj(beta=beta, u=u))
    path = written(E, nq, P, full, lambda d, ch, *x: fp.write_vertex_components(cfg, d, ch, *x, name='fq_'))
    got = fp.load_vertex_from_rank_files(path, 'Q', P, nq, nw, n)
    for k, g, w in zip(NAMES, got, plain(E, full, beta, u)):
        E.true(k, close(E, g, w), f'nq={nq} processes={P} niw={nw} niv={n}')


@contract('C18', [f'{OP}.write_optics_vertex_components', f'{OP}.load_optics_vertex_from_rank_files', f'{OP}.get_vmw_v_slice'], reps=12, sym=False,
          bounded='files on disk: up to 13 momenta, 5 processes, 225 bosonic frequencies')
def optical_vertex_through_files(E):
    op, np = E.mod(OP), E.np
    nq, P, nw, m = sizes(E)
    W = E.rng.randint(0, 3)
    n, N = m + W + E.rng.randint(0, 2), nw + E.rng.randint(0, 2)
    full, beta, u = data(E, nq, 2 * N + 1, 2 * n), E.rng.uniform(1, 20), E.rng.uniform(.5, 4)
    oc = Obj(niv_vert=m, niw_vert=nw, niw_cond=W, wn_vert=lambda pos=False: np.arange(0 if pos else -nw, nw + 1),
             wn_cond=lambda pos=False: np.arange(0 if pos else -W, W + 1))
    cfg = Obj(box=Obj(wn=np.arange(-N, N + 1), niw_core=N, niv_core=n), sys=Obj(beta=beta, u=u), optics=oc)
    path = written(E, nq, P, full, lambda d, ch, *x: op.write_optics_vertex_components(cfg, d, ch, *x))
    got = op.load_optics_vertex_from_rank_files(path, 'Q', P, nq, oc)
    for k, g, f in zip(NAMES, got, plain(E, full, beta, u)):
        want = np.zeros((nq, 2 * nw + 1, W + 1, 2 * m), dtype=complex)
        for w in range(W + 1):
            for v in range(2 * m):
                want[:, :, w, v] = f[:, N - nw:N + nw + 1, n - m + v, n - m + v - w]
        E.true(k, close(E, g, want), f'nq={nq} processes={P} niw={nw} niv={m} niw_cond={W}')


@contract('C18', [f'{PV}.write_pairing_vertex_components', f'{PV}.load_pairing_vertex_from_rank_files', f'{PV}.get_pp_slice_4pt', f'{PV}.get_omega_condition'],
          reps=14, sym=False, bounded='files on disk: up to 13 momenta, 5 processes, 225 bosonic frequencies')
def pairing_vertex_through_files(E):
    """Gamma(nu, nu') = -F(omega = nu - nu', nu, -nu'), averaged with its conjugate transpose"""
    pv, np = E.mod(PV), E.np
    nq, P, nw, n = sizes(E)
    m = max(1, min(nw // 2, E.rng.choice([n // 2, n, 6])))
    if nw < 2 * m - 1:
        nw = 2 * m - 1 + E.rng.randint(0, 1)
    n = max(n, m + E.rng.randint(0, 1))
    full, beta, u = data(E, nq, 2 * nw + 1, 2 * n), E.rng.uniform(1, 20), E.rng.uniform(.5, 4)
    cfg = Obj(box=Obj(wn=np.arange(-nw, nw + 1), niw_core=nw, niv_core=n, niv_pp=m), sys=Obj(beta=beta, u=u))
    path = written(E, nq, P, full, lambda d, ch, *x: pv.write_pairing_vertex_components(cfg, d, ch, *x))
    got = pv.load_pairing_vertex_from_rank_files(output_path=path, name='Q', mpi_size=P, nq=nq, niv_pp=m)
    for k, g, f in zip(NAMES, got, plain(E, full, beta, u)):
        pp = np.zeros((nq, 2 * m, 2 * m), dtype=complex)
        for i in range(2 * m):
            for j in range(2 * m):
                pp[:, i, j] = -f[:, nw + i - j, n - m + i, n + m - 1 - j]
        E.true(k, close(E, g, (pp + np.conj(np.swapaxes(pp, 1, 2))) / 2), f'nq={nq} processes={P} niw={nw} niv={m}')


@contract('C18', [f'{PV}.get_pp_slice_4pt'], reps=40)
def slice_of_the_pairing_vertex(E):
    """the selected elements of -F(nu, -nu'), in the order of the selection: written back with it, they return to their places"""
    pv, np = E.mod(PV), E.np
    m = E.int('niv', lo=1, cmax=4)
    n = m + E.int('more', lo=0, cmax=3)
    F, s = E.array('F', (2 * n, 2 * n)), E.array('s', (2 * m, 2 * m), kind='f')
    c = s.a < 0
    r = pv.get_pp_slice_4pt(mat=F.a, condition=c, niv_pp=m)
    got = np.zeros((2 * m, 2 * m), dtype=complex)
    got[c] = r
    E.eq("elements of -F(nu, -nu')", got, (2 * m, 2 * m), lambda i, j: E.ite(s(i, j) < 0, lambda: -F(n - m + i, n + m - 1 - j), 0))
    if not E.sym:
        E.true('one dimensional', np.shape(r) == (int(c.sum()),))
    E.unchanged('frame', F, s)


@contract('C18', wholerun.PARTS + [f'{PV}.write_pairing_vertex_components', f'{PV}.build_pairing_vertex', f'{FP}.write_vertex_components', f'{FP}.build_vertex_fq'],
          sym=False, reps=8, bounded=wholerun.BOUNDED)
def vertices_of_a_whole_run(E):
    """ladder and pairing vertices written by the program, through the files of all processes"""
    i = wholerun.draw(E, least=(2, 2), coarse=False)
    d = wholerun.run(E, i, extra={'pairing': {'do_pairing_vertex': True}, 'output': {'save_fq': True}})
    o = wholerun.reference(E, i)
    chi = wholerun.tame(E, wholerun.susceptibilities(i, d))
    f = wholerun.vertex(i, o, chi)
    for c in f:
        E.same(f'ladder vertex {c}', wholerun.load(d, f'F_{c}').reshape(f[c].shape), f[c], tol=1e-6)
    s, t = wholerun.pairing(i, o, chi)
    e = wholerun.folder(d, 'Eliashberg')
    E.same('singlet', wholerun.load(e, 'F_sing_pp').reshape(s.shape), s, tol=1e-6)
    E.same('triplet', wholerun.load(e, 'F_trip_pp').reshape(s.shape), t, tol=1e-6)
