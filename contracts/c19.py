"""C19 tight-binding Hamiltonians are the Fourier sums of their hoppings."""
import shutil
import tempfile

from contracts.c06 import grid
from contracts.c11 import Obj
from engine.reg import contract

W = 'wannier'
ASSUMPTIONS = ['exp(a + b) = exp(a) exp(b) and Euler\'s formula (mathematics of the exponential function)',
               'pandas.read_csv, numpy.fromfile and numpy.savetxt (bounded contracts through files)']


def table(E, orbs=None):
    """any number of vectors, orbitals and momenta"""
    n, o, nk = E.int('nr', lo=1, cmax=5), orbs or E.int('orbitals', lo=1, cmax=3), E.int('nk', lo=1, cmax=5)
    H, R = E.array('H', (n, o, o)), E.array('R', (n, o, o, 3), kind='i', lo=-4, hi=5)
    w, K = E.array('weight', (n, 1), kind='+'), E.array('k', (3, nk), kind='f')
    return n, o, nk, H, R, w, K


def phase(E, R, K, r, a, b, k):
    return E.exp(E.i * (R(r, a, b, 0) * K(0, k) + R(r, a, b, 1) * K(1, k) + R(r, a, b, 2) * K(2, k)))


def fourier(E, n, H, R, w, K, k, a, b, extra=lambda r: 1):
    return E.sum(0, n, lambda r: extra(r) * phase(E, R, K, r, a, b, k) / w(r, 0) * H(r, a, b))


@contract('C19', [f'{W}.convham'], reps=60)
def hamiltonian_is_the_weighted_sum(E):
    wa = E.mod(W)
    n, o, nk, H, R, w, K = table(E)
    E.eq('sum exp(ikR)/w H', wa.convham(H.a, R.a, w.a, K.a), (nk, o, o), lambda k, a, b: fourier(E, n, H, R, w, K, k, a, b))
    E.unchanged('frame', H, R, w, K)


@contract('C19', [f'{W}.light_vertex'], reps=60)
def light_vertex_is_the_derivative(E):
    """termwise derivative: i R_der exp(ikR)/w H"""
    wa = E.mod(W)
    n, o, nk, H, R, w, K = table(E)
    d = E.choice('direction', [0, 1, 2])
    E.eq('sum i R exp(ikR)/w H', wa.light_vertex(H.a, R.a, w.a, K.a, der=d), (nk, o, o),
         lambda k, a, b: fourier(E, n, H, R, w, K, k, a, b, lambda r: E.i * R(r, a, b, d)))
    E.unchanged('frame', H, R, w, K)


@contract('C19', [f'{W}.convham2'], reps=60)
def loop_version_is_the_weighted_sum(E):
    wa = E.mod(W)
    n, o, nk, H, R, w, K = table(E)
    E.eq('sum exp(ikR)/w H', wa.convham2(H.a, R.a, w.a, K.a), (nk, o, o), lambda k, a, b: fourier(E, n, H, R, w, K, k, a, b))
    E.unchanged('frame', H, R, w, K)


@contract('C19', [f'{W}.WannierHr.__init__', f'{W}.WannierHr.get_ek', f'{W}.WannierHr.get_light_vertex'], reps=40)
def hamiltonian_on_a_grid(E):
    """element (kx, ky, kz) belongs to the momentum of the mesh at that place; one_band selects the first orbital"""
    wa = E.mod(W)
    n, o, _, H, R, w, _ = table(E)
    nk = grid(E, 3)
    M = E.array('mesh', (3,) + nk, kind='f')
    bz = E.mod('brillouin_zone')
    kg = type('Mesh', (bz.KGrid,), {'__init__': lambda self: None, 'kmesh': property(lambda self: M.a)})()
    kg.nk = nk
    h = wa.WannierHr(H.a, R.a, w.a, None)
    d = E.choice('direction', [0, 1, 2])

    def at(x, y, z, a, b, extra=lambda r: 1):
        return E.sum(0, n, lambda r: extra(r) * E.exp(E.i * (R(r, a, b, 0) * M(0, x, y, z) + R(r, a, b, 1) * M(1, x, y, z) + R(r, a, b, 2) * M(2, x, y, z)))
                     / w(r, 0) * H(r, a, b))
    E.eq('all orbitals', h.get_ek(kg, one_band=False), nk + (o, o), at)
    E.eq('first orbital', h.get_ek(kg), nk, lambda x, y, z: at(x, y, z, 0, 0))
    E.eq('light vertex', h.get_light_vertex(kg, der=d, one_band=False), nk + (o, o), lambda x, y, z, a, b: at(x, y, z, a, b, lambda r: E.i * R(r, a, b, d)))
    E.eq('light vertex of the first orbital', h.get_light_vertex(kg, der=d), nk, lambda x, y, z: at(x, y, z, 0, 0, lambda r: E.i * R(r, 0, 0, d)))
    E.unchanged('frame', H, R, w, M)


@contract('C19', [f'{W}.convham', f'{W}.light_vertex'], reps=60, budget=120)
def hermitian_for_hermitian_hoppings(E):
    """H(-R) = H(R)^dagger (table listed as pairs R, -R): H(k) and its derivative are Hermitian matrices"""
    wa = E.mod(W)
    m, o, nk = E.int('pairs', lo=1, cmax=3), E.int('orbitals', lo=1, cmax=3), E.int('nk', lo=1, cmax=4)
    P, Q, u, K = E.array('H', (m, o, o)), E.array('R', (m, 3), kind='i', lo=-4, hi=5), E.array('weight', (m,), kind='+'), E.array('k', (3, nk), kind='f')
    H = E.given('Hall', (2 * m, o, o), lambda r, a, b: E.ite(r < m, lambda: P(r, a, b), lambda: E.conj(P(r - m, b, a))))
    R = E.given('Rall', (2 * m, o, o, 3), lambda r, a, b, c: E.ite(r < m, lambda: Q(r, c), lambda: -Q(r - m, c)), kind='f')
    w = E.given('wall', (2 * m, 1), lambda r, z: E.ite(r < m, lambda: u(r), lambda: u(r - m)), kind='f')
    h = wa.convham(H.a, R.a, w.a, K.a)
    E.eq('hermitian', h, (nk, o, o), lambda k, a, b: E.conj(E.get(h, k, b, a)))
    d = E.choice('direction', [0, 1, 2])
    v = wa.light_vertex(H.a, R.a, w.a, K.a, der=d)
    E.eq('hermitian light vertex', v, (nk, o, o), lambda k, a, b: E.conj(E.get(v, k, b, a)))


def closed(E, t, k, which):
    """-2 t (cos kx + cos ky) - 2 txy (cos(kx+ky) + cos(kx-ky)) - 2 t'' (cos 2kx + cos 2ky), anisotropic"""
    x, y = k
    tx, ty, txy, tppx, tppy = t
    if which is None:
        return -2 * tx * E.cos(x) - 2 * ty * E.cos(y) - 4 * txy * E.cos(x) * E.cos(y) - 2 * tppx * E.cos(2 * x) - 2 * tppy * E.cos(2 * y)
    if which == 0:
        return 2 * tx * E.sin(x) + 4 * txy * E.sin(x) * E.cos(y) + 4 * tppx * E.sin(2 * x)
    return 2 * ty * E.sin(y) + 4 * txy * E.cos(x) * E.sin(y) + 4 * tppy * E.sin(2 * y)


@contract('C19', [f'{W}.wannier_one_band_2d_t_tp_tpp', f'{W}.wannier_one_band_2d_nematic', f'{W}.convham', f'{W}.light_vertex'], reps=40)
def built_in_one_band_models(E):
    wa = E.mod(W)
    nk, K = E.int('nk', lo=1, cmax=4), None
    K = E.array('k', (3, nk), kind='f')
    model = E.choice('model', ['t_tp_tpp', 'nematic'])
    if model == 't_tp_tpp':
        t, tp, tpp = E.real('t'), E.real('tp'), E.real('tpp')
        h = wa.wannier_one_band_2d_t_tp_tpp(t, tp, tpp)
        p = (t, t, tp, tpp, tpp)
    else:
        tx, ty, tppx, tppy, txy = (E.real(x) for x in ('tx', 'ty', 'tppx', 'tppy', 'txy'))
        h = wa.wannier_one_band_2d_nematic(tx, ty, tppx, tppy, txy)
        p = (tx, ty, txy, tppx, tppy)
    at = lambda k, which=None: closed(E, p, (K(0, k), K(1, k)), which)
    E.eq('dispersion', wa.convham(h[0], h[1], h[2], K.a), (nk, 1, 1), lambda k, a, b: at(k))
    E.eq('velocity x', wa.light_vertex(h[0], h[1], h[2], K.a, der=0), (nk, 1, 1), lambda k, a, b: at(k, 0))
    E.eq('velocity y', wa.light_vertex(h[0], h[1], h[2], K.a, der=1), (nk, 1, 1), lambda k, a, b: at(k, 1))
    E.eq('velocity z', wa.light_vertex(h[0], h[1], h[2], K.a, der=2), (nk, 1, 1), lambda k, a, b: 0)
    E.eq('orbital labels', h[3], (12, 1, 1, 2), lambda *k: 1)


@contract('C19', [f'{W}.ek_square', f'{W}.del_ek_del_kx_square'], reps=40)
def dispersion_of_the_square_lattice(E):
    wa = E.mod(W)
    n = E.int('n', lo=1, cmax=4)
    x, y = E.array('kx', (n,), kind='f'), E.array('ky', (n,), kind='f')
    t, tp, tpp = E.real('t'), E.real('tp'), E.real('tpp')
    p = (t, t, tp, tpp, tpp)
    E.eq('dispersion', wa.ek_square(x.a, y.a, t, tp, tpp), (n,), lambda i: closed(E, p, (x(i), y(i)), None))
    E.eq('its derivative', wa.del_ek_del_kx_square(x.a, y.a, t, tp, tpp), (n,), lambda i: closed(E, p, (x(i), y(i)), 0))


RATIOS = {'standard_cuprates': (-.2, .1), 'motoharu_nickelates': (-.25, .12), 'unfrustrated_square': (0, 0)}


@contract('C19', [f'{W}.ek_3d', f'{W}.ek_3d_klist', f'{W}.ekpq_3d', f'{W}.one_band_2d_t_tp_tpp', f'{W}.one_band_2d_nematic', f'{W}.one_band_2d_quasi1d',
                  f'{W}.one_band_2d_triangular_t_tp_tpp', f'{W}.standard_cuprates', f'{W}.motoharu_nickelates', f'{W}.unfrustrated_square'], reps=60)
def dispersions_from_a_parameter_matrix(E):
    wa = E.mod(W)
    nk, n = grid(E, 3), E.int('n', lo=1, cmax=4)
    kx, ky, kz = (E.array(f'k{c}', (m,), kind='f') for c, m in zip('xyz', nk))
    L = E.array('klist', (n, 3), kind='f')
    which = E.choice('model', ['t_tp_tpp', 'nematic', 'quasi1d', 'triangular', 'standard_cuprates', 'motoharu_nickelates', 'unfrustrated_square'])
    if which == 't_tp_tpp':
        t, tp, tpp = E.real('t'), E.real('tp'), E.real('tpp')
        h, p = wa.one_band_2d_t_tp_tpp(t, tp, tpp), (t, t, tp, tpp, tpp)
    elif which == 'triangular':  # one diagonal only
        t, tp, tpp = E.real('t'), E.real('tp'), E.real('tpp')
        h = wa.one_band_2d_triangular_t_tp_tpp(t, tp, tpp)
        E.eq('one diagonal', wa.ek_3d((kx.a, ky.a, kz.a), h), nk,
             lambda a, b, c: closed(E, (t, t, 0, tpp, tpp), (kx(a), ky(b)), None) - 2 * tp * E.cos(kx(a) + ky(b)))
        return
    elif which in RATIOS:  # t' and t'' as fractions of t
        t, (r, s) = E.real('t'), RATIOS[which]
        h, p = getattr(wa, which)(t), (t, t, r * t, s * t, s * t)
    else:
        tx, ty, tppx, tppy, txy = (E.real(x) for x in ('tx', 'ty', 'tppx', 'tppy', 'txy'))
        f = wa.one_band_2d_nematic if which == 'nematic' else wa.one_band_2d_quasi1d
        h, p = f(tx, ty, tppx, tppy, txy), (tx, ty, txy, tppx, tppy)
    E.eq('grid', wa.ek_3d((kx.a, ky.a, kz.a), h), nk, lambda a, b, c: closed(E, p, (kx(a), ky(b)), None))
    E.eq('list', wa.ek_3d_klist(L.a, h), (n,), lambda i: closed(E, p, (L(i, 0), L(i, 1)), None))
    qx, qy, qz = E.real('qx'), E.real('qy'), E.real('qz')
    E.eq('shifted', wa.ekpq_3d(kx.a, ky(0), kz(0), qx, qy, qz, h), (nk[0],), lambda a: closed(E, p, (kx(a) + qx, ky(0) + qy), None))


def emery(E, ed, ep, tpd, tpp, tppp):
    """copper-oxygen plane: d orbital and two p orbitals"""
    def entry(x, y, a, b):
        e = lambda k, s: E.exp(s * E.i * k)
        return [[ed, tpd * (1 - e(x, -1)), tpd * (1 - e(y, -1))],
                [tpd * (1 - e(x, 1)), ep + 2 * tppp * E.cos(x), tpp * (1 - e(x, 1)) * (1 - e(y, -1))],
                [tpd * (1 - e(y, 1)), tpp * (1 - e(x, -1)) * (1 - e(y, 1)), ep + 2 * tppp * E.cos(y)]][a][b]
    return entry


@contract('C19', [f'{W}.wannier_emery_model', f'{W}.create_r_grid', f'{W}.create_orbs', f'{W}.insert_hr_elemend', f'{W}.convham'], reps=30, budget=120)
def three_band_model(E):
    wa = E.mod(W)
    nk = E.int('nk', lo=1, cmax=4)
    K = E.array('k', (3, nk), kind='f')
    ed, ep, tpd, tpp, tppp = (E.real(x) for x in ('ed', 'ep', 'tpd', 'tpp', 'tppp'))
    hr, R, w, orbs = wa.wannier_emery_model(ed, ep, tpd, tpp, tppp)
    h = wa.convham(hr, R, w, K.a)
    entry = emery(E, ed, ep, tpd, tpp, tppp)
    for a in range(3):
        for b in range(3):
            E.eq(f'element {a}{b}', h[:, a, b], (nk,), lambda k: entry(K(0, k), K(1, k), a, b))
    E.eq('orbital labels', orbs, (7, 3, 3, 2), lambda r, a, b, c: E.ite(c == 0, a + 1, b + 1))


@contract('C19', [f'{W}.emery_model_ek'], reps=25, budget=120)
def closed_form_of_the_three_band_model(E):
    """the same matrix as the Fourier sum (three_band_model), at the momentum of the mesh in the same place"""
    wa, bz, np = E.mod(W), E.mod('brillouin_zone'), E.np
    nk = grid(E, 3)
    M = E.array('mesh', (3,) + nk, kind='f')
    kg = type('Mesh', (bz.KGrid,), {'__init__': lambda self: None, 'kmesh': property(lambda self: M.a)})()
    kg.nk = nk
    p = [E.real(x) for x in ('ed', 'ep', 'tpd', 'tpp', 'tppp')]
    h, entry = wa.emery_model_ek(kg, *p), emery(E, *p)
    for a in range(3):
        for b in range(3):
            E.eq(f'element {a}{b}', h[..., a, b], nk, lambda x, y, z: entry(M(0, x, y, z), M(1, x, y, z), a, b))
    if not E.sym:
        E.true('equal to the Fourier sum', bool(np.allclose(wa.WannierHr(*wa.wannier_emery_model(*p)).get_ek(kg, one_band=False), h)))


@contract('C19', [f'{W}.convham', f'{W}.light_vertex'], reps=15, sym=False, bounded='finite differences')
def derivative_by_finite_differences(E):
    wa, np, rng = E.mod(W), E.np, E.nprng
    n, o, nk, d = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(0, 3))
    H = rng.normal(size=(n, o, o)) + 1j * rng.normal(size=(n, o, o))
    R = np.broadcast_to(rng.integers(-3, 4, (n, 1, 1, 3)), (n, o, o, 3)) * 1.
    w, K = rng.integers(1, 5, (n, 1)), rng.uniform(-3, 3, (3, nk))
    s = np.zeros((3, 1))
    s[d] = 1e-5
    fd = (wa.convham(H, R, w, K + s) - wa.convham(H, R, w, K - s)) / 2e-5
    E.true('derivative', bool(np.allclose(fd, wa.light_vertex(H, R, w, K, der=d), atol=1e-6)))


def folder(E):
    d = tempfile.mkdtemp(prefix='dga_c19_')
    E.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
    return d + '/'


@contract('C19', [f'{W}.write_hr_w2k', f'{W}.read_hr_w2k', f'{W}.create_wannier_hr_from_file', f'{W}.WannierHr.save_hr'], reps=25, sym=False,
          bounded='files on disk: up to 40 vectors and 3 orbitals, values with six decimals')
def hoppings_through_a_file(E):
    wa, np, rng = E.mod(W), E.np, E.nprng
    n, o = E.rng.choice([1, 2, 3, 13, 14, 15, 16, 29, 30, 31, 40]), int(rng.integers(1, 4))
    H = np.round(rng.normal(size=(n, o, o)) * 10. ** int(rng.integers(-3, 3)) + 1j * rng.normal(size=(n, o, o)), 6)
    R = np.broadcast_to(rng.integers(-20, 21, (n, 1, 1, 3)), (n, o, o, 3)).copy()
    w = rng.integers(1, 13, (n, 1))
    lab = np.stack(np.meshgrid(np.arange(1, o + 1), np.arange(1, o + 1), indexing='ij'), axis=-1)
    orbs = np.broadcast_to(lab, (n, o, o, 2)).copy()
    p = folder(E)
    wa.WannierHr(H, R, w, orbs).save_hr(p, name='hr.dat')
    r = wa.create_wannier_hr_from_file(p + 'hr.dat')
    E.true('hoppings', r.hr.shape == H.shape and bool(np.allclose(r.hr, H, atol=1e-6)))
    E.true('vectors', r.r_grid.shape == R.shape and bool(np.all(r.r_grid == R)))
    E.true('weights', np.shape(r.r_weights) == w.shape and bool(np.all(r.r_weights == w)))
    E.true('orbital labels', r.orbs.shape == orbs.shape and bool(np.all(r.orbs == orbs)))


@contract('C19', [f'{W}.write_hr_w2k', f'{W}.read_hr_w2k'], reps=6, sym=False, bounded='files on disk')
def built_in_models_through_a_file(E):
    wa, np = E.mod(W), E.np
    p = folder(E)
    v = [round(E.rng.uniform(-2, 2), 5) for _ in range(5)]
    which = E.rng.choice(['emery', 'square', 'nematic'])
    m = {'emery': lambda: wa.wannier_emery_model(*v), 'square': lambda: wa.wannier_one_band_2d_t_tp_tpp(*v[:3]),
         'nematic': lambda: wa.wannier_one_band_2d_nematic(*v)}[which]()
    wa.WannierHr(*m).save_hr(p)
    r = wa.read_hr_w2k(p + 'wannier_hr.dat')
    no, nr = m[0].shape[-1], m[0].shape[0]
    for lab, g, x in zip(('hoppings', 'vectors', 'weights', 'orbital labels'), r, m):
        x = np.broadcast_to(x, (nr, no, no, 3)) if lab == 'vectors' else x
        E.true(lab, np.shape(g) == np.shape(x) and bool(np.allclose(g, x, atol=1e-6)), which)


@contract('C19', [f'{W}.write_hk_wannier90', f'{W}.read_hk_w2k', f'{W}.WannierHr.save_hk'], reps=12, sym=False, bounded='files on disk')
def momentum_space_hamiltonian_through_a_file(E):
    wa, bz, np, rng = E.mod(W), E.mod('brillouin_zone'), E.np, E.nprng
    nk = tuple(E.rng.randint(1, 4) for _ in range(3))
    if nk == (1, 1, 1):
        nk = (2, 1, 1)
    kg = bz.KGrid(nk)
    h = wa.WannierHr(*wa.wannier_emery_model(*[E.rng.uniform(-2, 2) for _ in range(5)]))
    p = folder(E)
    h.save_hk(kg, p, name='m.hk')
    hk, k = wa.read_hk_w2k(p + 'm.hk')
    e = h.get_ek(kg, one_band=False)
    E.true('momenta in the order of the grid', bool(np.allclose(k, kg.kmesh.reshape(3, -1))))
    E.true('matrices', hk.shape == (int(np.prod(nk)), 3, 3) and bool(np.allclose(hk, e.reshape(-1, 3, 3), atol=1e-10)))

