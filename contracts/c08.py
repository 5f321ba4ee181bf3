"""C08 momentum grids, shifts and paths refer to the momenta they claim."""
from contracts.c07 import bare, nk3
from engine.reg import contract

ASSUMPTIONS = ["numpy.argmin meets its documentation (library function): position of the smallest element, the same one for equal arrays"]

BZ = 'brillouin_zone'


@contract('C08', [f'{BZ}.KGrid.set_k_axes', f'{BZ}.KGrid.kmesh', f'{BZ}.KGrid.kmesh_list', f'{BZ}.KGrid.kx_shift', f'{BZ}.KGrid.add_q_to_kgrid',
                  f'{BZ}.KGrid.grid'], reps=50)
def momentum_axes(E):
    bz = E.mod(BZ)
    nk = nk3(E)
    nx, ny, nz = nk
    kg = bare(E, bz, nk)
    kg.set_k_axes()
    ax = (kg.kx, kg.ky, kg.kz)
    for c in range(3):
        E.eq(f'axis {c}', ax[c], (nk[c],), lambda i: 2 * E.pi * i / nk[c])
        E.eq(f'grid {c}', kg.grid[c], (nk[c],), lambda i: 2 * E.pi * i / nk[c])

    def mom(c, i, j, k):
        return E.ite(c == 0, lambda: 2 * E.pi * i / nx, lambda: E.ite(c == 1, lambda: 2 * E.pi * j / ny, lambda: 2 * E.pi * k / nz))
    E.eq('mesh', kg.kmesh, (3,) + nk, mom)
    L = kg.kmesh_list
    E.true('list shape', L.shape[0] == 3)
    E.true('list length', L.shape[1] == nx * ny * nz)
    for a, b, c in (('kx_shift', 0, nx), ('ky_shift', 1, ny), ('kz_shift', 2, nz)):
        E.eq(a, getattr(kg, a), (c,), lambda i: 2 * E.pi * i / c - E.pi)
    q = tuple(E.real(f'q{c}') for c in range(3))
    sh = kg.add_q_to_kgrid(q)
    for c in range(3):
        E.eq(f'grid - q {c}', sh[c], (nk[c],), lambda i: 2 * E.pi * i / nk[c] - q[c])


@contract('C08', [f'{BZ}.KGrid.kmesh_ind', f'{BZ}.KGrid.get_q_list', f'{BZ}.KGrid.map_fbz_mesh2list', f'{BZ}.KGrid.map_fbz_list2mesh',
                  f'{BZ}.KGrid.set_ind_tuple'], reps=50)
def layouts(E):
    """mesh and list layout are inverse to each other and ordered like the list of momentum indices"""
    bz = E.mod(BZ)
    nk = nk3(E)
    nx, ny, nz = nk
    N = nx * ny * nz
    kg = bare(E, bz, nk)
    E.eq('index mesh', kg.kmesh_ind, (3,) + nk, lambda c, i, j, k: E.ite(c == 0, i, E.ite(c == 1, j, k)))
    tail = E.choice('trailing', [0, 1])
    t = tuple(E.int('t', lo=1, cmax=3) for _ in range(tail))
    M = E.array('M', nk + t)
    L = kg.map_fbz_mesh2list(M.a)
    E.true('list length', L.shape[0] == N)
    E.eq('mesh -> list -> mesh', kg.map_fbz_list2mesh(L), nk + t, lambda *ix: M(*ix))
    F = E.array('F', (N,) + t)
    R = kg.map_fbz_list2mesh(F.a)
    E.eq('list -> mesh', R, nk + t, lambda i, j, k, *u: F((i * ny + j) * nz + k, *u))
    E.eq('list -> mesh -> list', kg.map_fbz_mesh2list(R), (N,) + t, lambda *ix: F(*ix))
    E.unchanged('frame', M, F)


@contract('C08', [f'{BZ}.KGrid.get_q_list', f'{BZ}.KGrid.set_ind_tuple', f'{BZ}.KGrid.map_fbz_mesh2list', f'{BZ}.KGrid.kmesh_list',
                  f'{BZ}.KGrid.find_q_ind', f'{BZ}.KGrid.get_k_slice', f'{BZ}.KGrid.shift_mat_by_q', f'{BZ}.KGrid.irrk_ind_lin'],
          sym=False, reps=80, bounded='argmin and flattening of stacked meshes; evaluated on real grids')
def momentum_lists_and_slices(E):
    import numpy as np
    bz = E.mod(BZ)
    nk = nk3(E, 6)
    kg = bz.KGrid(nk, E.choice('sym', [bz.two_dimensional_square_symmetries, lambda: [], bz.simultaneous_x_y_inversion])())
    ks = list(np.ndindex(*nk))
    ql = kg.get_q_list()
    E.eq('list of indices', ql, (len(ks), 3), lambda i, c: ks[i][c])
    E.eq('list of momenta', kg.kmesh_list, (3, len(ks)), lambda c, i: 2 * np.pi * ks[i][c] / nk[c])
    ind = np.asarray(kg.ind).reshape(len(ks), -1)
    if ind.shape[1] == 3:
        E.eq('index tuples', ind, (len(ks), 3), lambda i, c: ks[i][c])
    E.true('counts', kg.nk_tot == len(ks) and list(kg.ind_lin) == list(range(len(ks))) and
           list(kg.irrk_ind_lin) == list(range(kg.nk_irr)))
    M = E.array('M', nk + (2,))
    E.eq('list value at its momentum', kg.map_fbz_mesh2list(M.a), (len(ks), 2), lambda i, c: M(*ql[i], c))
    # slices and shifts by momentum vectors
    d = E.rng.randrange(3)
    i = E.rng.randrange(nk[d])
    k = 2 * np.pi * i / nk[d] + E.rng.uniform(-0.3, 0.3) * 2 * np.pi / nk[d]
    E.same('closest plane', kg.get_k_slice(M.a, d, k), np.take(M.pristine, i, axis=d))
    q = [E.rng.randrange(n) for n in nk]
    kq = [2 * np.pi * (a + E.rng.uniform(-0.3, 0.3)) / n for a, n in zip(q, nk)]
    kq = [min(max(x, 0), 2 * np.pi * (n - 1) / n) for x, n in zip(kq, nk)]
    E.true('index of a momentum', list(kg.find_q_ind(kq)) == q)
    E.eq('shift by a momentum', kg.shift_mat_by_q(M.a, kq), nk + (2,), lambda a, b, c, t: M(*[(x - y) % n for x, y, n in zip((a, b, c), q, nk)], t))
    E.unchanged('frame', M)


@contract('C08', [f'{BZ}.KGrid.get_k_slice', f'{BZ}.KGrid.shift_mat_by_q', f'{BZ}.KGrid.find_q_ind'], reps=60)
def closest_momentum(E):
    """the plane of the grid closest to a momentum; shift by the momentum of the grid closest to the given one"""
    bz = E.mod(BZ)
    nk = nk3(E)
    kg = bare(E, bz, nk)
    kg.set_k_axes()
    tail = E.choice('trailing', [0, 1])
    t = tuple(E.int('t', lo=1, cmax=3) for _ in range(tail))
    M = E.array('M', nk + t)
    q = [E.real(f'q{c}', lo=-1, hi=7) for c in range(3)]
    near = [E.argmin(n, lambda i, n=n, x=x: E.abs(2 * E.pi * i / n - x)) for n, x in zip(nk, q)]
    d = E.choice('direction', [0, 1, 2])
    E.eq('plane', kg.get_k_slice(M.a, d, q[d]), nk[:d] + nk[d + 1:] + t, lambda *x: M(*x[:d], near[d], *x[d:]))
    E.raises('no such direction', AssertionError, lambda: kg.get_k_slice(M.a, E.choice('wrong', [3, -1]), q[d]))
    E.eq('value from k - q', kg.shift_mat_by_q(M.a, tuple(q)), nk + t,
         lambda i, j, k, *x: M(*[E.mod_n(a - b, n) for a, b, n in zip((i, j, k), near, nk)], *x))
    for c, (i, n) in enumerate(zip(kg.find_q_ind(tuple(q)), near)):
        E.scalar(f'position {c}', i, n)
    E.unchanged('frame', M)


@contract('C08', [f'{BZ}.KGrid.get_q_list', f'{BZ}.KGrid.get_irrq_list', f'{BZ}.KGrid.kmesh_list', f'{BZ}.KGrid.set_irrk_mesh', f'{BZ}.KGrid.irr_kgrid',
                  f'{BZ}.KGrid.irrk_ind_lin', f'{BZ}.KGrid.ind_lin', f'{BZ}.KGrid.set_ind_tuple', f'{BZ}.KGrid.nk_tot', f'{BZ}.KGrid.nk_irr'], reps=60)
def lists_of_momenta(E):
    """all lists run over the momenta in one and the same order, the irreducible ones over the selected momenta"""
    bz = E.mod(BZ)
    nk = nk3(E)
    nx, ny, nz = nk
    N, m = nx * ny * nz, E.int('m', lo=1, cmax=6)
    kg = bare(E, bz, nk)
    kg.set_k_axes()
    ind = E.array('ind', (m,), kind='i', lo=0, hi=N)
    kg.irrk_ind = ind.a
    E.scalar('number of momenta', kg.nk_tot, N)
    E.scalar('number of irreducible momenta', kg.nk_irr, m)
    E.eq('positions', kg.ind_lin, (N,), lambda i: i)
    E.eq('irreducible positions', kg.irrk_ind_lin, (m,), lambda i: i)
    one = lambda c, *x: E.ite(c == 0, x[0], lambda: E.ite(c == 1, x[1], x[2]))
    Q, K = kg.get_q_list(), kg.kmesh_list
    E.eq('indices', Q.reshape(nk + (3,)), nk + (3,), lambda i, j, k, c: one(c, i, j, k))
    E.eq('irreducible indices', kg.get_irrq_list(), (m, 3), lambda i, c: E.get(Q, ind(i), c))
    E.eq('momenta', K.reshape((3,) + nk), (3,) + nk, lambda c, i, j, k: 2 * E.pi * one(c, i / nx, j / ny, k / nz))
    kg.set_irrk_mesh()
    E.eq('irreducible momenta', kg.irr_kmesh, (3, m), lambda c, i: E.get(K, c, ind(i)))
    for c, k in enumerate(kg.irr_kgrid):
        E.eq(f'irreducible momenta {c}', k, (m,), lambda i: E.get(K, c, ind(i)))
    E.assume(N > 1)
    kg.set_ind_tuple()
    E.eq('index tuples', kg.ind.reshape(nk + (3,)), nk + (3,), lambda i, j, k, c: one(c, i, j, k))
    E.unchanged('frame', ind)


@contract('C08', [f'{BZ}.shift_mat_by_ind', f'{BZ}.KGrid.shift_mat_by_ind'], reps=60)
def shift_by_indices(E):
    bz = E.mod(BZ)
    where = E.choice('where', ['module', 'grid'])
    tail = E.choice('trailing', [0, 1])
    nk = nk3(E)
    sh = nk + tuple(E.int('t', lo=1, cmax=3) for _ in range(tail))
    q = tuple(E.int(c, lo=None) for c in ('qx', 'qy', 'qz'))
    M = E.array('M', sh)
    f = bz.shift_mat_by_ind if where == 'module' else bare(E, bz, nk).shift_mat_by_ind
    E.eq('value from k - q', f(M.a, q), sh, lambda i, j, k, *t: M(*[E.mod_n(a - b, n) for a, b, n in zip((i, j, k), q, nk)], *t))
    E.eq('no shift', f(M.a), sh, lambda *ix: M(*ix))
    back = f(f(M.a, q), tuple(-x for x in q))
    E.eq('shift and back', back, sh, lambda *ix: M(*ix))
    E.unchanged('frame', M)


@contract('C08', [f'{BZ}.shift_mat_by_pi', f'{BZ}.KGrid.shift_mat_by_pi'], reps=60)
def shift_by_pi(E):
    bz = E.mod(BZ)
    tail = E.choice('trailing', [0, 1])
    axes = E.choice('axes', [(0, 1, 2), (0,), (1,), (2,), (0, 2), (1, 2)])
    nk = nk3(E)
    sh = nk + tuple(E.int('t', lo=1, cmax=3) for _ in range(tail))
    M = E.array('M', sh)

    def at(which):
        def f(*ix):
            ix = list(ix)
            for c in which:
                ix[c] = E.mod_n(ix[c] - nk[c] // 2, nk[c])
            return M(*ix)
        return f
    E.eq('grid: named axes', bare(E, bz, nk).shift_mat_by_pi(M.a, axes=axes), sh, at(axes))
    E.eq('grid: default', bare(E, bz, nk).shift_mat_by_pi(M.a), sh, at((0, 1, 2)))
    E.eq('in-plane', bz.shift_mat_by_pi(M.a), sh, at((0, 1)))
    E.eq('in-plane, sizes given', bz.shift_mat_by_pi(M.a, nk=nk), sh, at((0, 1)))
    E.unchanged('frame', M)


def some_path(E, bz):
    n = E.int('corners', lo=2, cmax=5)
    names = list(bz.KNOWN_K_POINTS)
    pts, strs = [], []
    for i in range(n):
        if E.rng.random() < 0.6:
            s = E.rng.choice(names)
            p = {'Gamma': (0, 0, 0), 'X': (.5, 0, 0), 'Y': (0, .5, 0), 'M': (.5, .5, 0), 'M2': (.25, .25, 0), 'Z': (0, 0, .5),
                 'R': (.5, 0, .5), 'A': (.5, .5, .5)}.get(s, tuple(bz.KNOWN_K_POINTS[s]))
        else:
            p = tuple(E.rng.choice([0, .25, .5, .75, 1.0, 0.125]) for _ in range(3))
            s = ' '.join(str(x) for x in p)
        pts.append(p)
        strs.append(s)
    return pts, strs


@contract('C08', [f'{BZ}.KPath.__init__', f'{BZ}.KPath.build_k_path', f'{BZ}.kpath_segment', f'{BZ}.KPath.get_kpath_val', f'{BZ}.KPath.map_to_kpath',
                  f'{BZ}.KPath.corner_k_points', f'{BZ}.get_k_point_from_string', f'{BZ}.KPath.cind', f'{BZ}.KPath.x_ticks',
                  f'{BZ}.KPath.get_kpoints', f'{BZ}.KPath.labels'],
          sym=False, reps=300, bounded='path given as text, rounding of floating point coordinates')
def paths(E):
    import numpy as np
    bz = E.mod(BZ)
    nk = tuple(E.int(c, lo=1, cmax=9) for c in ('nx', 'ny', 'nz'))
    pts, strs = some_path(E, bz)
    sep = E.choice('separator', ['-', '|'])
    own = E.choice('axes', ['default', 'given'])
    kax = [np.linspace(0, 2 * np.pi, n, endpoint=False) for n in nk]
    seg = [np.linalg.norm([(a - b) * n for a, b, n in zip(p, q, nk)]) for p, q in zip(pts, pts[1:])]
    E.assume(all(s > 0.6 for s in seg))
    if own == 'given':
        kax = [np.sort(E.array(f'k{i}', (n,), kind='f').a) for i, n in enumerate(nk)]
        P = bz.KPath(nk, sep.join(strs), *kax, path_deliminator=sep)
    else:
        P = bz.KPath(nk, sep.join(strs), path_deliminator=sep)
    E.same('corners', P.ckp, np.array(pts, dtype=float))
    idx = np.asarray(P.kpts)
    E.true('inside the grid', idx.shape[1] == 3 and np.all(idx >= 0) and np.all(idx < np.array(nk)))
    E.true('lengths', list(P.nkp) == [int(np.round(s)) for s in seg] and P.nk_tot == sum(P.nkp) == idx.shape[0])
    r = 0
    for (p, q), n in zip(zip(pts, pts[1:]), P.nkp):
        for t in range(n):
            want = np.array([(a + (b - a) * t / n) * m for a, b, m in zip(p, q, nk)])
            d = (idx[r] - want) / np.array(nk)
            d = np.abs(d - np.round(d)) * np.array(nk)
            E.true('straight segments from corner to corner', np.all(d <= 0.5 + 1e-9), f'point {r}: {idx[r]} want {want}')
            r += 1
    E.eq('momenta of the visited indices', P.k_points, (r, 3), lambda i, c: kax[c][idx[i, c]])
    for c, nme in enumerate(('ikx', 'iky', 'ikz')):
        E.eq(nme, getattr(P, nme), (r,), lambda i: idx[i, c])
        E.eq('k_val', P.k_val[c], (r,), lambda i: kax[c][idx[i, c]])
    M = E.array('M', nk + (2,))
    E.eq('map to the path', P.map_to_kpath(M.a), (r, 2), lambda i, t: M(*idx[i], t))
    E.true('corner positions', list(P.cind) == [0] + [int(x) - 1 for x in np.cumsum(P.nkp)] and len(P.x_ticks) == len(pts) == len(P.labels))
    E.same('tick positions', P.x_ticks, np.linspace(0, 1, r)[P.cind])
    E.unchanged('frame', M)


@contract('C08', [f'{BZ}.KPath.get_bands'], sym=False, reps=30, bounded='eigenvalues (library function)')
def bands_along_a_path(E):
    import numpy as np
    bz = E.mod(BZ)
    nk = tuple(E.int(c, lo=2, cmax=5) for c in ('nx', 'ny', 'nz'))
    nb = E.int('nb', lo=1, cmax=3)
    H = E.array('H', nk + (nb, nb)).a
    H = H + np.conj(np.swapaxes(H, -1, -2))
    P = bz.KPath(nk, 'Gamma-M-A-Gamma')
    E.assume(np.all(np.array(P.nkp) > 0))
    b = P.get_bands(H)
    E.eq('sorted eigenvalues at the visited momenta', b, (P.nk_tot, nb), lambda i, c: np.linalg.eigvalsh(H[tuple(P.kpts[i])])[c])


@contract('C08', [f'{BZ}.KGrid.get_k_slice', f'{BZ}.KGrid.find_q_ind', f'{BZ}.KGrid.shift_mat_by_q'], reps=60)
def slices_and_shifts_at_a_momentum(E):
    """a momentum stands for the grid momentum closest to it along the named axis"""
    bz = E.mod(BZ)
    nk = nk3(E)
    kg = bare(E, bz, nk)
    kg.set_k_axes()
    t = tuple(E.int('t', lo=1, cmax=3) for _ in range(E.choice('trailing', [0, 1])))
    M = E.array('M', nk + t)
    q = tuple(E.real(f'q{c}', lo=0, hi=6) for c in range(3))
    near = [E.argmin(nk[c], lambda i, c=c: E.abs(2 * E.pi * i / nk[c] - q[c])) for c in range(3)]
    E.eq('plane along x', kg.get_k_slice(M.a, 0, q[0]), (nk[1], nk[2]) + t, lambda a, b, *u: M(near[0], a, b, *u))
    E.eq('plane along y', kg.get_k_slice(M.a, 1, q[1]), (nk[0], nk[2]) + t, lambda a, b, *u: M(a, near[1], b, *u))
    E.eq('plane along z', kg.get_k_slice(M.a, 2, q[2]), (nk[0], nk[1]) + t, lambda a, b, *u: M(a, b, near[2], *u))
    ind = kg.find_q_ind(q)
    for c in range(3):
        E.true(f'index along {c}', ind[c] == near[c])
    E.eq('translation', kg.shift_mat_by_q(M.a, q), nk + t,
         lambda a, b, c, *u: M(*[E.mod_n(x - y, n) for x, y, n in zip((a, b, c), near, nk)], *u))
    E.raises('axis', AssertionError, lambda: kg.get_k_slice(M.a, 3, q[0]))
    E.unchanged('frame', M)


@contract('C08', [f'{BZ}.KPath.get_kpath_val', f'{BZ}.KPath.get_kpoints', f'{BZ}.KPath.map_to_kpath', f'{BZ}.KPath.ikx', f'{BZ}.KPath.iky',
                  f'{BZ}.KPath.ikz'], reps=60)
def quantities_on_a_path(E):
    """for any list of visited indices: the momentum of the visited index on each axis, and the value at the visited indices"""
    bz = E.mod(BZ)
    nk = nk3(E)
    r, t = E.int('r', lo=1, cmax=6), E.int('t', lo=1, cmax=3)
    P = bz.KPath.__new__(bz.KPath)
    idx = [E.array(f'i{c}', (r,), kind='i', lo=0, hi=nk[c]) for c in range(3)]
    P.nk, P.kpts = nk, E.np.stack([x.a for x in idx], axis=-1)
    ax = [E.array(f'k{c}', (nk[c],), kind='f') for c in range(3)]
    P.kx, P.ky, P.kz = (a.a for a in ax)
    P.k_val = P.get_kpath_val()
    for c in range(3):
        E.eq(f'momentum {c}', P.k_val[c], (r,), lambda p: ax[c](idx[c](p)))
        E.eq(f'index {c}', getattr(P, ('ikx', 'iky', 'ikz')[c]), (r,), lambda p: idx[c](p))
    pts = P.get_kpoints()
    for c in range(3):
        E.eq(f'list of momenta {c}', pts[:, c], (r,), lambda p: ax[c](idx[c](p)))
    M = E.array('M', nk + (t,))
    E.eq('values', P.map_to_kpath(M.a), (r, t), lambda p, q: M(idx[0](p), idx[1](p), idx[2](p), q))
    E.unchanged('frame', M)
