"""C07 irreducible-zone reduction merges only symmetry-equivalent momenta."""
from engine.reg import contract

BZ = 'brillouin_zone'
SYMS = ['x-inv', 'y-inv', 'z-inv', 'x-y-sym', 'x-y-inv']
NAMED = ['two_dimensional_square_symmetries', 'two_dimensional_nematic_symmetries', 'quasi_two_dimensional_square_symmetries',
         'quasi_one_dimensional_square_symmetries', 'simultaneous_x_y_inversion']
ASSUMPTIONS = ['numpy.unique(return_index, return_inverse, return_counts) meets its documentation (library function; its results on '
               'the real grids are evaluated by the bounded contracts)']


def nk3(E, cmax=5):
    return tuple(E.int(c, lo=1, cmax=cmax) for c in ('nx', 'ny', 'nz'))


def neg(E, i, n):
    """-i modulo n"""
    return E.ite(i == 0, 0, n - i)


@contract('C07', [f'{BZ}.inv_sym'], reps=60)
def inversion_along_one_axis(E):
    """upper half becomes the mirror image of the lower half; everything else is untouched"""
    bz = E.mod(BZ)
    ax = E.choice('axis', [0, 1, 2])
    tail = E.choice('trailing', [0, 1])
    nk = nk3(E)
    sh = nk + tuple(E.int('t', lo=1, cmax=3) for _ in range(tail))
    A = E.array('A', sh)
    m = A.a.copy()
    bz.inv_sym(m, ax)

    def spec(*ix):
        jx = list(ix)
        i = ix[ax]
        jx[ax] = E.ite(2 * i > nk[ax], nk[ax] - i, i)
        return A(*jx)
    E.eq('mirror image', m, sh, spec)


@contract('C07', [f'{BZ}.x_y_sym'], reps=60)
def exchange_of_x_and_y(E):
    """both members of a pair get the smaller of the two labels; a non-square grid is left alone"""
    bz = E.mod(BZ)
    n, nz = E.int('nx', lo=1, cmax=5), E.int('nz', lo=1, cmax=4)
    square = E.choice('square', [True, False])
    ny = n if square else n + E.int('more', lo=1, cmax=3)
    A = E.array('A', (n, ny, nz), kind='i')
    m = A.a.copy()
    bz.x_y_sym(m)
    if square:
        E.eq('smaller label', m, (n, n, nz), lambda i, j, k: E.min(A(i, j, k), A(j, i, k)))
    else:
        E.eq('untouched', m, (n, ny, nz), lambda i, j, k: A(i, j, k))


@contract('C07', [f'{BZ}.x_y_inv'], reps=60)
def simultaneous_inversion(E):
    """a value is replaced only by the value at the inverted in-plane momentum"""
    bz = E.mod(BZ)
    nk = nk3(E)
    A = E.array('A', nk, kind='i')
    m = A.a.copy()
    bz.x_y_inv(m)
    nx, ny, nz = nk

    def ok(i, j, k):
        v, inv = E.get(m, i, j, k), A(neg(E, i, nx), neg(E, j, ny), k)
        return E.ite(v == inv, inv, A(i, j, k))
    E.eq('value at k or -k', m, nk, ok)


def image(E, sym, k, nk):
    i, j, l = k
    nx, ny, nz = nk
    if sym == 'x-inv':
        return neg(E, i, nx), j, l
    if sym == 'y-inv':
        return i, neg(E, j, ny), l
    if sym == 'z-inv':
        return i, j, neg(E, l, nz)
    if sym == 'x-y-sym':
        return j, i, l
    return neg(E, i, nx), neg(E, j, ny), l


@contract('C07', [f'{BZ}.apply_symmetry', f'{BZ}.apply_symmetries'], reps=60)
def every_named_symmetry_uses_its_image(E):
    """one application takes the label of k itself or of its image under the named symmetry; two images share a label"""
    bz = E.mod(BZ)
    sym = E.choice('symmetry', SYMS)
    how = E.choice('how', ['apply_symmetry', 'apply_symmetries'])
    n, nz = E.int('nx', lo=1, cmax=5), E.int('nz', lo=1, cmax=4)
    ny = n if sym == 'x-y-sym' else E.int('ny', lo=1, cmax=5)
    nk = (n, ny, nz)
    A = E.array('A', nk, kind='i')
    m = A.a.copy()
    if how == 'apply_symmetry':
        bz.apply_symmetry(m, sym)
    else:
        bz.apply_symmetries(m, [sym])

    def ok(i, j, k):
        v, im = E.get(m, i, j, k), A(*image(E, sym, (i, j, k), nk))
        return E.ite(v == im, im, A(i, j, k))
    E.eq('label of k or of its image', m, nk, ok)
    if sym != 'x-y-inv':
        E.eq('images share a label', m, nk, lambda i, j, k: E.get(m, *image(E, sym, (i, j, k), nk)))
    m2 = A.a.copy()
    bz.apply_symmetries(m2, [])
    E.eq('no symmetry, no merging', m2, nk, lambda i, j, k: A(i, j, k))
    E.raises('unknown symmetry', AssertionError, lambda: bz.apply_symmetry(m2, 'xy-inv'))


def orbit(k, nk, syms):
    """all images of k under the declared symmetries (independent oracle)"""
    class C:
        @staticmethod
        def ite(c, a, b):
            return a if c else b
    seen, todo = {k}, [k]
    while todo:
        p = todo.pop()
        for s in syms:
            if s == 'x-y-sym' and nk[0] != nk[1]:
                continue
            q = image(C, s, p, nk)
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def a_grid(E, bz):
    import random
    how = E.choice('list', ['named', 'any', 'none'])
    nk = nk3(E, 6)
    if E.choice('square', [True, False]):
        nk = (nk[0], nk[0], nk[2])
    if how == 'named':
        syms = getattr(bz, NAMED[E.choice('name', list(range(len(NAMED))))])()
    elif how == 'any':
        m = E.int('m', lo=1, cmax=4)
        syms = [SYMS[E.rng.randrange(5)] for _ in range(m)]
    else:
        syms = []
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return bz.KGrid(nk, syms), nk, list(syms)


@contract('C07', [f'{BZ}.KGrid.set_fbz2irrk', f'{BZ}.KGrid.set_irrk_maps', f'{BZ}.KGrid.set_irrk_mesh', f'{BZ}.KGrid.get_irrq_list',
                  f'{BZ}.KGrid.irrk_mesh_ind'], sym=False, reps=300, bounded='numpy.unique on arbitrary label arrays')
def irreducible_points(E):
    import numpy as np
    bz = E.mod(BZ)
    kg, nk, syms = a_grid(E, bz)
    tot = int(np.prod(nk))
    ks = list(np.ndindex(*nk))
    inv, ind, cnt = (np.asarray(x).reshape(-1) for x in (kg.irrk_inv, kg.irrk_ind, kg.irrk_count))
    E.true('every momentum is represented', inv.size == tot and inv.min() >= 0 and inv.max() < ind.size)
    E.true('multiplicities', cnt.sum() == tot and all(np.sum(inv == i) == c for i, c in enumerate(cnt)) and kg.nk_irr == ind.size == cnt.size)
    for a, k in enumerate(ks):
        r = ks[ind[inv[a]]]
        E.true('represented by an image', r in orbit(k, nk, syms), f'{k} by {r} for {syms} on {nk}')
    for i in range(ind.size):
        E.true('an irreducible point represents itself', inv[ind[i]] == i)
    E.same('irreducible momenta', np.array(kg.irr_kmesh), np.array([[2 * np.pi * ks[p][c] / nk[c] for p in ind] for c in range(3)]))
    E.same('irreducible list', kg.get_irrq_list(), np.array([ks[p] for p in ind]))
    E.same('irreducible indices', kg.irrk_mesh_ind, np.array([ks[p] for p in ind]).T)
    E.true('grid of irreducible momenta', len(kg.irr_kgrid) == 3 and all(np.array_equal(a, b) for a, b in zip(kg.irr_kgrid, kg.irr_kmesh)))


@contract('C07', [f'{BZ}.KGrid.map_irrk2fbz', f'{BZ}.KGrid.map_fbz2irrk', f'{BZ}.KGrid.k_mean', f'{BZ}.KGrid.symmetrize_irrk'],
          sym=False, reps=200, bounded='numpy.unique on arbitrary label arrays')
def symmetric_quantities_survive(E):
    import numpy as np
    bz = E.mod(BZ)
    kg, nk, syms = a_grid(E, bz)
    tail = tuple(E.int(f't{i}', lo=1, cmax=3) for i in range(E.choice('trailing', [1, 0, 2])))
    q = np.empty(nk + tail, dtype=complex)
    raw = E.array('raw', nk + tail).a
    avg = np.empty_like(q)
    for k in np.ndindex(*nk):
        o = sorted(orbit(k, nk, syms))
        q[k] = raw[o[0]]
    kept = q.copy()
    lst = q.reshape((-1,) + tail)
    red = kg.map_fbz2irrk(q)
    E.true('one value per irreducible point', red.shape == (kg.nk_irr,) + tail)
    E.same('list layout', kg.map_fbz2irrk(lst, shape='list'), red)
    E.same('restrict and map back', kg.map_irrk2fbz(red), q)
    E.same('restrict and map back (list)', kg.map_irrk2fbz(red, shape='list'), lst)
    mean = q.mean(axis=(0, 1, 2))
    E.same('weighted average', kg.k_mean(red), mean)
    E.same('mesh average', kg.k_mean(q, shape='fbz-mesh'), mean)
    E.same('mesh average (short name)', kg.k_mean(q, shape='mesh'), mean)
    E.same('list average', kg.k_mean(lst, shape='fbz-list'), mean)
    E.same('list average (short name)', kg.k_mean(lst, shape='list'), mean)
    E.same('symmetrising a symmetric quantity', kg.symmetrize_irrk(q), q)
    inv = np.asarray(kg.irrk_inv).reshape(nk)
    for k in np.ndindex(*nk):
        avg[k] = raw[inv == inv[k]].mean(axis=0)
    E.same('symmetrising averages over the represented momenta', kg.symmetrize_irrk(raw), avg)
    E.true('input untouched', np.array_equal(q, kept))
    E.raises('unknown layout', ValueError, lambda: kg.map_irrk2fbz(red, shape='fbz'))
    E.raises('unknown layout', ValueError, lambda: kg.map_fbz2irrk(q, shape='fbz'))
    E.raises('unknown layout', ValueError, lambda: kg.k_mean(q, shape='fbz'))


def bare(E, bz, nk):
    kg = bz.KGrid.__new__(bz.KGrid)
    kg.nk = nk
    return kg


def image(E, syms, nk):
    """flat position of the momentum that stands for (i, j, k)"""
    n, ny, nz = nk

    def fold(i, m):
        return E.ite(2 * i > m, m - i, i)

    def flat(i, j, k):
        return (i * ny + j) * nz + k

    def spec(i, j, k):
        if 'x-y-inv' in syms:
            up = (2 * i > n) & (j > 0)
            return E.ite(up, flat(n - i, ny - j, k), flat(i, j, k))
        a = fold(i, n) if 'x-inv' in syms else i
        b = fold(j, ny) if 'y-inv' in syms else j
        c = fold(k, nz) if 'z-inv' in syms else k
        if 'x-y-sym' in syms:
            a, b = E.min(a, b), E.max(a, b)
        return flat(a, b, c)
    return spec


@contract('C07', [f'{BZ}.KGrid.set_fbz2irrk'], reps=60)
def labels_of_the_full_zone(E):
    """for every named symmetry list: each label is the flat index of an image of that momentum"""
    bz = E.mod(BZ)
    name = E.choice('name', NAMED)
    n, nz = E.int('nx', lo=1, cmax=6), E.int('nz', lo=1, cmax=4)
    ny = n if 'square' in name and 'one' not in name else E.int('ny', lo=1, cmax=6)
    nk = (n, ny, nz)
    kg = bare(E, bz, nk)
    kg.symmetries = getattr(bz, name)()
    kg.set_fbz2irrk()
    spec = image(E, list(kg.symmetries), nk)
    E.eq('label of an image', kg.fbz2irrk, nk, spec)


@contract('C07', [f'{BZ}.KGrid.map_irrk2fbz', f'{BZ}.KGrid.map_fbz2irrk'], reps=60)
def index_maps(E):
    """for any pair of index maps: value of the irreducible representative at every momentum, and back"""
    bz = E.mod(BZ)
    nk = nk3(E, 4)
    nx, ny, nz = nk
    N = nx * ny * nz
    m, t = E.int('m', lo=1, cmax=6), E.int('t', lo=1, cmax=3)
    kg = bare(E, bz, nk)
    inv, ind = E.array('inv', (N,), kind='i', lo=0, hi=m), E.array('ind', (m,), kind='i', lo=0, hi=N)
    kg.irrk_inv, kg.irrk_ind = inv.a, ind.a
    R = E.array('R', (m, t))
    E.eq('mesh', kg.map_irrk2fbz(R.a), nk + (t,), lambda i, j, k, q: R(inv((i * ny + j) * nz + k), q))
    E.eq('list', kg.map_irrk2fbz(R.a, shape='list'), (N, t), lambda k, q: R(inv(k), q))
    F = E.array('F', (N, t))
    E.eq('restriction of a list', kg.map_fbz2irrk(F.a, shape='list'), (m, t), lambda i, q: F(ind(i), q))
    M = E.given('M', nk + (t,), lambda i, j, k, q: F((i * ny + j) * nz + k, q))
    E.eq('restriction of a mesh', kg.map_fbz2irrk(M.a), (m, t), lambda i, q: F(ind(i), q))


@contract('C07', [f'{BZ}.KGrid.k_mean'], reps=60)
def weighted_average(E):
    bz = E.mod(BZ)
    nk = nk3(E, 4)
    nx, ny, nz = nk
    m, t = E.int('m', lo=1, cmax=6), E.int('t', lo=1, cmax=3)
    kg = bare(E, bz, nk)
    cnt = E.array('cnt', (m,), kind='i', lo=1, hi=9)
    kg.irrk_count = cnt.a
    R = E.array('R', (m, t))
    E.eq('irreducible', kg.k_mean(R.a), (t,), lambda q: E.sum(0, m, lambda i: cnt(i) * R(i, q)) / (nx * ny * nz))
    M = E.array('M', nk + (t,))
    E.eq('mesh', kg.k_mean(M.a, shape='fbz-mesh'), (t,), lambda q: E.sum(
        0, nx, lambda a: E.sum(0, ny, lambda b: E.sum(0, nz, lambda c: M(a, b, c, q)))) / (nx * ny * nz))
    L = E.array('L', (nx * ny * nz, t))
    E.eq('list', kg.k_mean(L.a, shape='fbz-list'), (t,), lambda q: E.sum(0, nx * ny * nz, lambda a: L(a, q)) / (nx * ny * nz))


@contract('C07', [f'{BZ}.KGrid.symmetrize_irrk', f'{BZ}.KGrid.map_irrk2fbz'], reps=60)
def average_over_the_represented_momenta(E):
    """for any index map: every momentum gets the mean over the momenta with the same irreducible representative, of any type of number"""
    bz = E.mod(BZ)
    nk = nk3(E, 4)
    nx, ny, nz = nk
    N = nx * ny * nz
    m, t = E.int('m', lo=1, cmax=4), E.int('t', lo=1, cmax=3)
    kg = bare(E, bz, nk)
    inv = E.array('inv', (N,), kind='i', lo=0, hi=m)
    kg.irrk_inv, kg.irrk_ind = inv.a, E.array('ind', (m,), kind='i', lo=0, hi=N).a
    kind = E.choice('kind', ['c', 'f', 'i'])
    F = E.array('F', (N, t), kind=kind, lo=-5, hi=5) if kind == 'i' else E.array('F', (N, t), kind=kind)
    M = E.given('M', nk + (t,), lambda i, j, k, q: F((i * ny + j) * nz + k, q), kind=kind)

    def total(f, p):
        return E.sum(0, N, lambda a: E.ite(inv(a) == p, lambda: f(a), 0))
    if not E.sym:
        E.assume(all(p in inv.a for p in range(m)))
    r = kg.symmetrize_irrk(M.a)

    def mean(i, j, k, q):
        p = inv((i * ny + j) * nz + k)
        return total(lambda a: F(a, q), p) / total(lambda a: 1, p)
    E.eq('mean over the class', r, nk + (t,), mean)
    E.unchanged('frame', M)


GROUPS = {'two_dimensional_square_symmetries': ('x-inv', 'y-inv', 'x-y-sym'), 'two_dimensional_nematic_symmetries': ('x-inv', 'y-inv'),
          'quasi_two_dimensional_square_symmetries': ('x-inv', 'y-inv', 'z-inv', 'x-y-sym'),
          'quasi_one_dimensional_square_symmetries': ('x-inv', 'y-inv'), 'simultaneous_x_y_inversion': ('x-y-inv',)}


@contract('C07', [f'{BZ}.{n}' for n in GROUPS], sym=False, reps=60, bounded='five named lists, the momenta of small grids')
def named_symmetry_lists(E):
    """a named list relates no momenta which the symmetries of that name do not relate"""
    bz = E.mod(BZ)
    name = E.choice('name', list(GROUPS))
    syms = list(getattr(bz, name)())
    E.true('known symmetries', set(syms) <= set(bz.KNOWN_SYMMETRIES))
    n = E.int('n', lo=3, cmax=6)
    nk = (n, n, E.int('nz', lo=1, cmax=5))
    kg = bz.KGrid(nk, syms)
    again = getattr(bz, name)()
    E.true('the same list for every grid', list(again) == syms)
    import numpy as np
    ks = list(np.ndindex(*nk))
    inv, ind = np.ravel(kg.irrk_inv), np.ravel(kg.irrk_ind)
    for a, k in enumerate(ks):
        E.true('images under the named symmetries', ks[ind[inv[a]]] in orbit(k, nk, GROUPS[name]), f'{name} {nk} {k}')


@contract('C07', [f'{BZ}.KGrid.set_irrk_maps', f'{BZ}.KGrid.map_irrk2fbz', f'{BZ}.KGrid.map_fbz2irrk', f'{BZ}.KGrid.k_mean'], reps=60)
def labels_decide_what_is_merged(E):
    """for any labels of the zone: a momentum is represented by one with its label, quantities that only depend on the label survive the reduction,
    weights and averages count every momentum once"""
    bz = E.mod(BZ)
    nk = nk3(E, 4)
    nx, ny, nz = nk
    N, R = nx * ny * nz, E.int('R', lo=1, cmax=6)
    t = E.int('t', lo=1, cmax=3)
    kg = bare(E, bz, nk)
    L = E.array('L', (N,), kind='i', lo=0, hi=R)
    F = E.given('F', nk, lambda i, j, k: L((i * ny + j) * nz + k), kind='i')
    kg.fbz2irrk = F.a
    kg.set_irrk_maps()
    inv, ind, cnt = kg.irrk_inv, kg.irrk_ind, kg.irrk_count
    m = ind.shape[0]
    E.eq('represented by a momentum with the same label', L.a[ind[inv]], (N,), lambda k: L(k))
    E.eq('a representative represents itself', inv[ind], (m,), lambda i: i)
    E.scalar('multiplicities', E.sum(0, m, lambda i: E.get(cnt, i)), N)
    Q = E.array('Q', (R, t))
    q = E.given('q', (N, t), lambda k, c: Q(L(k), c))
    red = kg.map_fbz2irrk(q.a, shape='list')
    E.eq('restrict and map back (list)', kg.map_irrk2fbz(red, shape='list'), (N, t), lambda k, c: Q(L(k), c))
    E.eq('weighted average', kg.k_mean(red), (t,), lambda c: E.sum(0, N, lambda k: Q(L(k), c)) / (nx * ny * nz))
    M = E.given('M', nk + (t,), lambda i, j, k, c: Q(L((i * ny + j) * nz + k), c))
    redm = kg.map_fbz2irrk(M.a)
    E.eq('restrict and map back', kg.map_irrk2fbz(redm), nk + (t,), lambda i, j, k, c: Q(L((i * ny + j) * nz + k), c))
    E.eq('same restriction', redm, (m, t), lambda i, c: E.get(red, i, c))


@contract('C07', [f'{BZ}.KGrid.__init__', f'{BZ}.KGrid.set_fbz2irrk', f'{BZ}.KGrid.set_irrk_maps', f'{BZ}.KGrid.set_irrk_mesh', f'{BZ}.KGrid.set_k_axes',
                  f'{BZ}.KGrid.nk_irr', f'{BZ}.apply_symmetries'], reps=60)
def grid_with_named_symmetries(E):
    """the constructed grid: labels of its symmetries, merged by label (labels_decide_what_is_merged), momenta of the representatives"""
    bz = E.mod(BZ)
    name = E.choice('name', NAMED)
    n, nz = E.int('nx', lo=1, cmax=6), E.int('nz', lo=1, cmax=4)
    ny = n if 'square' in name and 'one' not in name else E.int('ny', lo=1, cmax=6)
    nk = (n, ny, nz)
    syms = list(getattr(bz, name)())
    kg = bz.KGrid(nk, syms)
    m, spec = kg.nk_irr, image(E, syms, nk)
    E.true('symmetries', list(kg.symmetries) == syms)
    for c, k in enumerate((kg.kx, kg.ky, kg.kz)):
        E.eq(f'momenta {c}', k, (nk[c],), lambda i: 2 * E.pi * i / nk[c])
    E.eq('label of an image', kg.fbz2irrk, nk, spec)
    E.eq('a representative represents itself', kg.irrk_inv[kg.irrk_ind], (m,), lambda i: i)
    E.scalar('multiplicities', E.sum(0, m, lambda i: E.get(kg.irrk_count, i)), n * ny * nz)
    E.eq('irreducible momenta', kg.irr_kmesh, (3, m), lambda c, i: E.get(kg.kmesh_list, c, E.get(kg.irrk_ind, i)))
