"""C01 Matsubara grids enumerate exactly the right frequencies."""
from engine.reg import contract

MF = 'matsubara_frequencies'


@contract('C01', [f'{MF}.vn'])
def vn_count(E):
    mf = E.mod(MF)
    n, s = E.int('n', lo=0), E.int('s', lo=None)
    E.eq('full grid', mf.vn(n), (2 * n,), lambda i: i - n)
    E.eq('full shifted grid', mf.vn(n, shift=s), (2 * n,), lambda i: i - n + s)
    E.eq('positive grid', mf.vn(n, pos=True), (n,), lambda i: i)
    E.eq('positive shifted grid', mf.vn(n, shift=s, pos=True), (n,), lambda i: i + s)


@contract('C01', [f'{MF}.vn_beta'])
def vn_energy(E):
    mf = E.mod(MF)
    n, s = E.int('n', lo=0), E.int('s', lo=None)
    beta = E.real('beta', pos=True)
    E.eq('full', mf.vn(beta, n), (2 * n,), lambda i: (2 * (i - n) + 1) * E.pi / beta)
    E.eq('shifted', mf.vn(beta, n, shift=s), (2 * n,), lambda i: (2 * (i - n + s) + 1) * E.pi / beta)
    E.eq('positive', mf.vn(beta, n, shift=s, pos=True), (n,), lambda i: (2 * (i + s) + 1) * E.pi / beta)
    E.eq('direct call', mf.vn_beta(beta, n, shift=s), (2 * n,), lambda i: (2 * (i - n + s) + 1) * E.pi / beta)


@contract('C01', [f'{MF}.wn'])
def wn_count(E):
    mf = E.mod(MF)
    n, s = E.int('n', lo=0), E.int('s', lo=None)
    E.eq('full grid', mf.wn(n), (2 * n + 1,), lambda i: i - n)
    E.eq('full shifted grid', mf.wn(n, shift=s), (2 * n + 1,), lambda i: i - n + s)
    E.eq('non-negative grid', mf.wn(n, pos=True), (n + 1,), lambda i: i)
    E.eq('non-negative shifted grid', mf.wn(n, shift=s, pos=True), (n + 1,), lambda i: i + s)


@contract('C01', [f'{MF}.wn_beta'])
def wn_energy(E):
    mf = E.mod(MF)
    n, s = E.int('n', lo=0), E.int('s', lo=None)
    beta = E.real('beta', pos=True)
    E.eq('full', mf.wn(beta, n), (2 * n + 1,), lambda i: 2 * (i - n) * E.pi / beta)
    E.eq('shifted', mf.wn(beta, n, shift=s), (2 * n + 1,), lambda i: 2 * (i - n + s) * E.pi / beta)
    E.eq('positive', mf.wn(beta, n, shift=s, pos=True), (n + 1,), lambda i: 2 * (i + s) * E.pi / beta)


@contract('C01', [f'{MF}.vn', f'{MF}.wn'])
def symmetry_about_zero(E):
    mf = E.mod(MF)
    n = E.int('n', lo=1)
    v, w = mf.vn(n), mf.wn(n)
    E.eq('vn(-n-1) = -vn(n) - 1', v, (2 * n,), lambda i: -E.get(v, 2 * n - 1 - i) - 1)
    E.eq('wn odd', w, (2 * n + 1,), lambda i: -E.get(w, 2 * n - i))
    beta = E.real('beta', pos=True)
    vb = mf.vn(beta, n)
    E.eq('energies odd', vb, (2 * n,), lambda i: -E.get(vb, 2 * n - 1 - i))


def _mat(E, full, bos):
    """an array of rank 1..3 with a frequency axis of n (full or half range) at a chosen position"""
    rank, ax = E.choice('layout', [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 2)])
    n = E.int('n', lo=0 if bos else 1)
    d = (2 * n + 1 if full else n + 1) if bos else (2 * n if full else n)
    sh = [E.int(f'd{k}', lo=1, cmax=7) for k in range(rank)]
    sh[ax] = d
    axis = ax if E.choice('neg', [False, True]) is False else ax - rank
    return E.array('M', tuple(sh)), n, axis


@contract('C01', [f'{MF}.vn_from_mat', f'{MF}.vn_beta_form_mat', f'{MF}.niv_from_mat'], reps=60)
def vn_of_array(E):
    mf = E.mod(MF)
    pos = E.choice('pos', [False, True])
    M, n, axis = _mat(E, not pos, False)
    s = E.int('s', lo=None)
    beta = E.real('beta', pos=True)
    N = n if pos else 2 * n
    o = 0 if pos else -n
    E.true('number of frequencies', mf.niv_from_mat(M.a, axis=axis, pos=pos) == n)
    E.eq('grid of array', mf.vn(M.a, axis=axis, pos=pos), (N,), lambda i: i + o)
    E.eq('shifted grid of array', mf.vn(M.a, axis=axis, shift=s, pos=pos), (N,), lambda i: i + o + s)
    E.eq('energies of array', mf.vn(beta, M.a, axis=axis, shift=s, pos=pos), (N,),
         lambda i: (2 * (i + o + s) + 1) * E.pi / beta)
    E.unchanged('frame', M)


@contract('C01', [f'{MF}.wn_from_mat', f'{MF}.wn_beta_from_mat', f'{MF}.niw_from_mat'], reps=60)
def wn_of_array(E):
    mf = E.mod(MF)
    pos = E.choice('pos', [False, True])
    M, n, axis = _mat(E, not pos, True)
    s = E.int('s', lo=None)
    beta = E.real('beta', pos=True)
    N = n + 1 if pos else 2 * n + 1
    o = 0 if pos else -n
    E.true('number of frequencies', mf.niw_from_mat(M.a, axis=axis, pos=pos) == n)
    E.eq('grid of array', mf.wn(M.a, axis=axis, pos=pos), (N,), lambda i: i + o)
    E.eq('shifted grid of array', mf.wn(M.a, axis=axis, shift=s, pos=pos), (N,), lambda i: i + o + s)
    E.eq('energies of array', mf.wn(beta, M.a, axis=axis, shift=s, pos=pos), (N,), lambda i: 2 * (i + o + s) * E.pi / beta)
    E.unchanged('frame', M)


@contract('C01', [f'{MF}.vn', f'{MF}.wn'])
def default_axis(E):
    """without an axis fermionic grids use the last axis, bosonic ones the first"""
    mf = E.mod(MF)
    n, m = E.int('n', lo=1), E.int('m', lo=0)
    M = E.array('M', (2 * m + 1, 2 * n))
    E.eq('vn last axis', mf.vn(M.a), (2 * n,), lambda i: i - n)
    E.eq('wn first axis', mf.wn(M.a), (2 * m + 1,), lambda i: i - m)


@contract('C01', [f'{MF}.cen2lin', f'{MF}.wn_cen2lin'])
def centered_to_linear(E):
    mf = E.mod(MF)
    w, niw, st = E.int('w', lo=None), E.int('niw', lo=0), E.int('st', lo=None)
    grid = mf.wn(niw)
    E.true('cen2lin', mf.cen2lin(w, st) == w - st)
    E.assume(w <= niw)
    E.assume(w >= -niw)
    E.true('index', mf.wn_cen2lin(w, niw) == w + niw)
    E.true('position in grid', E.get(grid, mf.wn_cen2lin(w, niw)) == w)


TRUSTED = ['multimethod (dispatch executed as is)']
