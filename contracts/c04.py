"""C04 frequency shifts and channel rotations pick the right frequency argument."""
from engine.reg import contract

MF = 'matsubara_frequencies'


def _lead(E, k, hi=3):
    return tuple(E.int(f'd{i}', lo=1, cmax=hi) for i in range(k))


@contract('C04', [f'{MF}.get_freq_shift'], reps=60)
def freq_shift_notation(E):
    mf = E.mod(MF)
    w = E.int('w', lo=None)
    s1, s2 = mf.get_freq_shift(w, 'plus')
    E.true('plus', (s1 == 0) & (s2 == w))
    s1, s2 = mf.get_freq_shift(w, 'minus')
    E.true('minus', (s1 == 0) & (s2 == -w))
    s1, s2 = mf.get_freq_shift(w, 'center')
    E.true('center: difference is omega', s1 - s2 == w)
    E.true('center: balanced', ((s1 + s2) == 0) | ((s1 + s2) == -1))
    E.raises('unknown notation', NotImplementedError, lambda: mf.get_freq_shift(w, 'centre'))


@contract('C04', [f'{MF}.wn_slices_gen'], reps=60)
def windows_of_shifted_argument(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 2, 3])
    n, c, m, s = E.int('n', lo=1, cmax=12), E.int('c', lo=1, cmax=4), E.int('m', lo=1, cmax=5), E.int('s', lo=None)
    E.assume(s - c >= -n)
    E.assume(s + m - 1 + c <= n)
    sh = _lead(E, lead)
    A = E.array('A', sh + (2 * n,))
    w = E.given('w', (m,), lambda i: s + i, kind='i')
    r = mf.wn_slices_gen(A.a, n_cut=c, w=w.a)
    E.eq('value at nu - omega', r, (m,) + sh + (2 * c,), lambda iw, *ix: A(*ix[:-1], n - c + ix[-1] - (s + iw)))
    E.unchanged('frame', A, w)


@contract('C04', [f'{MF}.wn_slices_gen', f'{MF}.wn'], reps=40)
def windows_for_full_bosonic_grid(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 2])
    nw, c, x = E.int('nw', lo=0, cmax=5), E.int('c', lo=1, cmax=4), E.int('x', lo=0, cmax=4)
    n = nw + c + x
    sh = _lead(E, lead)
    A = E.array('A', sh + (2 * n,))
    r = mf.wn_slices_gen(A.a, n_cut=c, w=mf.wn(nw))
    E.eq('value at nu - omega', r, (2 * nw + 1,) + sh + (2 * c,), lambda iw, *ix: A(*ix[:-1], n - c + ix[-1] - (iw - nw)))


@contract('C04', [f'{MF}.wn_slices_shell'], reps=60)
def shell_windows_of_shifted_argument(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 2])
    c, h, x, m, s = E.int('c', lo=0, cmax=4), E.int('h', lo=0, cmax=4), E.int('x', lo=0, cmax=6), E.int('m', lo=1, cmax=5), E.int('s', lo=None)
    n = c + h + x
    E.assume(s - c - h >= -n)
    E.assume(s + m - 1 + c + h <= n)
    sh = _lead(E, lead)
    A = E.array('A', sh + (2 * n,))
    w = E.given('w', (m,), lambda i: s + i, kind='i')
    r = mf.wn_slices_shell(A.a, n_shell=h, n_core=c, w=w.a)

    def spec(iw, *ix):
        i = ix[-1]
        v = E.ite(i < h, i - c - h, i - h + c)      # frequency label outside the core
        return A(*ix[:-1], n + v - (s + iw))
    E.eq('value at nu - omega', r, (m,) + sh + (2 * h,), spec)
    E.unchanged('frame', A, w)


@contract('C04', [f'{MF}.cut_iv_with_iw_shift_1d', f'{MF}.cut_iv_with_iw_shift'], reps=80)
def shifted_cut(E):
    mf = E.mod(MF)
    rank, axes = E.choice('layout', [(1, (0,)), (2, (-1,)), (2, (0,)), (2, (0, 1)), (3, (-1, -2)), (4, (-1,)), (4, (3,))])
    n, w = E.int('n', lo=1, cmax=8), E.int('w', lo=None)
    c = E.choice('cut', ['given', 'default'])
    aw = E.abs(w)
    if c == 'default':
        E.assume(aw < n)
        k, arg = n - aw, -1
    else:
        k = E.int('k', lo=1)
        E.assume(k + aw <= n)
        arg = k
    sh = list(_lead(E, rank))
    full = [a % rank for a in axes]
    for a in full:
        sh[a] = 2 * n
    out = list(sh)
    for a in full:
        out[a] = 2 * k
    A = E.array('A', tuple(sh))
    r = mf.cut_iv_with_iw_shift(A.a, niv_cut=arg, iwn=w, axes=axes)
    if rank == 1:
        r1 = mf.cut_iv_with_iw_shift_1d(A.a, niv_cut=arg, iwn=w)
        E.eq('1d value at nu - omega', r1, tuple(out), lambda i: A(n - k + i - w))
    E.eq('value at nu - omega', r, tuple(out), lambda *ix: A(*[n - k + i - w if q in full else i for q, i in enumerate(ix)]))
    E.unchanged('frame', A)


@contract('C04', [f'{MF}.wn_slices_gen', f'{MF}.cut_iv_with_iw_shift'], reps=30)
def two_window_routes_agree(E):
    mf = E.mod(MF)
    n, c, w = E.int('n', lo=1, cmax=8), E.int('c', lo=1, cmax=4), E.int('w', lo=None)
    E.assume(c + E.abs(w) <= n)
    d = E.int('d', lo=1, cmax=3)
    A = E.array('A', (d, 2 * n))
    wl = E.given('w', (1,), lambda i: w, kind='i')
    a = mf.wn_slices_gen(A.a, c, wl.a)
    b = mf.cut_iv_with_iw_shift(A.a, c, w)
    E.eq('gen = cut', a[0], (d, 2 * c), lambda i, j: E.get(b, i, j))


@contract('C04', [f'{MF}.w_to_vmvp'], reps=40)
def omega_to_nu_minus_nup(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 2])
    nw = E.int('nw', lo=0, cmax=9)
    sh = _lead(E, lead)
    A = E.array('A', (2 * nw + 1,) + sh)
    nv = nw // 2
    r = mf.w_to_vmvp(A.a)
    E.eq('element (v,vp) is at omega = v - vp', r, (2 * nv, 2 * nv) + sh, lambda i, j, *ix: A(nw + i - j, *ix))
    E.unchanged('frame', A)


def _box(E, lead, wmax=9, vmax=7):
    nw, nv = E.int('nw', lo=0, cmax=wmax), E.int('nv', lo=1, cmax=vmax)
    sh = _lead(E, lead)
    return nw, nv, sh, E.array('A', sh + (2 * nw + 1, 2 * nv, 2 * nv))


@contract('C04', [f'{MF}.ph2pp_iwn'], reps=60)
def ph_to_pp_one_frequency(E):
    mf = E.mod(MF)
    nw, nv, sh, A = _box(E, E.choice('rank', [0, 1, 3]), 14, 9)
    npp = E.min(nw // 3, nv // 3)
    w = E.int('w', lo=None)
    E.assume(2 * npp + E.abs(w) <= nw)
    r = mf.ph2pp_iwn(A.a, w)
    E.eq('F(v+vp-w, v, vp)', r, sh + (2 * npp, 2 * npp),
         lambda *ix: A(*ix[:-2], nw + (ix[-2] - npp) + (ix[-1] - npp) + 1 - w, nv + ix[-2] - npp, nv + ix[-1] - npp))
    E.unchanged('frame', A)


@contract('C04', [f'{MF}.ph2pp'], reps=50)
def ph_to_pp(E):
    mf = E.mod(MF)
    nw, nv, sh, A = _box(E, E.choice('rank', [0, 1]), 14, 9)
    npp, nwp = E.min(nw // 3, nv // 3), (2 * nw + 1) // 6
    r = mf.ph2pp(A.a)
    E.eq('F(v+vp-w, v, vp)', r, (2 * nwp + 1,) + sh + (2 * npp, 2 * npp),
         lambda iw, *ix: A(*ix[:-2], nw + (ix[-2] - npp) + (ix[-1] - npp) + 1 - (iw - nwp), nv + ix[-2] - npp, nv + ix[-1] - npp))


@contract('C04', [f'{MF}.ph2pp_iwn_wc'], reps=60)
def ph_to_pp_crossed_one_frequency(E):
    mf = E.mod(MF)
    nw, nv, sh, A = _box(E, E.choice('rank', [0, 1, 3]))
    npp = E.min(nw // 2, nv // 2)
    w = E.int('w', lo=None)
    E.assume(npp + E.abs(w) <= nv)
    r = mf.ph2pp_iwn_wc(A.a, w)
    E.eq('-F(v-vp, v, w-vp)', r, sh + (2 * npp, 2 * npp),
         lambda *ix: -A(*ix[:-2], nw + ix[-2] - ix[-1], nv + ix[-2] - npp, nv + w - (ix[-1] - npp) - 1))
    E.unchanged('frame', A)


def _crossed(A, nw, nv, npp, w, ix):
    return -A(*ix[:-2], nw + ix[-2] - ix[-1], nv + ix[-2] - npp, nv + w - (ix[-1] - npp) - 1)


@contract('C04', [f'{MF}.ph2pp_wc'], reps=60)
def ph_to_pp_crossed(E):
    """every stored box, also with more bosonic than fermionic frequencies: nothing is read outside of it"""
    mf = E.mod(MF)
    nw, nv, sh, A = _box(E, E.choice('rank', [0, 1]))
    npp = E.min(nw // 2, nv // 2)
    r = mf.ph2pp_wc(A.a)
    nwp = E.shape(r)[0] // 2
    E.true('number of frequencies that fit in the box', (nwp <= nw // 2) & (npp + nwp <= nv) & ((nwp == nw // 2) | (nv < nw)))
    E.eq('-F(v-vp, v, w-vp)', r, (2 * nwp + 1,) + sh + (2 * npp, 2 * npp), lambda iw, *ix: _crossed(A, nw, nv, npp, iw - nwp, ix))


@contract('C04', [f'{MF}.ph2pp_wc_md'], reps=40)
def ph_to_pp_crossed_spin_components(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1])
    nw, nv = E.int('nw', lo=0, cmax=7), E.int('nv', lo=1, cmax=7)
    E.assume(nw <= nv)
    sh = _lead(E, lead)
    D, M = E.array('D', sh + (2 * nw + 1, 2 * nv, 2 * nv)), E.array('M', sh + (2 * nw + 1, 2 * nv, 2 * nv))
    npp, nwp = E.min(nw // 2, nv // 2), nw // 2
    a, b = mf.ph2pp_wc_md(D.a, M.a)
    out = (2 * nwp + 1,) + sh + (2 * npp, 2 * npp)
    E.eq('d/2 + 3m/2', a, out, lambda iw, *ix: (_crossed(D, nw, nv, npp, iw - nwp, ix) + 3 * _crossed(M, nw, nv, npp, iw - nwp, ix)) / 2)
    E.eq('d/2 - m/2', b, out, lambda iw, *ix: (_crossed(D, nw, nv, npp, iw - nwp, ix) - _crossed(M, nw, nv, npp, iw - nwp, ix)) / 2)


@contract('C04', ['optics.get_vmw_v_slice'], reps=60)
def optics_vertex_slice(E):
    op = E.mod('optics')
    c, x, m = E.int('c', lo=1, cmax=4), E.int('x', lo=0, cmax=4), E.int('m', lo=1, cmax=5)
    s = E.int('s', lo=None)
    n = c + x
    E.assume(s >= -x)
    E.assume(s + m - 1 <= x)
    A = E.array('A', (2 * n, 2 * n))
    w = E.given('w', (m,), lambda i: s + i, kind='i')
    r = op.get_vmw_v_slice(A.a, w.a, c)
    E.eq('F(v, v - w)', r, (m, 2 * c), lambda i, k: A(n - c + k, n - c + k - (s + i)))
    E.unchanged('frame', A)


@contract('C04', ['pairing_vertex.reshape_chi'], reps=40)
def pairing_susceptibility_argument(E):
    pv = E.mod('pairing_vertex')
    npp, x = E.int('npp', lo=1, cmax=4), E.int('x', lo=0, cmax=4)
    nw = 2 * npp - 1 + x
    sh = _lead(E, 3)
    A = E.array('A', sh + (2 * nw + 1,))
    r = pv.reshape_chi(A.a, npp)
    E.eq('chi(v - vp)', r, sh + (2 * npp, 2 * npp), lambda a, b, c, i, j: A(a, b, c, nw + i - j))
    E.unchanged('frame', A)


@contract('C04', ['pairing_vertex.get_omega_condition'], reps=20)
def pairing_omega_condition(E):
    pv = E.mod('pairing_vertex')
    npp = E.int('npp', lo=1, cmax=6)
    E.eq('v - vp', pv.get_omega_condition(npp), (2 * npp, 2 * npp), lambda i, j: i - j)


@contract('C04', ['pairing_vertex.get_pp_slice_4pt', 'pairing_vertex.get_omega_condition'], reps=80)
def pairing_slice_covers_all_pairs(E):
    """the slice of each bosonic frequency, written back through its condition, gives -F(v-vp, v, -vp) exactly where v-vp = w"""
    pv = E.mod('pairing_vertex')
    npp, x, w = E.int('npp', lo=1, cmax=5), E.int('x', lo=0, cmax=4), E.int('w', lo=None)
    nv = npp + x
    A = E.array('A', (2 * nv, 2 * nv))
    om = pv.get_omega_condition(niv_pp=npp)
    f = E.np.zeros((2 * npp, 2 * npp), dtype=complex)
    f[om == w] = pv.get_pp_slice_4pt(A.a, om == w, npp)
    E.eq('-F(v-vp, v, -vp)', f, (2 * npp, 2 * npp),
         lambda i, j: E.ite(i - j == w, lambda: -A(nv + i - npp, nv - (j - npp) - 1), 0))
    E.unchanged('frame', A)


@contract('C04', [f'{MF}.vn_centered_sum_wn', f'{MF}.vn_centered_sum'], reps=50)
def centred_fermionic_window_sum(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1])
    kind = E.choice('window', ['all', 'window'])
    n, m, s = E.int('n', lo=1, cmax=7), E.int('m', lo=1, cmax=5), E.int('s', lo=None)
    beta = E.real('beta', pos=True)
    if kind == 'window':
        c = E.int('c', lo=1)
        E.assume(s // 2 - c >= -n)
        E.assume((s + m - 1) // 2 + c <= n)
    sh = _lead(E, lead)
    A = E.array('A', sh + (m, 2 * n, 2 * n))
    w = E.given('w', (m,), lambda i: s + i, kind='i')
    arg = -1 if kind == 'all' else c

    def spec(*ix):
        h = (s + ix[-1]) // 2
        lo, hi = (0, 2 * n) if kind == 'all' else (n - c + h, n + c + h)
        return E.sum(lo, hi, lambda a: E.sum(lo, hi, lambda b: A(*ix, a, b))) / beta ** 2
    r = mf.vn_centered_sum(A.a, w.a, beta, niv_sum=arg)
    E.eq('window centred at w//2', r, sh + (m,), spec)
    E.unchanged('frame', A)


@contract('C04', ['local_four_point.get_f_diag', f'{MF}.w_to_vmvp'], reps=40)
def full_vertex_from_susceptibilities(E):
    """the diagrams carried by the susceptibilities sit at omega = nu - nu'"""
    lf = E.mod('local_four_point')
    nw = E.int('nw', lo=0, cmax=9)
    D, M = E.array('D', (2 * nw + 1,)), E.array('M', (2 * nw + 1,))
    nv = nw // 2
    E.eq('density', lf.get_f_diag(D.a, M.a, channel='dens'), (2 * nv, 2 * nv), lambda i, j: D(nw + i - j) / 2 + 3 * M(nw + i - j) / 2)
    E.eq('magnetic', lf.get_f_diag(D.a, M.a, channel='magn'), (2 * nv, 2 * nv), lambda i, j: D(nw + i - j) / 2 - M(nw + i - j) / 2)
    E.raises('other channels', NotImplementedError, lambda: lf.get_f_diag(D.a, M.a, channel='sing'))
    E.unchanged('frame', D, M)
