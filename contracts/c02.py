"""C02 cutting, extending and glueing frequency boxes keeps frequency labels."""
from engine.reg import contract

MF = 'matsubara_frequencies'


def _lead(E, k, hi=4):
    return tuple(E.int(f'd{i}', lo=1, cmax=hi) for i in range(k))


@contract('C02', [f'{MF}.cut_v', f'{MF}.cut_v_1d'], reps=80)
def cut_v_any_axes(E):
    mf = E.mod(MF)
    rank, axes = E.choice('layout', [(1, (0,)), (2, (0,)), (2, (-1,)), (2, (-1, -2)), (2, (0, 1)), (3, (1,)), (3, (-1, -2)), (3, (0,)),
                                     (4, (-2, -1)), (4, (3,))])
    n = [E.int(f'n{i}', lo=1, cmax=5) for i in range(len(axes))]
    cmax = n[0]
    for x in n[1:]:
        cmax = E.min(cmax, x)
    c = E.int('c', lo=1, hi=cmax)
    sh = list(_lead(E, rank))
    full = {a % rank: m for a, m in zip(axes, n)}
    for a, m in full.items():
        sh[a] = 2 * m
    A = E.array('A', tuple(sh))
    out = list(sh)
    for a in full:
        out[a] = 2 * c
    r = mf.cut_v(A.a, c, axes=axes)
    E.eq('same value at the same frequency', r, tuple(out),
         lambda *ix: A(*[i - c + full[k] if k in full else i for k, i in enumerate(ix)]))
    r = mf.cut_v(A.a, -1, axes=axes)
    E.eq('-1 keeps everything', r, tuple(sh), lambda *ix: A(*ix))
    E.unchanged('frame', A)


@contract('C02', [f'{MF}.cut_w', f'{MF}.cut_v_1d_wn'], reps=60)
def cut_w_any_axes(E):
    mf = E.mod(MF)
    rank, axes = E.choice('layout', [(1, (0,)), (2, (0,)), (2, (1,)), (3, (0,)), (3, (2,)), (3, (0, 1)), (2, (-1,)), (3, (-3,))])
    n = [E.int(f'n{i}', lo=0, cmax=5) for i in range(len(axes))]
    cmax = n[0]
    for x in n[1:]:
        cmax = E.min(cmax, x)
    c = E.int('c', lo=0, hi=cmax)
    sh = list(_lead(E, rank))
    full = {a % rank: m for a, m in zip(axes, n)}
    for a, m in full.items():
        sh[a] = 2 * m + 1
    A = E.array('A', tuple(sh))
    out = list(sh)
    for a in full:
        out[a] = 2 * c + 1
    r = mf.cut_w(A.a, c, axes=axes)
    E.eq('same value at the same frequency', r, tuple(out),
         lambda *ix: A(*[i - c + full[k] if k in full else i for k, i in enumerate(ix)]))
    E.unchanged('frame', A)


@contract('C02', [f'{MF}.inv_cut_v', f'{MF}.inv_cut_v_1d'], reps=60)
def shell_outside_core(E):
    mf = E.mod(MF)
    rank, ax = E.choice('layout', [(1, 0), (2, 1), (2, 0), (2, -1), (3, -2), (3, 2)])
    core, shell, ext = E.int('core', lo=0), E.int('shell', lo=0), E.int('ext', lo=0, cmax=3)
    n = core + shell + ext
    E.assume(shell >= 1)
    sh = list(_lead(E, rank))
    a = ax % rank
    sh[a] = 2 * n
    A = E.array('A', tuple(sh))
    out = list(sh)
    out[a] = 2 * shell
    r = mf.inv_cut_v(A.a, niv_core=core, niv_shell=shell, axes=(ax,))
    # negative shell [-core-shell,-core) then positive shell [core, core+shell)
    E.eq('shell frequencies', r, tuple(out), lambda *ix: E.ite(
        ix[a] < shell, lambda: A(*[i + n - core - shell if k == a else i for k, i in enumerate(ix)]),
        lambda: A(*[i - shell + n + core if k == a else i for k, i in enumerate(ix)])))
    E.unchanged('frame', A)


@contract('C02', [f'{MF}.inv_cut_v_1d', f'{MF}.cut_v', f'{MF}.concatenate_core_asmypt'], reps=60)
def core_plus_shell_is_original(E):
    mf = E.mod(MF)
    core, shell = E.int('core', lo=1), E.int('shell', lo=1)
    lead = E.choice('rank', [0, 1, 2])
    sh = _lead(E, lead) + (2 * (core + shell),)
    A = E.array('A', sh)
    c = mf.cut_v(A.a, core, axes=(-1,))
    s = mf.inv_cut_v(A.a, niv_core=core, niv_shell=shell, axes=(-1,))
    r = mf.concatenate_core_asmypt(c, s)
    E.eq('core + shell = original', r, sh, lambda *ix: A(*ix))


@contract('C02', [f'{MF}.cut_v_1d_pos'])
def cut_positive_window(E):
    mf = E.mod(MF)
    n = E.int('n', lo=1)
    lo = E.int('lo', lo=0, hi=n)
    c = E.int('c', lo=0, hi=n - lo)
    A = E.array('A', (2 * n,))
    E.eq('positive window', mf.cut_v_1d_pos(A.a, c, lo), (c,), lambda i: A(n + lo + i))
    E.eq('all positive', mf.cut_v_1d_pos(A.a, -1), (n,), lambda i: A(n + i))


@contract('C02', [f'{MF}.clip_pos_mf_vn'])
def clip_positive(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 3])
    n = E.int('n', lo=1)
    sh = _lead(E, lead)
    A = E.array('A', sh + (2 * n,))
    E.eq('non-negative half', mf.clip_pos_mf_vn(A.a), sh + (n,), lambda *ix: A(*ix[:-1], ix[-1] + n))


@contract('C02', [f'{MF}.append_v_vp_shell', f'{MF}.cut_v'], reps=40)
def append_constant_shell(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 2])
    n, s = E.int('n', lo=1, cmax=4), E.int('s', lo=0, cmax=4)
    val = E.cplx('val')
    sh = _lead(E, lead)
    A = E.array('A', sh + (2 * n, 2 * n))
    r = mf.append_v_vp_shell(A.a, val, s)
    N = n + s

    def spec(*ix):
        i, j = ix[-2] - N, ix[-1] - N
        ok = (i >= -n) & (i < n) & (j >= -n) & (j < n)
        return E.ite(ok, lambda: A(*ix[:-2], i + n, j + n), val)
    E.eq('core kept, shell constant', r, sh + (2 * N, 2 * N), spec)
    back = mf.cut_v(r, n, axes=(-1, -2))
    E.eq('cutting undoes extending', back, sh + (2 * n, 2 * n), lambda *ix: A(*ix))
    E.unchanged('frame', A)


@contract('C02', [f'{MF}.concatenate_core_asmypt'], reps=40)
def glue_core_between_tails(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 2, 3])
    n, s = E.int('n', lo=0), E.int('s', lo=0)
    sh = _lead(E, lead)
    C, A = E.array('C', sh + (2 * n,)), E.array('A', sh + (2 * s,))
    r = mf.concatenate_core_asmypt(C.a, A.a)

    def spec(*ix):
        i = ix[-1]
        return E.ite(i < s, lambda: A(*ix[:-1], i),
                     lambda: E.ite(i < s + 2 * n, lambda: C(*ix[:-1], i - s), lambda: A(*ix[:-1], i - 2 * n)))
    E.eq('tails around core', r, sh + (2 * n + 2 * s,), spec)
    E.unchanged('frame', C, A)


@contract('C02', [f'{MF}.add_bosonic', f'{MF}.niw_from_mat'], reps=80)
def add_bosonic_same_frequency(E):
    mf = E.mod(MF)
    rank, ax = E.choice('layout', [(1, 0), (2, 0), (3, 0), (2, 1), (2, -1), (3, 1)])
    n, m = E.int('n', lo=0, cmax=5), E.int('m', lo=0, cmax=5)
    sh = list(_lead(E, rank))
    a = ax % rank
    s1, s2, so = list(sh), list(sh), list(sh)
    big = E.max(n, m)
    s1[a], s2[a], so[a] = 2 * n + 1, 2 * m + 1, 2 * big + 1
    A, B = E.array('A', tuple(s1), kind='r'), E.array('B', tuple(s2), kind='r')
    r = mf.add_bosonic(A.a, B.a, axis=ax)

    def at(X, k, ix):
        w = ix[a] - big
        return E.ite((w >= -k) & (w <= k), lambda: X(*[w + k if q == a else i for q, i in enumerate(ix)]), 0)
    E.eq('sum at equal frequency', r, tuple(so), lambda *ix: at(A, n, ix) + at(B, m, ix))
    E.unchanged('frame', A, B)


@contract('C02', [f'{MF}.mat_at_w0', f'{MF}.get_mat_at_iwn'], reps=60)
def select_bosonic_frequency(E):
    mf = E.mod(MF)
    rank, ax = E.choice('layout', [(1, 0), (2, 0), (2, 1), (3, 1), (3, -1)])
    pos = E.choice('pos', [False, True])
    n = E.int('n', lo=0)
    w = E.int('w', lo=None)
    E.assume(w <= n)
    E.assume(w >= (0 if pos else -n))
    sh = list(_lead(E, rank))
    a = ax % rank
    sh[a] = n + 1 if pos else 2 * n + 1
    A = E.array('A', tuple(sh))
    out = tuple(sh[:a] + sh[a + 1:])
    off = 0 if pos else n
    r0 = mf.mat_at_w0(A.a, pos=pos, axis=ax)
    r1 = mf.get_mat_at_iwn(A.a, w, pos=pos, axis=ax)
    if rank == 1:
        E.scalar('zeroth frequency', r0, A(off))
        E.scalar('iwn frequency', r1, A(off + w))
    else:
        E.eq('zeroth frequency', r0, out, lambda *ix: A(*ix[:a], off, *ix[a:]))
        E.eq('iwn frequency', r1, out, lambda *ix: A(*ix[:a], off + w, *ix[a:]))


@contract('C02', [f'{MF}.wn_sum'], reps=40)
def bosonic_window_sum(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 2])
    n = E.int('n', lo=0)
    c = E.int('c', lo=0, hi=n)
    beta = E.real('beta', pos=True)
    sh = _lead(E, lead)
    A = E.array('A', (2 * n + 1,) + sh)
    r = mf.wn_sum(A.a, beta, c)
    ra = mf.wn_sum(A.a, beta)
    if lead == 0:
        E.scalar('window sum', r, E.sum(-c, c + 1, lambda w: A(n + w)) / beta)
        E.scalar('full sum', ra, E.sum(-n, n + 1, lambda w: A(n + w)) / beta)
    else:
        E.eq('window sum', r, sh, lambda *ix: E.sum(-c, c + 1, lambda w: A(n + w, *ix)) / beta)
        E.eq('full sum', ra, sh, lambda *ix: E.sum(-n, n + 1, lambda w: A(n + w, *ix)) / beta)
    E.unchanged('frame', A)


@contract('C02', [f'{MF}.vn_centered_sum_wn'], reps=40)
def fermionic_window_sum(E):
    """window of 2*niv_sum frequencies centred at iwn//2 in both fermionic arguments"""
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1])
    n, w = E.int('n', lo=1, cmax=6), E.int('w', lo=None)
    c = E.int('c', lo=1, cmax=4)
    s = w // 2
    E.assume(c + s <= n)
    E.assume(s - c >= -n)
    beta = E.real('beta', pos=True)
    sh = _lead(E, lead)
    A = E.array('A', sh + (2 * n, 2 * n))

    def spec(*ix):
        return E.sum(s - c, s + c, lambda i: E.sum(s - c, s + c, lambda j: A(*ix, n + i, n + j))) / beta ** 2
    r = mf.vn_centered_sum_wn(A.a, beta, iwn=w, niv_sum=c)
    ra = mf.vn_centered_sum_wn(A.a, beta)

    def speca(*ix):
        return E.sum(0, 2 * n, lambda i: E.sum(0, 2 * n, lambda j: A(*ix, i, j))) / beta ** 2
    if lead == 0:
        E.scalar('window', r, spec())
        E.scalar('full', ra, speca())
    else:
        E.eq('window', r, sh, spec)
        E.eq('full', ra, sh, speca)


@contract('C02', [f'{MF}.vn_centered_sum'], reps=30)
def fermionic_window_sum_all_w(E):
    mf = E.mod(MF)
    m, c = E.int('m', lo=0, cmax=4), E.int('c', lo=1, cmax=3)
    ext = E.int('ext', lo=1, cmax=3)
    n = c + m + ext
    lead = E.choice('rank', [0, 1])
    sh = _lead(E, lead)
    beta = E.real('beta', pos=True)
    kind = E.choice('kind', ['c', 'f', 'i'])
    A = E.array('A', sh + (2 * m + 1, 2 * n, 2 * n), kind=kind, lo=-5, hi=5) if kind == 'i' else E.array('A', sh + (2 * m + 1, 2 * n, 2 * n), kind=kind)
    w = mf.wn(m)
    r = mf.vn_centered_sum(A.a, w, beta, niv_sum=c)
    E.eq('per frequency window', r, sh + (2 * m + 1,), lambda *ix: E.sum(-c, c, lambda i: E.sum(
        -c, c, lambda j: A(*ix, n + (ix[-1] - m) // 2 + i, n + (ix[-1] - m) // 2 + j))) / beta ** 2)


L4 = 'local_four_point'


@contract('C02', [f'{L4}.LocalNPoint.__init__', f'{L4}.LocalNPoint.cut_iw', f'{L4}.LocalNPoint.wn', f'{L4}.LocalNPoint.wn_lin', f'{L4}.LocalNPoint.niv',
                  f'{L4}.LocalNPoint.vn', f'{L4}.LocalNPoint.size', f'{L4}.LocalFourPoint.__init__', f'{L4}.LocalFourPoint.cut_iv',
                  f'{L4}.LocalFourPoint.append_shell', f'{L4}.LocalFourPoint.symmetrize_v_vp', f'{L4}.LocalThreePoint.__init__'], reps=60)
def boxes_of_vertex_objects(E):
    """cutting and extending the vertex objects keeps every value at the frequency the object reports for it"""
    lf = E.mod(L4)
    nw, nv = E.int('nw', lo=0, cmax=4), E.int('nv', lo=1, cmax=5)
    beta, u, val = E.real('beta', pos=True), E.real('u'), E.cplx('val')
    ch = E.choice('channel', ['dens', 'magn', 'trip', 'sing', 'updo', 'upup'])
    W, V = 2 * nw + 1, 2 * nv
    A = E.array('A', (W, V, V))
    B = E.array('B', (W, V))
    f4, f3 = lf.LocalFourPoint(ch, A.a, beta, u, is_full_w=True), lf.LocalThreePoint(ch, B.a, beta, u, is_full_w=True)
    for o, nm in ((f4, '4'), (f3, '3')):
        E.eq('bosonic grid ' + nm, o.wn, (W,), lambda i: i - nw)
        E.eq('bosonic positions ' + nm, o.wn_lin, (W,), lambda i: i)
        E.eq('fermionic grid ' + nm, o.vn, (V,), lambda i: i - nv)
        E.true('fermionic frequencies ' + nm, o.niv == nv)
    cw, cv, s = E.int('cw', lo=0, cmax=4), E.int('cv', lo=1, cmax=5), E.int('s', lo=0, cmax=3)
    E.assume(cw <= nw)
    E.assume(cv <= nv)
    f4.cut_iw(cw)
    f3.cut_iw(cw)
    E.eq('bosonic cut', f4.mat, (2 * cw + 1, V, V), lambda w, i, j: A(w - cw + nw, i, j))
    E.eq('bosonic cut of three legs', f3.mat, (2 * cw + 1, V), lambda w, i: B(w - cw + nw, i))
    E.eq('bosonic grid after the cut', f4.wn, (2 * cw + 1,), lambda i: i - cw)
    f4.cut_iv(cv)
    E.eq('fermionic cut', f4.mat, (2 * cw + 1, 2 * cv, 2 * cv), lambda w, i, j: A(w - cw + nw, i - cv + nv, j - cv + nv))
    E.eq('fermionic grid after the cut', f4.vn, (2 * cv,), lambda i: i - cv)
    f4.append_shell(val, s)
    n = cv + s

    def spec(w, i, j):
        a, b = i - n, j - n
        return E.ite((a >= -cv) & (a < cv) & (b >= -cv) & (b < cv), lambda: A(w - cw + nw, a + nv, b + nv), val)
    E.eq('shell', f4.mat, (2 * cw + 1, 2 * n, 2 * n), spec)
    f4.symmetrize_v_vp()
    E.eq('symmetrised', f4.mat, (2 * cw + 1, 2 * n, 2 * n), lambda w, i, j: (spec(w, i, j) + spec(w, j, i)) / 2)
    E.raises('no shell for three legs', NotImplementedError, lambda: f3.append_shell(val, s))
    E.unchanged('frame', A, B)


@contract('C02', [f'{L4}.LocalNPoint.__init__', f'{L4}.LocalNPoint.wn', f'{L4}.LocalNPoint.u_r', f'{L4}.construct_lfp_from_lnp',
                  f'{L4}.construct_ltp_from_lnp'], reps=60)
def objects_on_selected_frequencies(E):
    """an object built from another one keeps its frequencies, channel and parameters"""
    lf = E.mod(L4)
    full = E.choice('full', [True, False])
    nw, nv, m = E.int('nw', lo=0, cmax=4), E.int('nv', lo=1, cmax=5), E.int('m', lo=1, cmax=5)
    beta, u = E.real('beta', pos=True), E.real('u')
    ch = E.choice('channel', ['dens', 'magn', 'trip', 'sing', 'updo', 'upup'])
    W = 2 * nw + 1
    A, B = E.array('A', (W, 2 * nv, 2 * nv)), E.array('B', (W, 2 * m, 2 * m))
    T = E.array('T', (W, 2 * m))
    wn = E.array('wn', (W,), kind='i')
    f = lf.LocalFourPoint(ch, A.a, beta, u, is_full_w=True) if full else lf.LocalFourPoint(ch, A.a, beta, u, wn=wn.a)
    t = lf.LocalThreePoint(ch, T.a, beta, u, is_full_w=True) if full else lf.LocalThreePoint(ch, T.a, beta, u, wn=wn.a)
    spec = (lambda i: i - nw) if full else (lambda i: wn(i))
    for k, (nm, src) in enumerate((('four', f), ('three', t))):
        a, b = lf.construct_lfp_from_lnp(src, B.a), lf.construct_ltp_from_lnp(src, T.a)
        for o, x, sh in ((a, B, (W, 2 * m, 2 * m)), (b, T, (W, 2 * m))):
            E.eq(f'contents from {nm} {len(sh)}', o.mat, sh, lambda *ix, x=x: x(*ix))
            E.eq(f'frequencies from {nm} {len(sh)}', o.wn, (W,), spec)
            E.true(f'channel from {nm} {len(sh)}', o.channel == ch and o.is_full_w == full)
            E.scalar(f'beta from {nm} {len(sh)}', o.beta, beta)
            E.scalar(f'u from {nm} {len(sh)}', o.u, u)
    E.raises('frequencies are needed', AssertionError, lambda: lf.LocalFourPoint(ch, A.a, beta, u))
    E.raises('unknown channel', AssertionError, lambda: lf.LocalFourPoint('xxxx', A.a, beta, u, is_full_w=True))
    E.unchanged('frame', A, B)
