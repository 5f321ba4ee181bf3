"""C03 full-range objects rebuilt from positive frequencies."""
from engine.reg import contract

MF = 'matsubara_frequencies'


def _lead(E, k, hi=4):
    return tuple(E.int(f'd{i}', lo=1, cmax=hi) for i in range(k))


@contract('C03', [f'{MF}.fermionic_full_nu_range'], reps=60)
def fermionic_rebuild(E):
    mf = E.mod(MF)
    rank, ax = E.choice('layout', [(1, -1), (2, -1), (2, 0), (3, 1), (3, -1), (4, -1), (4, 2)])
    n = E.int('n', lo=1)
    sh = list(_lead(E, rank))
    a = ax % rank
    sh[a] = n
    A = E.array('A', tuple(sh))
    out = list(sh)
    out[a] = 2 * n
    r = mf.fermionic_full_nu_range(A.a, axis=ax)

    def spec(*ix):
        i = ix[a]
        return E.ite(i >= n, lambda: A(*ix[:a], i - n, *ix[a + 1:]), lambda: E.conj(A(*ix[:a], n - 1 - i, *ix[a + 1:])))
    E.eq('X(-v)=X(v)*, upper half kept', r, tuple(out), spec)
    E.unchanged('frame', A)


@contract('C03', [f'{MF}.fermionic_full_nu_range', f'{MF}.cut_v_1d_pos', f'{MF}.clip_pos_mf_vn'], reps=30)
def fermionic_roundtrip(E):
    mf = E.mod(MF)
    lead = E.choice('rank', [0, 1, 2])
    n = E.int('n', lo=1)
    sh = _lead(E, lead) + (n,)
    A = E.array('A', sh)
    r = mf.fermionic_full_nu_range(A.a)
    E.eq('clip(full(X)) = X', mf.clip_pos_mf_vn(r), sh, lambda *ix: A(*ix))
    if lead == 0:
        E.eq('cut_pos(full(X)) = X', mf.cut_v_1d_pos(r, n), sh, lambda *ix: A(*ix))
    rr = mf.fermionic_full_nu_range(mf.clip_pos_mf_vn(r))
    E.same('idempotent on rebuilt objects', rr, r)


@contract('C03', [f'{MF}.bosonic_full_nu_range'], reps=100)
def bosonic_rebuild(E):
    mf = E.mod(MF)
    rank, ax, fax = E.choice('layout', [
        (1, -1, None), (1, 0, None), (2, 0, None), (2, -1, None), (3, 1, None), (2, 0, (0, 1)), (3, 0, (0, 1)), (3, 0, (0, 1, 2)),
        (3, 0, (0, -1)), (3, 1, (1, 2)), (4, -2, (-1, -2)), (4, 1, (1, 2, 3)), (2, 1, (-1, -2)), (3, -3, (-3, -1)), (2, 0, 0)])
    n = E.int('n', lo=0)
    sh = list(_lead(E, rank))
    a = ax % rank
    sh[a] = n + 1
    A = E.array('A', tuple(sh))
    out = list(sh)
    out[a] = 2 * n + 1
    r = mf.bosonic_full_nu_range(A.a, axis=ax, freq_axes=fax)
    fl = [a] if fax is None else [x % rank for x in (fax if isinstance(fax, tuple) else (fax,))]

    def spec(*ix):
        w = ix[a] - n

        def neg():
            jx = [(sh[k] - 1 - i if k in fl else i) for k, i in enumerate(ix)]
            jx[a] = -w
            return E.conj(A(*jx))
        return E.ite(w >= 0, lambda: A(*ix[:a], w, *ix[a + 1:]), neg)
    E.eq('X(-w)=X(w)*, zero once', r, tuple(out), spec)
    E.unchanged('frame', A)


@contract('C03', [f'{MF}.bosonic_full_nu_range', f'{MF}.get_mat_at_iwn', f'{MF}.mat_at_w0'], reps=30)
def bosonic_relation(E):
    mf = E.mod(MF)
    n, d = E.int('n', lo=0), E.int('d', lo=1, cmax=4)
    w = E.int('w', lo=0, hi=n)
    A = E.array('A', (n + 1, d))
    r = mf.bosonic_full_nu_range(A.a, axis=0)
    p, q = mf.get_mat_at_iwn(r, w, axis=0), mf.get_mat_at_iwn(r, -w, axis=0)
    E.eq('supplied half', p, (d,), lambda i: A(w, i))
    E.assume(w >= 1)
    E.eq('conjugate partner', q, (d,), lambda i: E.conj(A(w, i)))
