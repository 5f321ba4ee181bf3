"""One run of dga_main.main on synthetic DMFT data with P in-process ranks, and a direct evaluation of the same equations in plain numpy.

Bounded stand-in (concrete only): dga_main.main is a script-like composition that reads and writes files; its parts are under contract,
their composition is compared with the equations themselves.
"""
import importlib
import os
import shutil
import sys
import tempfile
import threading

import numpy as np

from contracts.c09 import Comm, World
from engine.env import Missing

SIGN = {'dens': 1, 'magn': -1}


def mod(n):
    try:
        return importlib.import_module('dga.' + n)
    except ModuleNotFoundError:
        raise Missing(n)


class Proxy:
    """the communicator of the calling thread, as COMM_WORLD is the one of the calling process"""

    def __init__(self, tl):
        self.__dict__['tl'] = tl

    def __getattr__(self, k):
        return getattr(self.tl.c, k)


class NoMpi:
    def __init__(self, real):
        self.real = real

    def Finalize(self):
        pass

    def __getattr__(self, k):
        return getattr(self.real, k)


def nothing(*a, **k):
    return None


class Input:
    pass


def mesh_energy(t, tp, tpp, nk):
    kx, ky = (2 * np.pi * np.arange(n) / n for n in nk[:2])
    kx, ky = kx[:, None], ky[None, :]
    e = -2 * t * (np.cos(kx) + np.cos(ky)) - 4 * tp * np.cos(kx) * np.cos(ky) - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky))
    return np.repeat(e[:, :, None], nk[2], axis=2)


PARTS = ['dga_main.main', 'dga_io.build_g2_obj', 'dga_io.load_1p_data', 'high_level_routines.local_sde_from_g2', 'high_level_routines.construct_dc_kernel',
         'high_level_routines.construct_vrg_and_chi_q_urange']
BOUNDED = 'whole runs of the program on synthetic data: grids up to 16 momenta, boxes up to 6 frequencies, 3 processes'


def draw(E, size=((4, 4, 1), (4, 2, 1), (3, 4, 1), (2, 2, 2), (4, 4, 2)), corr=('spch', 'sp', 'none'), least=(0, 2), coarse=True):
    """synthetic DMFT result: local Green's function of a model self-energy and a two-particle function with a weak random vertex"""
    i = Input()
    r = E.nprng
    i.nk = E.choice('nk', list(size))
    i.sym = E.choice('symmetries', ['none', 'simultaneous_x_y_inversion', 'two_dimensional_square', 'quasi_one_dimensional_square'])
    # the transfer momenta may live on a coarser grid than the fermionic ones
    step = E.choice('step', [(1, 1, 1)] * 3 + [(2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 1, 2)] if coarse else [(1, 1, 1)])
    i.step = step if all(n % f == 0 for n, f in zip(i.nk, step)) else (1, 1, 1)
    i.nq = tuple(n // f for n, f in zip(i.nk, i.step))
    if i.sym == 'two_dimensional_square' and (i.nk[0] != i.nk[1] or i.nq[0] != i.nq[1]):
        i.sym = 'quasi_one_dimensional_square'
    nq = i.nq[0] * i.nq[1] * i.nq[2]
    i.P = min(E.int('processes', lo=1, cmax=3), 3 if nq > 3 else 2 if nq > 1 else 1)
    i.corr = E.choice('lambda', list(corr))
    i.niw, i.nv, i.s = E.int('niw', lo=least[0], cmax=3), E.int('nv', lo=least[1], cmax=4), E.int('shell', lo=0, cmax=2)
    i.beta, i.u = float(r.uniform(1.5, 3)), float(r.uniform(0.5, 1.5))
    i.n = float(r.uniform(0.8, 1.1))
    i.mu = i.u * i.n / 2 + float(r.uniform(-.3, .3))
    i.hop = (1.0, float(r.uniform(-.3, .3)), float(r.uniform(-.2, .2)))
    ek = i.ek = mesh_energy(*i.hop, i.nk)
    N = i.N = 40
    iv = 1j * np.pi / i.beta * (2 * np.arange(N) + 1)
    sp = i.u * i.n / 2 + i.u ** 2 / 5 / iv
    low = r.normal(size=3) * .05 + 1j * r.normal(size=3) * .05
    sp[:3] += low - 0j
    i.siw = np.concatenate((np.conj(sp[::-1]), sp))
    i.iv = np.concatenate((-iv[::-1], iv))
    i.G = 1 / (i.iv + i.mu - ek[..., None] - i.siw)
    i.Gl = i.G.mean((0, 1, 2))
    nw, nv, s = i.niw, i.nv, i.s
    i.w = np.arange(-nw, nw + 1)
    big = nv + E.int('more', lo=0, cmax=1)
    bw = nw + E.int('morew', lo=0, cmax=1)
    i.avail = (bw, big)
    i.g2 = {}
    for c in SIGN:
        ur = SIGN[c] * i.u
        x = []
        for w in range(-bw, bw + 1):
            g0 = -i.beta * at(i.Gl, big, 0) * at(i.Gl, big, w)
            m = r.normal(size=(2 * big, 2 * big)) * .05 + 1j * r.normal(size=(2 * big, 2 * big)) * .05
            gam = (ur + (m + m.T) / 2) / i.beta ** 2
            x.append(np.linalg.inv(np.diag(1 / g0) + gam))
        x = np.array(x)
        x = (x + np.conj(x[::-1, ::-1, ::-1])) / 2
        x = x / i.beta
        if c == 'dens':
            x[bw] += 2 * np.outer(at(i.Gl, big, 0), at(i.Gl, big, 0))
        i.g2[c] = x
    return i


def at(g, n, w):
    """g(v - w) for v in the box of n positive and n negative frequencies (last axis)"""
    m = g.shape[-1] // 2
    return g[..., m - n - w:m + n - w]


def run(E, i, extra=None, P=None):
    """main() on P ranks; returns the output directory"""
    m = mod('dga_main')
    P = P or i.P
    top = tempfile.mkdtemp(prefix='dga_run_') + '/'
    E.cleanup.append(lambda: shutil.rmtree(top, ignore_errors=True))
    np.save(top + '1p.npy', {'giw': i.Gl, 'siw': i.siw, 'n': i.n, 'beta': i.beta, 'u': i.u, 'mu_dmft': i.mu,
                             'g4iw_dens': i.g2['dens'].copy(), 'g4iw_magn': i.g2['magn'].copy()}, allow_pickle=True)
    conf = {'box_sizes': {'niw_core': i.niw, 'niv_core': i.nv, 'niv_shell': i.s},
            'lattice': {'nk': list(i.nk), 'type': 't_tp_tpp', 'hr_input': list(i.hop), 'symmetries': i.sym},
            'dga': {'lambda_corr': i.corr}, 'dmft_input': {'type': 'default', 'input_path': top, 'fname_1p': '1p.npy', 'fname_2p': '1p.npy',
                                                           'do_sym_v_vp': False}}
    if i.nq != i.nk:
        conf['lattice']['nq'] = list(i.nq)
    conf.update(extra or {})
    from ruamel.yaml import YAML
    with open(top + 'cfg.yaml', 'w') as f:
        YAML().dump(conf, f)
    argv = sys.argv
    E.cleanup.append(lambda: setattr(sys, 'argv', argv))
    sys.argv = ['dga', '-p', top, '-c', 'cfg.yaml']
    quiet(E)
    tl = threading.local()
    E.patch(m, 'comm', Proxy(tl))
    E.patch(m, 'mpi', NoMpi(m.mpi))
    w = World(P)
    w.bar = threading.Barrier(P, timeout=90)
    exc = [None] * P

    def go(r):
        tl.c = Comm(w, r)
        try:
            with np.errstate(all='ignore'):
                m.main()
        except BaseException as e:  # noqa
            exc[r] = e
            w.bar.abort()
    ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(P)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(200)
    real = [e for e in exc if e is not None and not isinstance(e, threading.BrokenBarrierError)]
    if real or any(exc):
        e = (real or [e for e in exc if e is not None])[0]
        if isinstance(e, AttributeError) and isinstance(getattr(e, 'obj', None), (Comm, Proxy, World)):
            raise Missing(f'communicator: {e}')
        if isinstance(e, (AssertionError, ValueError)):  # consistency checks of the program that rounding next to a divergence violates
            for x in os.listdir(top):
                if os.path.exists(f'{top}{x}/chi_magn_lam.npy'):
                    tame(E, susceptibilities(i, f'{top}{x}/'))
        raise e
    dirs = [d for d in os.listdir(top) if d.startswith('LDGA')]
    if len(dirs) != 1:
        raise Missing('one output directory')
    return top + dirs[0] + '/'


def quiet(E):
    import types
    p = mod('plotting')
    for k, v in list(vars(p).items()):
        if isinstance(v, types.FunctionType) and v.__module__ == p.__name__:
            E.patch(p, k, nothing)
    E.patch(mod('brillouin_zone'), 'find_zeros', lambda *a, **k: np.zeros((0, 2), dtype=int))  # contour of matplotlib, for a figure only
    for name, fs in (('local_four_point', ('plot_fourpoint_nu_nup', 'plot_three_point_w_v')),
                     ('optics', ('plot_opt_cond_matsubara', 'plot_opt_cond_realf'))):
        x = mod(name)
        for f in fs:
            if hasattr(x, f):
                E.patch(x, f, nothing)


def load(d, name):
    p = d + name + '.npy'
    if not os.path.exists(p):
        raise Missing(name)
    x = np.load(p, allow_pickle=True)
    return x.item() if x.ndim == 0 else x


def ladder(i, g0, gam, ur, nv, s):
    """full ladder in the box with the vertex continued by the interaction: physical susceptibility, three-leg vertex, chi"""
    n = nv + s
    full = np.full((2 * n, 2 * n), ur / i.beta ** 2, dtype=complex)
    full[s:s + 2 * nv, s:s + 2 * nv] = gam
    x = np.linalg.inv(np.diag(1 / g0) + full)
    chi = x.sum() / i.beta ** 2
    vrg = (x.sum(-1) / g0 / (1 - ur * chi))[s:s + 2 * nv]
    return chi, vrg, full


def reference(E, i):
    """the equations, one matrix at a time"""
    o = Input()
    nv, s, nw, b, u = i.nv, i.s, i.niw, i.beta, i.u
    n = nv + s
    bw, big = i.avail
    o.chi_loc, o.chi, o.vrg, gam = {}, {}, {}, {}
    vloc = {}
    idx = [(x, y, z) for x in range(0, i.nk[0], i.step[0]) for y in range(0, i.nk[1], i.step[1]) for z in range(0, i.nk[2], i.step[2])]
    o.q = idx
    shifted = {q: np.roll(i.G, [-c for c in q], axis=(0, 1, 2)) for q in idx}
    g0q = {(q, w): -b * (at(i.G, n, 0) * at(shifted[q], n, w)).mean((0, 1, 2)) for q in idx for w in i.w}
    for c in SIGN:
        ur = SIGN[c] * u
        o.chi_loc[c] = np.zeros(2 * nw + 1, complex)
        vloc[c] = np.zeros((2 * nw + 1, 2 * nv), complex)
        o.chi[c] = np.zeros((len(idx), 2 * nw + 1), complex)
        o.vrg[c] = np.zeros((len(idx), 2 * nw + 1, 2 * nv), complex)
        for j, w in enumerate(i.w):
            x = b * i.g2[c][bw + w, big - nv:big + nv, big - nv:big + nv]
            if w == 0 and c == 'dens':
                x = x - 2 * b * np.outer(at(i.Gl, nv, 0), at(i.Gl, nv, 0))
            g0 = -b * at(i.Gl, n, 0) * at(i.Gl, n, w)
            t = np.linalg.inv(np.diag(1 / g0) + ur / b ** 2)[s:s + 2 * nv, s:s + 2 * nv]
            g = gam[c, w] = np.linalg.inv(x) - np.linalg.inv(t) + ur / b ** 2
            o.chi_loc[c][j], vloc[c][j], full = ladder(i, g0, g, ur, nv, s)
            if c == 'magn':
                gam['F', w] = full @ np.linalg.inv(np.eye(2 * n) + g0[:, None] * full)
            for k, q in enumerate(idx):
                o.chi[c][k, j], o.vrg[c][k, j], _ = ladder(i, g0q[q, w], g, ur, nv, s)
    o.dc = np.array([[(-u * gam['F', w] @ g0q[q, w])[s:s + 2 * nv] for w in i.w] for q in idx])
    o.gam, o.g0q, o.shifted, o.vloc = gam, g0q, shifted, vloc
    largest = max(np.max(np.abs(x)) for c in SIGN for x in (o.chi[c], o.vrg[c], vloc[c], o.dc))
    E.assume(bool(largest < 300))  # random vertices next to a divergence: the comparison would only measure rounding
    hartree = u * i.n / 2
    o.sde_loc = hartree + sum(SIGN[c] * u / 2 / b * sum((1 - (1 - SIGN[c] * u * o.chi_loc[c][j]) * vloc[c][j]) * at(i.Gl, nv, w)
                                                       for j, w in enumerate(i.w)) for c in SIGN)
    return o


def sigma(i, o, chi):
    """lattice equation for given (corrected) susceptibilities [q, w]"""
    nv, b, u = i.nv, i.beta, i.u
    k = sum(m * SIGN[c] * u / 2 * (1 - (1 - SIGN[c] * u * chi[c][..., None]) * o.vrg[c]) for c, m in (('dens', 1), ('magn', 3))) - o.dc
    out = 0
    for a, q in enumerate(o.q):
        for j, w in enumerate(i.w):
            out = out + k[a, j] * at(o.shifted[q], nv, w)
    out = out / b / len(o.q)
    return out + at(i.siw, nv, 0) - o.sde_loc + u * i.n / 2


def tame(E, chi):
    """corrected susceptibilities next to a divergence are left out: the comparison would only measure rounding"""
    E.assume(bool(max(np.max(np.abs(x)) for x in chi.values()) < 300))
    return chi


def vertex(i, o, chi):
    """ladder vertex F[c][q, w, v, v'] for given (corrected) susceptibilities [q, w]"""
    nv, s, b, u = i.nv, i.s, i.beta, i.u
    f = {}
    for c in SIGN:
        ur = SIGN[c] * u
        f[c] = np.zeros((len(o.q), len(i.w), 2 * nv, 2 * nv), complex)
        for a, q in enumerate(o.q):
            for j, w in enumerate(i.w):
                g = o.g0q[q, w][s:s + 2 * nv]
                x = np.linalg.inv(np.diag(1 / g) + o.gam[c, w] - ur / b ** 2)
                v = x.sum(-1) / g
                f[c][a, j] = b ** 2 / g[:, None] * (np.eye(2 * nv) - x / g[None, :]) + ur * (1 - ur * chi[c][a, j]) * np.outer(v, v)
    return f


def pairing(i, o, chi):
    """singlet and triplet vertex of the particle-particle channel on the small box: F(k-k', v-v', v, -v') with crossing sign, made hermitian"""
    npp = min(i.niw, i.nv) // 2
    nv, n, b, u, s = i.nv, 2 * min(i.niw, i.nv) // 2, i.beta, i.u, i.s
    f1 = {c: np.zeros((len(o.q), 2 * npp, 2 * npp), complex) for c in SIGN}
    zero = {c: np.full_like(chi[c], 1 / (SIGN[c] * u)) for c in SIGN}       # 1 - u_r chi = 0: first component alone
    one = {c: np.zeros_like(chi[c]) for c in SIGN}
    A, B = vertex(i, o, zero), vertex(i, o, one)
    out = {}
    for c in SIGN:
        ur = SIGN[c] * u
        F = np.zeros((len(o.q), 2 * npp, 2 * npp), complex)
        for x in range(2 * npp):
            for y in range(2 * npp):
                w = x - y
                j = i.niw + w

                def el(M, a, d, j=j):
                    return -M[:, j, nv - npp + a, nv + npp - 1 - d]
                p1 = .5 * (el(A[c], x, y) + np.conj(el(A[c], y, x, i.niw - w)))
                p2 = .5 * (el(B[c] - A[c], x, y) + np.conj(el(B[c] - A[c], y, x, i.niw - w)))
                F[:, x, y] = p1 + (1 - ur * chi[c][:, j]) * p2
        out[c] = F
    return 1.5 * out['magn'] - .5 * out['dens'], .5 * out['magn'] + .5 * out['dens']


def velocity(i, a):
    """d eps / d k_a on the mesh"""
    t, tp, tpp = i.hop
    k = [2 * np.pi * np.arange(n) / n for n in i.nk[:2]]
    x, y = (k[0][:, None], k[1][None, :]) if a == 0 else (k[1][None, :], k[0][:, None])
    e = 2 * t * np.sin(x) + 4 * tp * np.sin(x) * np.cos(y) + 4 * tpp * np.sin(2 * x)
    return np.repeat((e * np.ones(i.nk[:2]))[:, :, None], i.nk[2], axis=2)


def current_bubble(i, G, a, b, w, n):
    return -2 / i.beta * (velocity(i, a) * velocity(i, b) * (at(G, n, 0) * at(G, n, w)).sum(-1)).mean()


def current_vertex(i, o, G, F, a, b, w, n, wv):
    """F[c][q, w', v, v']; transfer frequencies |w'| <= wv, inner frequencies in the box n, second argument v - w"""
    nv = i.nv
    out = 0
    for k, q in enumerate(o.q):
        Gq = np.roll(G, [-c for c in q], axis=(0, 1, 2))
        vq = np.roll(velocity(i, b), [-c for c in q], axis=(0, 1, 2))
        for p in range(-wv, wv + 1):
            f = -F['dens'][k, i.niw + p] / 2 - 3 * F['magn'][k, i.niw + p] / 2
            f = np.array([f[nv - n + v, nv - n + v - w] for v in range(2 * n)])
            out = out + (velocity(i, a)[..., None] * vq[..., None] * at(G, n, 0) * at(G, n, w) * at(Gq, n, p) * at(Gq, n, p + w) * f).sum(-1).mean()
    return -2 / i.beta ** 2 / len(o.q) * out


def susceptibilities(i, d):
    n = i.nq[0] * i.nq[1] * i.nq[2]
    return {c: load(d, f'chi_{c}_lam').reshape(n, -1) for c in SIGN}


def folder(d, start):
    x = [e for e in os.listdir(d) if e.startswith(start)]
    if len(x) != 1:
        raise Missing(start)
    return d + x[0] + '/'
