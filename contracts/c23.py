"""C23 analytic-continuation grids, kernels and data selection are exact."""
import os
import warnings

import numpy as np

from contracts.c11 import Obj
from engine import wholerun
from engine.env import Missing
from engine.reg import contract

A = 'analytic_continuation'
TRUSTED = ['ana_cont.continuation.AnalyticContinuationProblem(...).solve and ana_cont.continuation.GreensFunction: replaced by objects that '
           'record what they are given and return an arbitrary spectrum']
ASSUMPTIONS = ['tan is strictly increasing on [-pi/2.5, pi/2.5] and x -> sign(x)(sqrt(1+x^2)-1) is strictly increasing: the closed form of '
               'the meshes is proved, that they increase is evaluated on sampled sizes']


def mesh_args(E):
    return E.real('wmin'), E.real('wmax'), E.int('n', lo=3, cmax=9)


def stretched(E, got, x, n, lo, hi, label=''):
    """a linear image of the points x(0) ... x(n-1) that starts at lo and ends at hi"""
    E.eq('points' + label, got, (n,), lambda k: lo + (hi - lo) * (x(k) - x(0)) / (x(n - 1) - x(0)))


def linear_x(n):
    return lambda k: k + 0.0 * k


def tan_x(E, n):
    a = E.np.pi / 2.5
    return lambda k: E.tan(-a + k * (2 * a / (n - 1)))


def hyper_x(E, n):
    def x(k):
        u = -1.0 + k * (2.0 / (n - 1))
        return E.np.sign(u) * (E.sqrt(1 + u ** 2) - 1)
    return x


@contract('C23', [f'{A}.linear_w_mesh', f'{A}.get_w_mesh'], reps=40)
def linear_mesh(E):
    m = E.mod(A)
    lo, hi, n = mesh_args(E)
    for w in (m.linear_w_mesh(lo, hi, n), m.get_w_mesh('linear', lo, hi, n), m.get_w_mesh('linear', lo, hi, n, 0.1)):
        E.eq('points', w, (n,), lambda k: lo + k * ((hi - lo) / (n - 1)))
        E.scalar('starts at wmin', w[0], lo)
        E.scalar('ends at wmax', w[-1], hi)


@contract('C23', [f'{A}.tan_w_mesh', f'{A}.get_w_mesh'], reps=40)
def tan_mesh(E):
    m = E.mod(A)
    lo, hi, n = mesh_args(E)
    for w in (m.tan_w_mesh(lo, hi, n), m.get_w_mesh('tan', lo, hi, n), m.get_w_mesh('tan', lo, hi, n, 0.1)):
        stretched(E, w, tan_x(E, n), n, lo, hi)
        E.scalar('starts at wmin', w[0], lo)
        E.scalar('ends at wmax', w[-1], hi)


@contract('C23', [f'{A}.hyperbolic_w_mesh', f'{A}.get_w_mesh'], reps=40)
def hyperbolic_mesh(E):
    m = E.mod(A)
    lo, hi, n = mesh_args(E)
    for w in (m.hyperbolic_w_mesh(lo, hi, n), m.get_w_mesh('hyperbolic', lo, hi, n), m.get_w_mesh('hyperbolic', lo, hi, n, 0.1)):
        stretched(E, w, hyper_x(E, n), n, lo, hi)
        E.scalar('starts at wmin', w[0], lo)
        E.scalar('ends at wmax', w[-1], hi)


class Tangent:
    """numpy whose tangent is an arbitrary function: records the argument, returns any array of its size"""

    def __init__(self, E, np):
        self.E, self.np, self.calls = E, np, []

    def __getattr__(self, k):
        return getattr(self.np, k)

    def tan(self, x):
        self.calls.append((x, self.E.array(f'tan{len(self.calls)}', x.shape, kind='f') if self.E.sym else None))
        return self.calls[-1][1].a if self.E.sym else self.np.tan(x)


@contract('C23', [f'{A}.lorentzian_w_mesh', f'{A}.get_w_mesh'], reps=40)
def lorentzian_mesh(E):
    m = E.mod(A)
    lo, hi, n = mesh_args(E)
    cut = E.choice('cut', [0.04, 0.01, 0.2])
    N = Tangent(E, m.np)
    E.patch(m, 'np', N)
    got = [m.lorentzian_w_mesh(lo, hi, n, cut), m.get_w_mesh('lorentzian', lo, hi, n, cut)]
    arg = lambda j: E.np.pi * (j * (1.0 / n) * (1. - 2 * cut) + cut - 0.5)
    if len(N.calls) != 2:
        raise Missing('numpy.tan')
    for w, (x, t) in zip(got, N.calls):
        E.eq('argument of the tangent', x, (n + 1,), arg)
        f = (lambda k: t(k)) if E.sym else (lambda k: E.tan(arg(k)))
        stretched(E, w, lambda k: f(k) + f(k + 1), n, lo, hi)
        E.scalar('starts at wmin', w[0], lo)
        E.scalar('ends at wmax', w[-1], hi)


@contract('C23', [f'{A}.get_w_mesh'], reps=10)
def unsupported_meshes(E):
    m = E.mod(A)
    lo, hi, n = mesh_args(E)
    kind = E.choice('kind', ['log', 'Tan', '', None])
    E.raises('unknown', ValueError, lambda: m.get_w_mesh(kind, lo, hi, n, 0.1))
    E.raises('cut needed', AssertionError, lambda: m.get_w_mesh('lorentzian', lo, hi, n))


@contract('C23', [f'{A}.get_w_mesh', f'{A}.linear_w_mesh', f'{A}.tan_w_mesh', f'{A}.hyperbolic_w_mesh', f'{A}.lorentzian_w_mesh'], sym=False,
          reps=150, bounded='sizes up to 2001, sampled limits')
def meshes_increase(E):
    np, rng = E.np, E.rng
    m = E.mod(A)
    n = rng.choice([3, 4, 5, 10, 11, 101, 500, 501, 2001])
    lo, hi = sorted(E.nprng.uniform(-30, 30, 2))
    lo, hi = rng.choice([(lo, hi), (-hi - 31, hi + 31), (0.0, hi + 31), (-15, 15)])
    w = m.get_w_mesh(E.choice('kind', ['lorentzian', 'hyperbolic', 'linear', 'tan']), lo, hi, n, rng.choice([0.04, 0.1, 0.005]))
    E.true('size', w.shape == (n,))
    E.true('strictly increasing', bool(np.all(np.diff(w) > 0)))
    E.true('limits', abs(w[0] - lo) < 1e-9 and abs(w[-1] - hi) < 1e-9)
    if lo == -hi:
        E.true('symmetric', bool(np.allclose(w, -w[::-1], atol=1e-9)))


@contract('C23', [f'{A}.get_backtransform_kernel'], reps=40)
def fermionic_kernel(E):
    m = E.mod(A)
    n, k = E.int('n', lo=1, cmax=6), E.int('m', lo=1, cmax=5)
    w, v = E.array('w', (n,), kind='f'), E.array('v', (k,), kind='f')
    for K in (m.get_backtransform_kernel(w.a, v.a, kind='freq_fermionic'), m.get_backtransform_kernel(w.a, v.a)):
        E.eq('1/(i nu - w)', K, (k, n), lambda x, y: 1 / (E.i * v(x) - w(y)))
    E.unchanged('frame', w, v)
    E.raises('unknown kernel', NotImplementedError, lambda: m.get_backtransform_kernel(w.a, v.a, kind=E.choice('kind', ['freq', 'fermionic', 'time_fermionic'])))


@contract('C23', [f'{A}.get_backtransform_kernel'], sym=False, reps=80, bounded='search for the zero frequencies by np.where; sizes up to 30')
def bosonic_kernel(E):
    np, rng = E.np, E.rng
    m = E.mod(A)
    n, k = rng.randint(2, 30), rng.randint(1, 10)
    beta = float(E.nprng.uniform(1, 40))
    w = rng.choice([np.linspace(0, 15, n), np.linspace(-5, 5, n), m.get_w_mesh('tan', 0, 10, n), E.nprng.uniform(.1, 4, n)])
    om = rng.choice([2 * np.pi / beta * np.arange(k), 2 * np.pi / beta * np.arange(-k, k + 1), 2 * np.pi / beta * np.arange(1, k + 1)])
    K = m.get_backtransform_kernel(w, om, kind='freq_bosonic')
    W, O = np.meshgrid(w, om)
    both = (W == 0) & (O == 0)
    want = np.where(both, 1.0, W ** 2 / np.where(both, 1, W ** 2 + O ** 2))
    E.true('w^2/(w^2+Omega^2), one at the origin', K.shape == want.shape and bool(np.allclose(K, want, atol=1e-12)))


@contract('C23', [f'{A}.transform_from_real_to_imag', f'{A}.get_backtransform_kernel'], reps=40)
def back_transformation(E):
    """trapezoidal rule over kernel times spectral function -Im/pi"""
    m = E.mod(A)
    n, k = E.int('n', lo=2, cmax=6), E.int('m', lo=1, cmax=5)
    w, v = E.array('w', (n,), kind='f'), E.array('v', (k,), kind='f')
    kind = E.choice('data', ['c', 'f'])
    G = E.array('G', (n,), kind=kind)
    s = lambda y: -(E.im(G(y)) if kind == 'c' else G(y)) / E.pi
    f = lambda x, y: s(y) / (E.i * v(x) - w(y))
    E.eq('trapezoidal sum', m.transform_from_real_to_imag(G.a, w.a, v.a), (k,), lambda x: E.sum(
        0, n - 1, lambda y: (w(y + 1) - w(y)) * (f(x, y) + f(x, y + 1)) / 2))
    E.unchanged('frame', w, v, G)


def trapezoid(E, w, n):
    """weights of the trapezoidal rule: every point counts for the region nearest to it"""
    upper = lambda j: E.ite(j + 1 <= n - 1, lambda: (w(j) + w(j + 1)) / 2, lambda: w(n - 1))
    lower = lambda j: E.ite(j >= 1, lambda: (w(j) + w(j - 1)) / 2, lambda: w(0))
    return lambda j: upper(j) - lower(j)


def kk(E, kinds, term):
    m = E.mod(A)
    n = E.int('n', lo=3, cmax=7)
    S, w = E.array('S', (n,), kind='f'), E.array('w', (n,), kind='+')
    G = m.kkt(S.a, w.a, E.choice('kind', kinds))
    dw = trapezoid(E, w, n)
    E.eq('imaginary part is -pi times the spectrum', E.np.imag(G), (n,), lambda i: -E.pi * S(i))
    E.eq('real part is the principal value', E.np.real(G), (n,), lambda i: E.sum(
        0, n, lambda j: E.ite(i == j, 0, lambda: term(w, S, dw, i, j))))
    E.unchanged('frame', S, w)


@contract('C23', [f'{A}.kkt'], reps=60)
def kramers_kronig_fermionic(E):
    kk(E, ['fermionic', 'general'], lambda w, S, dw, i, j: dw(j) * S(j) / (w(i) - w(j)))
    m = E.mod(A)
    n = E.int('m', lo=3, cmax=4)
    w = E.array('x', (n,), kind='+')
    E.raises('unknown kind', ValueError, lambda: m.kkt(w.a, w.a, 'freq'))


@contract('C23', [f'{A}.kkt'], reps=60)
def kramers_kronig_bosonic(E):
    kk(E, ['bosonic', 'antisymmetric'], lambda w, S, dw, i, j: 2 * dw(j) * w(i) * S(j) / (w(i) ** 2 - w(j) ** 2))


@contract('C23', [f'{A}.kkt'], reps=60)
def kramers_kronig_symmetric(E):
    kk(E, ['fermionic_phsym', 'symmetric'], lambda w, S, dw, i, j: 2 * dw(j) * w(j) * S(j) / (w(i) ** 2 - w(j) ** 2))


class Solver:
    """the continuation package: records the problem, returns an arbitrary spectrum"""

    def __init__(self, E, m, n, fail=()):
        self.E, self.n, self.fail, self.calls = E, n, set(fail), []
        E.patch(m, 'cont', Obj(AnalyticContinuationProblem=self.problem, GreensFunction=self.greens))

    def problem(self, im_axis=None, re_axis=None, im_data=None, kernel_mode=None, beta=None):
        self.calls.append(dict(im_axis=im_axis, re_axis=re_axis, im_data=im_data, kernel_mode=kernel_mode, beta=beta))
        return Obj(solve=self.solve)

    def solve(self, method=None, model=None, stdev=None, **k):
        k.update(method=method, model=model, stdev=stdev)
        self.calls[-1]['solve'] = k
        if len(self.calls) - 1 in self.fail:
            raise [ValueError, RuntimeError, KeyError][len(self.calls) % 3]('no solution')
        a = self.E.array(f'spectrum{len(self.calls)}', (self.n,), kind='f')
        self.calls[-1]['A'] = a
        return Obj(A_opt=a.a, chi2=len(self.calls)), [None]

    def greens(self, spectrum=None, wgrid=None, kind=None):
        self.calls[-1]['greens'] = dict(spectrum=spectrum, wgrid=wgrid, kind=kind)
        return Obj(kkt=lambda: wgrid * 0 + (7.0 + 0j) * spectrum)


def controller(E, m, kernel, nfit, n, **k):
    lo, hi = E.real('wmin', pos=True), E.real('wmax', pos=True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return m.MaxEnt(E.real('beta', pos=True), kernel, comm=Obj(rank=0, size=1), mesh_type='linear', wmin=lo, wmax=hi, nwr=n, n_fit=nfit, **k)


def beta_of(E, me):
    return me.beta


@contract('C23', [f'{A}.MaxEnt.cont_single_ind', f'{A}.MaxEnt.cut_matrix', f'{A}.MaxEnt.get_im_freq', f'{A}.MaxEnt.get_model',
                  f'{A}.MaxEnt.use_preblur', 'matsubara_frequencies.vn'], reps=80)
def fermionic_data_selection(E):
    m = E.mod(A)
    niv, nfit, n = E.int('niv', lo=1, cmax=6), E.int('n_fit', lo=1, cmax=9), E.int('nw', lo=3, cmax=6)
    bw = E.choice('bw', [0, 0.1])
    me = controller(E, m, 'freq_fermionic', nfit, n, bw=bw)
    S = Solver(E, m, n)
    M = E.array('M', (2 * niv,))
    err = E.real('err', pos=True)
    me.err = err
    w = me.w
    got = me.cont_single_ind(M.a)
    if len(S.calls) != 1:
        raise Missing('AnalyticContinuationProblem')
    c = S.calls[0]
    used = E.min(nfit, niv)
    E.eq('positive frequencies, as many as requested and available', c['im_data'], (used,), lambda k: M(niv + k))
    E.eq('their values', c['im_axis'], (used,), lambda k: E.pi * (2 * k + 1) / me.beta)
    E.eq('errors', c['solve']['stdev'], (used,), lambda k: err)
    lo, hi = w[0], w[-1]
    E.eq('normalized flat model', c['solve']['model'], (n,), lambda k: 1 / (hi - lo))
    E.same('mesh', c['re_axis'], w)
    E.true('kernel', c['kernel_mode'] == 'freq_fermionic')
    E.true('blur', bool(c['solve']['preblur']) == (bw != 0) and c['solve']['blur_width'] == bw)
    E.true('method', c['solve']['method'] == me.method and c['solve']['optimizer'] == me.optimizer and c['solve']['alpha_determination'] == me.alpha_det_method)
    g = c.get('greens')
    if g is not None:
        E.true('fermionic spectrum', g['kind'] == 'fermionic')
        E.same('its mesh', g['wgrid'], w)
    E.eq('completed spectrum', got, (n,), lambda k: 7 * c['A'](k))
    E.unchanged('frame', M)


@contract('C23', [f'{A}.MaxEnt.cont_single_ind', f'{A}.MaxEnt.cut_matrix', f'{A}.MaxEnt.get_im_freq', f'{A}.MaxEnt.get_model',
                  'matsubara_frequencies.wn'], reps=80)
def bosonic_data_selection(E):
    m = E.mod(A)
    niw, nfit, n = E.int('niw', lo=0, cmax=6), E.int('n_fit', lo=0, cmax=9), E.int('nw', lo=3, cmax=6)
    me = controller(E, m, 'freq_bosonic', nfit, n, bw=0.0)
    S = Solver(E, m, n)
    M = E.array('M', (2 * niw + 1,))
    w = me.w
    got = me.cont_single_ind(M.a)
    if len(S.calls) != 1:
        raise Missing('AnalyticContinuationProblem')
    c = S.calls[0]
    used = E.min(nfit, niw) + 1
    E.eq('non-negative frequencies, as many as requested and available', c['im_data'], (used,), lambda k: M(niw + k))
    E.eq('their values', c['im_axis'], (used,), lambda k: E.pi * 2 * k / me.beta)
    E.eq('errors', c['solve']['stdev'], (used,), lambda k: me.err)
    E.eq('model normalized to the static value', c['solve']['model'], (n,), lambda k: E.re(M(niw)) / (w[-1] - w[0]))
    E.same('mesh', c['re_axis'], w)
    E.true('kernel', c['kernel_mode'] == 'freq_bosonic')
    E.true('no blur', not c['solve']['preblur'])
    E.eq('spectrum', got, (n,), lambda k: E.pi / 2 * c['A'](k))
    E.unchanged('frame', M)


@contract('C23', [f'{A}.MaxEnt.analytic_continuation'], reps=60)
def failing_momenta(E):
    """a failure yields zeros for that momentum and leaves all others alone"""
    m = E.mod(A)
    niv, nfit, n, nk = E.int('niv', lo=1, cmax=4), E.int('n_fit', lo=1, cmax=6), E.int('nw', lo=3, cmax=5), E.choice('momenta', [1, 2, 3, 4])
    kernel = E.choice('kernel', ['freq_fermionic', 'freq_bosonic'])
    bw = E.choice('bw', [0.0, 0.2]) if kernel == 'freq_fermionic' else 0.0
    me = controller(E, m, kernel, nfit, n, bw=bw)
    fail = [k for k in range(nk) if E.choice(f'failure {k}', [False, True])]
    S = Solver(E, m, n, fail)
    M = E.array('M', (nk, 2 * niv + (kernel == 'freq_bosonic')))
    got = me.analytic_continuation(M.a)
    if len(S.calls) != nk:
        raise Missing('one problem per momentum')
    for k in range(nk):
        c = S.calls[k]['solve']
        E.true(f'blur of momentum {k}', bool(c['preblur']) == (bw != 0) and c['blur_width'] == bw)
        E.true(f'settings of momentum {k}', c['method'] == me.method and c['optimizer'] == me.optimizer and c['alpha_determination'] == me.alpha_det_method)
        E.same(f'errors of momentum {k}', c['stdev'], S.calls[0]['solve']['stdev'])
        E.same(f'mesh of momentum {k}', S.calls[k]['re_axis'], S.calls[0]['re_axis'])
        E.same(f'frequencies of momentum {k}', S.calls[k]['im_axis'], S.calls[0]['im_axis'])
    f = 7 if kernel == 'freq_fermionic' else E.pi / 2
    for k in range(nk):
        E.eq(f'data of momentum {k}', S.calls[k]['im_data'][0:1], (1,), lambda x: M(k, niv))
    E.eq('results', got, (nk, n), lambda k, x: sum(E.ite(k == j, lambda j=j: 0 if j in fail else f * S.calls[j]['A'](x), 0) for j in range(nk)))
    if not E.sym:
        E.true('type of the result', (got.dtype.kind == 'c') == (kernel == 'freq_fermionic'))
    E.unchanged('frame', M)


@contract('C23', [f'{A}.mpi_ana_cont'], reps=30)
def distributed_continuation(E):
    m = E.mod(A)
    log = []
    d = Obj(scatter=lambda x, **k: log.append(('scatter', x)) or 'mine', gather=lambda x, **k: log.append(('gather', x)) or 'all')
    me = Obj(analytic_continuation=lambda x: log.append(('continue', x)) or 'spectra')
    lg = E.choice('logger', [None, Obj(log_cpu_time=lambda task=None: None)])
    got = m.mpi_ana_cont('matrix', me, d, 'name', logger=lg)
    if [x[0] for x in log] != ['scatter', 'continue', 'gather']:
        raise Missing('one call each')
    E.true('scatter, continue, gather', log == [('scatter', 'matrix'), ('continue', 'mine'), ('gather', 'spectra')] and got == 'all')


@contract('C23', [f'{A}.max_ent', f'{A}.max_ent_loc'], reps=60)
def local_continuation(E):
    m = E.mod(A)
    niv, nfit, n = E.int('niv', lo=1, cmax=6), E.int('n_fit', lo=1, cmax=9), E.int('nw', lo=2, cmax=6)
    beta, err, bw = E.real('beta', pos=True), E.real('err', pos=True), E.real('bw', pos=True)
    M, w = E.array('M', (2 * niv,)), E.array('w', (n,), kind='f')
    S = Solver(E, m, n)
    blur = E.choice('blur', [True, False])
    if E.choice('how', ['direct', 'config']) == 'direct':
        chi2 = E.choice('chi2', [True, False])
        got = m.max_ent(mat=M.a, v_real=w.a, beta=beta, n_fit=nfit, alpha_det_method='chi2kink', err=err, use_preblur=blur, bw=bw, return_chi2=chi2)
        if chi2:
            E.true('chi2', got[1] == 1)
            got = got[0]
    else:
        got, c2 = m.max_ent_loc(M.a, Obj(mesh=w.a, beta=beta, n_fit=nfit, alpha_det_method='chi2kink', err=err, use_preblur=blur), bw)
        E.true('chi2', c2 == 1)
    if len(S.calls) != 1:
        raise Missing('AnalyticContinuationProblem')
    c = S.calls[0]
    used = E.min(nfit, niv)
    E.eq('positive frequencies, as many as requested and available', c['im_data'], (used,), lambda k: M(niv + k))
    E.eq('their values', c['im_axis'], (used,), lambda k: E.pi * (2 * k + 1) / beta)
    E.eq('errors', c['solve']['stdev'], (used,), lambda k: err)
    E.eq('completed spectrum', got, (n,), lambda k: 7 * c['A'](k))
    E.true('settings', c['solve']['preblur'] is blur and c['solve']['alpha_determination'] == 'chi2kink' and c['kernel_mode'] == 'freq_fermionic')
    E.scalar('blur width', c['solve']['blur_width'], bw)
    E.eq('mesh', c['re_axis'], (n,), lambda k: w(k))
    E.unchanged('frame', M, w)


@contract('C23', [f'{A}.MaxEnt.__init__', f'{A}.MaxEnt.set_w_mesh'], reps=60)
def settings(E):
    m = E.mod(A)
    kernel = E.choice('kernel', ['freq_fermionic', 'freq_bosonic'])
    n = E.int('nwr', lo=3, cmax=9)
    hi = E.real('wmax', pos=True)
    lo = E.choice('wmin', [-15, -2.5, 0.0, 0.5])
    bw = E.choice('bw', [0.0, 0.1])
    force = E.choice('force', [False, True])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        me = m.MaxEnt(E.real('beta', pos=True), kernel, comm=Obj(rank=0, size=1), me_config=dict(mesh_type='linear', wmin=lo, nwr=3),
                      wmax=hi, nwr=n, bw=bw, force_preblur=force)
    low = 0.0 if kernel == 'freq_bosonic' and lo < 0 else lo
    E.eq('mesh', me.w, (n,), lambda k: low + k * ((hi - low) / (n - 1)))
    E.true('blur', bool(me.use_preblur) == (bw != 0 and (kernel == 'freq_fermionic' or force)))
    E.true('kernel', me.kernel_mode == kernel)
    E.raises('unknown kernel', AssertionError, lambda: m.MaxEnt(1.0, E.choice('bad', ['freq', 'fermionic', 'time_bosonic']), comm=Obj(rank=0, size=1)))


def same_mesh(E, label, got, want):
    import numpy
    if isinstance(got, numpy.ndarray) and isinstance(want, numpy.ndarray):
        return E.true(label, got.shape == want.shape and bool(numpy.allclose(got, want, rtol=1e-12)))
    if isinstance(got.shape[0], int) and got.shape[0] > 64:
        E.true(label + ': size', got.shape == want.shape)
        for j in (0, 1, 250, 251, 499, 500):
            E.scalar(f'{label}: point {j}', got[j], want[j])
        return
    E.same(label, got, want)


@contract('C23', ['config.MaxEntConfig.__init__', 'config.MaxEntConfig.mesh_type', 'config.MaxEntConfig.get_omega_mesh',
                  'config.MaxEntConfig.get_n_fit_opt', 'config.MaxEntConfig.get_bw_opt'], reps=40)
def configured_mesh(E):
    c = E.mod('config')
    a = E.mod(A)
    n, hi = E.int('nwr', lo=3, cmax=9), E.real('wmax', pos=True)
    beta = E.choice('beta', [1.0, 12.5, 40.0])
    given = E.choice('given', ['all', 'size', 'kind', 'nothing'])
    kind = E.choice('kind', ['linear', 'tan', 'hyperbolic', 'lorentzian'])
    cfg = {'all': dict(nwr=n, wmax=hi, mesh_type=kind, cut=0.1), 'size': dict(nwr=n, wmax=hi), 'kind': dict(mesh_type=kind), 'nothing': {}}[given]
    me = c.MaxEntConfig(1, beta, cfg)
    k_, h_, n_, c_ = cfg.get('mesh_type', 'tan'), cfg.get('wmax', 15), cfg.get('nwr', 501), cfg.get('cut', 0.04)
    same_mesh(E, 'mesh', me.mesh, a.get_w_mesh(k_, -h_, h_, n_, c_))
    me.mesh_type = 'linear'
    same_mesh(E, 'mesh changed afterwards', me.mesh, a.get_w_mesh('linear', -h_, h_, n_, c_))
    E.true('default number of frequencies', me.n_fit == int(beta * 3 + 10))
    E.true('bounded estimate', me.get_n_fit_opt(5, 60) == min(max(5, int(beta * 4)), 60))
    E.scalar('blur estimate', me.get_bw_opt(), E.pi / beta)


@contract('C23', [f'{A}.get_gamma_bandshift_z', f'{A}.extract_coeff_on_ind', f'{A}.extract_coefficient_imaxis', f'{A}.poly_extrap_0',
                  f'{A}.poly_der_extrap_0', f'{A}.check_filling'], sym=False, reps=80, bounded='least-squares fits of numpy, sampled polynomials')
def extrapolation_to_zero_frequency(E):
    """exact for polynomials of at most the fitted order, momentum by momentum"""
    np, rng, nr = E.np, E.rng, E.nprng
    m = E.mod(A)
    order, extra = rng.randint(1, 4), rng.randint(1, 4)
    nfit = order + extra
    nk, niv, beta = rng.randint(1, 5), nfit + rng.randint(0, 4), float(nr.uniform(5, 20))
    v = np.pi * (2 * np.arange(niv) + 1) / beta
    re = nr.uniform(-1, 1, (nk, order + 1))
    g = nr.uniform(0, 1, nk)
    lin = nr.uniform(-3, .5, nk)
    S = sum(re[:, [p]] * v ** p for p in range(order + 1)) + 1j * (-g[:, None] * (rng.random() < .5) + lin[:, None] * v)
    g = -(S.imag - lin[:, None] * v)[:, 0]
    ind = list(nr.permutation(nk))[:rng.randint(1, nk)]
    b, gam, z = m.extract_coeff_on_ind(S, ind, v, n_fit=nfit, order=order)
    E.true('real part at zero', b.shape == (len(ind),) and bool(np.allclose(b, re[ind, 0], atol=1e-5)))
    E.true('minus imaginary part at zero', bool(np.allclose(gam, g[ind], atol=1e-5)))
    E.true('quasiparticle weight within bounds', bool(np.all((z > 0) & (z <= 1))))
    ok = g[ind] == 0
    E.true('quasiparticle weight', bool(np.allclose(z[ok], np.clip(1 / (1 - lin[ind]), 0, 1)[ok], atol=1e-4)))
    c = nr.uniform(-1, 1, order + 1)
    E.true('derivative at zero', abs(m.poly_der_extrap_0(v, np.polyval(c, v), order, nfit) - c[-2]) < 1e-4)
    w = np.linspace(-20, 20, 8001)
    a = m.gauss_peak(rng.choice([-3., -6.]), .5, 1.0, w)
    n = m.check_filling(w, -1j * np.pi * a)
    E.true('occupied spectrum gives two electrons', abs(n - 2) < 1e-3)


SECTIONS = [('s_dga', 'MaxEntSiwk/swk_dga'), ('g_dga', 'MaxEntGiwk/gwk_dga'), ('chi_d', 'MaxEntChiDens/chi_dens'), ('chi_m', 'MaxEntChiMagn/chi_magn')]


def level(d):
    return d[0].real * 3.7 + d[0].imag * 1.3


def spectrum(d, n):
    """what the stand-in of the continuation package returns for the data d: depends on every number"""
    x, k = np.arange(n), np.arange(len(d))[:, None]
    return (np.real(d)[:, None] * np.cos(k + x) + np.imag(d)[:, None] * np.sin((k + 1) * (x + 1))).sum(0)


@contract('C23', ['dga_max_ent.main', f'{A}.mpi_ana_cont', f'{A}.MaxEnt.analytic_continuation', f'{A}.save_and_plot_cont_fermionic',
                  f'{A}.save_and_plot_cont_bosonic', f'{A}.max_ent_loc_bw_range', f'{A}.max_ent', 'mpi_aux.MpiDistributor.scatter', 'mpi_aux.MpiDistributor.gather'], sym=False, reps=10,
          bounded='whole runs of the program on synthetic data: grids up to 16 momenta, boxes up to 6 frequencies, 3 processes')
def continuation_of_a_whole_run(E):
    """each momentum of each quantity is continued from its own data, whatever the grids, the symmetries and the number of processes"""
    m, dme, tp = E.mod(A), wholerun.mod('dga_max_ent'), wholerun.mod('two_point')
    i = wholerun.draw(E, least=(0, 1), size=((4, 4, 1), (4, 2, 1), (2, 2, 2)), corr=('spch', 'none'))
    nwr, wmax, fails = E.int('nw', lo=3, cmax=6), float(E.nprng.uniform(2, 6)), E.choice('failures', [False, True])
    me = {'nwr': nwr, 'wmax': wmax, 'wmin': -wmax, 'mesh_type': 'linear', 'bw': E.choice('bw', [0.0, 0.05]), 'n_fit': E.int('n_fit', lo=1, cmax=6)}
    nfit = {}
    for k, _ in SECTIONS:
        how = E.choice(k, ['absent', 'off', 'on', 'on', 'own'])
        nfit[k] = None if how in ('absent', 'off') else me['n_fit'] if how == 'on' else E.int(f'n_fit of {k}', lo=1, cmax=6)
        if how != 'absent':
            me[k] = {'do_cont': how != 'off', **({'n_fit': nfit[k]} if how == 'own' else {})}
    loc = not fails and E.choice('local', [False, True])
    if loc:
        me['loc'] = {'do_cont': True}
    seen = []

    def refuses(d):
        return fails and int(np.floor(level(d))) % 3 == 0

    def problem(im_axis=None, re_axis=None, im_data=None, kernel_mode=None, beta=None):
        seen.append((kernel_mode, im_axis, re_axis, len(im_data), beta))

        def solve(**k):
            if refuses(im_data):
                raise RuntimeError('no solution')
            return Obj(A_opt=spectrum(im_data, len(re_axis)), chi2=1.0), [None]
        return Obj(solve=solve)
    E.patch(m, 'cont', Obj(AnalyticContinuationProblem=problem, GreensFunction=lambda spectrum=None, wgrid=None, kind=None: Obj(kkt=lambda: (2 - 3j) * spectrum)))
    for f in ('plot_real_frequency_dispersion', 'plot_chi_along_kpath', 'plot_opt_cond'):
        E.patch(wholerun.mod('high_level_plotting'), f, wholerun.nothing)
    green = []

    def real_gf(w, swk, ek, mu=None, n=None, deltino=0.0):
        green.append((w, swk, ek, n))
        return Obj(gwk=lambda: swk + 1, w=w)
    E.patch(tp, 'RealFrequencyGF', real_gf)
    E.patch(wholerun.mod('optics'), 'vec_get_sigma_bub_realf', lambda *a, **k: (np.zeros(2), np.zeros(2)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = wholerun.run(E, i, extra={'max_ent': me})
    s = wholerun.load(d, 'siwk_dga')
    sig = tp.SelfEnergy(sigma=s, beta=i.beta)
    n = i.nv + i.s
    data = {'s_dga': s, 'g_dga': tp.GreensFunction(sig, i.ek, n=i.n, niv_asympt=n).g_full(),
            'chi_d': wholerun.load(d, 'chi_dens_lam'), 'chi_m': wholerun.load(d, 'chi_magn_lam')}
    for k, name in SECTIONS:
        x = data[k]
        f = k in ('s_dga', 'g_dga')
        if nfit[k] is None:
            E.true(f'{k}: not asked for', not os.path.exists(f'{d}{name}_cont_fbz.npy'))
            continue
        if k == 's_dga':  # beyond the box: the tail of the self-energy
            x = sig.get_siw(max(nfit[k], n)) - sig.smom0
        h = x.shape[-1] // 2
        used = x[..., h:h + min(nfit[k], h) + (not f)]
        v = np.array([level(y) for y in used.reshape(-1, used.shape[-1])])
        E.assume(not fails or bool(np.min(abs(v - np.round(v))) > 1e-6))
        want = np.zeros(x.shape[:3] + (nwr,), dtype=complex if f else float)
        for p in np.ndindex(*x.shape[:3]):
            if not refuses(used[p]):
                want[p] = spectrum(used[p], nwr) * ((2 - 3j) if f else np.pi / 2)
        if k == 's_dga':
            want = want + sig.smom0
            E.true('one real-frequency propagator', len(green) == 1)
            E.same('propagator of the continued self-energy', green[0][1], want, tol=1e-7)
            E.same('dispersion', green[0][2], i.ek, tol=1e-9)
            E.same('filling', green[0][3], i.n)
        E.same(f'{k}: spectra', wholerun.load(d, name + '_cont_fbz'), want, tol=1e-7)
        w = np.linspace(-wmax if f else 0, wmax, nwr)
        E.same(f'{k}: mesh', wholerun.load(d, name.split('/')[0] + '/w'), w)
    if loc:
        h = d + 'MaxEnt/'
        own = tp.GreensFunction(sig, i.ek, n=i.n, niv_asympt=n)
        for name, g in (('dmft', i.Gl), ('dga', own.g_full().mean((0, 1, 2)))):
            x = g[len(g) // 2:][:me['n_fit']]
            files = [f for f in os.listdir(h) if f.startswith(name + '_cont_bw')]
            E.true(f'{name}: one continuation per blur width', len(files) == 11)
            for f in files:
                E.same(f'{name}: local spectrum', np.load(h + f), spectrum(x, nwr) * (2 - 3j), tol=1e-7)
        E.same('local mesh', np.load(h + 'w.npy'), np.linspace(-wmax, wmax, nwr))
    for kernel, im, re, ln, beta in seen:
        b = kernel == 'freq_bosonic'
        E.same('imaginary axis', im, np.pi / i.beta * (2 * np.arange(ln) + (not b)), tol=1e-9)
        E.same('real axis', re, np.linspace(0 if b else -wmax, wmax, nwr), tol=1e-9)
        E.same('temperature', beta, i.beta)


@contract('C23', ['dga_io.poly_fit', 'dga_io.dga_poly_fit', 'dga_io.dmft_poly_fit', f'{A}.extract_coeff_on_ind', f'{A}.get_gamma_bandshift_z'],
          sym=False, reps=10, bounded='whole runs of the program on synthetic data: grids up to 16 momenta, boxes up to 6 frequencies, 3 processes')
def extrapolations_of_a_whole_run(E):
    """the extrapolation filed under a momentum is that of the data at this momentum, on every grid and for every symmetry"""
    i = wholerun.draw(E, least=(0, 1), size=((3, 3, 1), (4, 4, 1), (3, 4, 1), (5, 3, 1), (3, 3, 2), (2, 3, 3)), corr=('spch', 'none'), coarse=False)
    n = i.nv + i.s
    E.assume(n >= 2)
    order = E.int('order', lo=1, cmax=3)
    nfit = order + E.int('more points', lo=1, cmax=3)
    order = min(order, n - 1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = wholerun.run(E, i, extra={'poly_fitting': {'n_fit': nfit, 'o_fit': order}})
        s = wholerun.load(d, 'siwk_dga')
        p = wholerun.folder(d, 'PolyFits')
        # the polynomial through the lowest frequencies, evaluated at zero
        for name, x in (('Siwk_poly_cont_', s), ('Giwk_dga_poly_cont_', wholerun.load(d, 'giwk_dga')), ('Giwk_dmft_poly_cont_', i.G)):
            got = wholerun.load(p, name)
            h = x.shape[-1] // 2
            v = np.pi / i.beta * (2 * np.arange(h) + 1)[:nfit]
            y = x[..., h:h + nfit].reshape(-1, len(v))

            def at0(z):
                return np.polyfit(v, z.T, order)[-1].reshape(i.nk)
            E.same(f'{name}: real part', got['re_fs'], at0(y.real), tol=1e-7)
            E.same(f'{name}: minus imaginary part', got['im_fs'], -at0(y.imag), tol=1e-7)
            z = 1 / (1 - at0(y.imag / v))
            E.assume(bool(np.all(abs(z) > 1e-6)))
            z = np.clip(z, 0, 1)
            E.same(f'{name}: weight', got['Z'], np.where(z == 0, 1, z), tol=1e-7)
        v, y = i.iv.imag[i.N:i.N + nfit], i.siw[i.N:i.N + nfit]
        z = 1 / (1 - np.polyfit(v, y.imag / v, order)[-1])
        E.assume(abs(z) > 1e-6)
        want = [np.polyfit(v, y.real, order)[-1], -np.polyfit(v, y.imag, order)[-1], min(z, 1) if z > 0 else 1]
        E.same('local self-energy', np.loadtxt(p + 'Siw_DMFT_polyfit.txt'), np.array(want), tol=1e-5)
