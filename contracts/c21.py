"""C21 inferred run parameters are complete and mutually consistent."""
from contracts.c11 import Obj
from engine.env import Missing
from engine.reg import contract

C = 'config'
ASSUMPTIONS = ['names outside the supported ones are represented by a handful of unsupported strings',
               'KGrid and the tight-binding builders are used by their own contracts (C07, C08, C19) when a lattice is set up']


def given(E, name, key, cfg, lo=0, cmax=9):
    """a size that is given, left out, or explicitly marked as open; returns the value or None"""
    how = E.choice(name + ' is', ['given', 'omitted', 'open'])
    if how == 'given':
        v = E.int(name, lo=lo, cmax=cmax)
        cfg[key] = v
        return v
    if how == 'open':
        cfg[key] = -1
    return None


def data(E, cmax=8):
    """two-particle data with some number of frequencies"""
    v, w = E.int('data niv', lo=1, cmax=cmax), E.int('data niw', lo=0, cmax=cmax)
    wn = E.given('wn', (2 * w + 1,), lambda k: k - w, kind='i')
    return v, w, Obj(niv=v, wn=wn.a, niw=w)


@contract('C21', [f'{C}.BoxSizes.__init__', f'{C}.BoxSizes.set_from_lfp', f'{C}.BoxSizes.niv_full', f'{C}.BoxSizes.niv_pp',
                  f'{C}.ConfigBase.update_dict'], reps=120)
def sizes_completed_from_the_data(E):
    c = E.mod(C)
    v, w, lfp = data(E)
    cfg = {}
    core, bos = given(E, 'niv_core', 'niv_core', cfg, lo=1), given(E, 'niw_core', 'niw_core', cfg)
    shell = E.int('niv_shell', lo=0, cmax=6) if E.choice('shell given', [True, False]) else None
    if shell is not None:
        cfg['niv_shell'] = shell
    asy = given(E, 'niv_asympt', 'niv_asympt', cfg, lo=1, cmax=40)
    if core is not None:
        E.assume(core <= v)
    if bos is not None:
        E.assume(bos <= w)
    b = c.BoxSizes(cfg) if cfg or E.choice('empty', [True, False]) else c.BoxSizes()
    b.set_from_lfp(lfp)
    core, bos, shell = v if core is None else core, w if bos is None else bos, 0 if shell is None else shell
    E.scalar('niv_core', b.niv_core, core)
    E.scalar('niw_core', b.niw_core, bos)
    E.scalar('niv_shell', b.niv_shell, shell)
    E.scalar('niv_full is core plus shell', b.niv_full, core + shell)
    E.scalar('niv_asympt', b.niv_asympt, core + shell + 2 * bos if asy is None else asy)
    E.scalar('niv_pp', b.niv_pp, E.min(core // 2, bos // 2))
    E.true('the core fits into the data', b.niv_core <= v)
    E.true('the bosonic core fits into the data', b.niw_core <= w)


@contract('C21', [f'{C}.BoxSizes.__init__', f'{C}.BoxSizes.set_from_lfp'], reps=60)
def sizes_beyond_the_data_are_rejected(E):
    c = E.mod(C)
    v, w, lfp = data(E)
    which = E.choice('too large', ['niv_core', 'niw_core'])
    cfg = {which: E.int('requested', lo=1, cmax=20)}
    E.assume(cfg[which] > (v if which == 'niv_core' else w))
    if E.choice('other given', [True, False]):
        other = {'niv_core': 'niw_core', 'niw_core': 'niv_core'}[which]
        cfg[other] = E.int('other', lo=1, cmax=8)
        E.assume(cfg[other] <= (v if other == 'niv_core' else w))
    b = c.BoxSizes(cfg)
    E.raises('rejected', ValueError, lambda: b.set_from_lfp(lfp))


@contract('C21', [f'{C}.BoxSizes.__init__', f'{C}.BoxSizes.niv_full', f'{C}.BoxSizes.vn_full', f'{C}.BoxSizes.wn',
                  'matsubara_frequencies.wn'], reps=60)
def sizes_known_from_the_start(E):
    """with both core sizes given everything is complete before any data are read"""
    c = E.mod(C)
    core, bos, shell = E.int('niv_core', lo=1, cmax=9), E.int('niw_core', lo=0, cmax=9), E.int('niv_shell', lo=0, cmax=9)
    cfg = dict(niv_core=core, niw_core=bos, niv_shell=shell)
    asy = given(E, 'niv_asympt', 'niv_asympt', cfg, lo=1, cmax=40)
    b = c.BoxSizes(cfg)
    E.scalar('niv_full', b.niv_full, core + shell)
    E.scalar('niv_asympt', b.niv_asympt, core + shell + 2 * bos if asy is None else asy)
    E.eq('bosonic axis', b.wn, (2 * bos + 1,), lambda k: k - bos)
    E.eq('fermionic axis', b.vn_full, (2 * (core + shell),), lambda k: k - core - shell)


@contract('C21', [f'{C}.OpticsConfig.__init__', f'{C}.OpticsConfig.set_frequency_ranges', f'{C}.OpticsConfig.wn_cond',
                  f'{C}.OpticsConfig.wn_vert', f'{C}.OpticsConfig.wn_bubble'], reps=150)
def optics_ranges(E):
    c = E.mod(C)
    core, bos, asy = E.int('niv_core', lo=1, cmax=9), E.int('niw_core', lo=0, cmax=9), E.int('niv_asympt', lo=1, cmax=40)
    cfg = {}
    wv, wc = given(E, 'niw_vert', 'niw_vert', cfg), given(E, 'niw_cond', 'niw_cond', cfg)
    vb, wb = given(E, 'niv_bubble', 'niv_bubble', cfg, lo=1, cmax=30), given(E, 'niw_bubble', 'niw_bubble', cfg, cmax=30)
    if wv is not None:
        E.assume(wv <= bos)
    if wc is not None:
        E.assume(wc < core)
    o = c.OpticsConfig(cfg)
    box = Obj(niv_core=core, niw_core=bos, niv_asympt=asy)
    o.set_frequency_ranges(Obj(box=box))
    E.scalar('niw_vert', o.niw_vert, bos if wv is None else wv)
    if wc is None:
        E.true('niw_cond fits', o.niw_cond < core)
        E.true('niw_cond is at most half the bosonic core', 2 * o.niw_cond <= bos)
        E.true('niw_cond is half the bosonic core where that fits',
               E.ite(bos // 2 < core, lambda: o.niw_cond == bos // 2, lambda: o.niw_cond == core - 1))
    else:
        E.scalar('niw_cond', o.niw_cond, wc)
    E.scalar('niv_vert leaves room for the transfer', o.niv_vert, core - o.niw_cond)
    E.true('some vertex frequencies are left', o.niv_vert >= 1)
    E.scalar('niw_bubble', o.niw_bubble, o.niw_cond if wb is None else wb)
    E.scalar('niv_bubble', o.niv_bubble, asy - 2 * o.niw_cond if vb is None else vb)
    E.true("the bubble fits into the Green's function", o.niv_bubble + o.niw_bubble <= box.niv_asympt)
    E.true("the Green's function is never shortened", box.niv_asympt >= asy)
    E.scalar("the Green's function grows exactly as needed", box.niv_asympt, E.max(asy, o.niv_bubble + o.niw_bubble))
    E.eq('axis', o.wn_cond(), (2 * o.niw_cond + 1,), lambda k: k - o.niw_cond)
    E.eq('vertex axis', o.wn_vert(), (2 * o.niw_vert + 1,), lambda k: k - o.niw_vert)
    E.eq('bubble axis', o.wn_bubble(), (2 * o.niw_bubble + 1,), lambda k: k - o.niw_bubble)


@contract('C21', [f'{C}.OpticsConfig.set_frequency_ranges'], reps=40)
def optics_ranges_out_of_reach_are_rejected(E):
    c = E.mod(C)
    core, bos, asy = E.int('niv_core', lo=1, cmax=9), E.int('niw_core', lo=0, cmax=9), E.int('niv_asympt', lo=1, cmax=40)
    which = E.choice('too large', ['niw_vert', 'niw_cond'])
    n = E.int('requested', lo=0, cmax=20)
    E.assume(n > bos if which == 'niw_vert' else n >= core)
    o = c.OpticsConfig({which: n})
    E.raises('rejected', AssertionError, lambda: o.set_frequency_ranges(Obj(box=Obj(niv_core=core, niw_core=bos, niv_asympt=asy))))


@contract('C21', [f'{C}.BoxSizes.set_from_lfp', f'{C}.OpticsConfig.set_frequency_ranges'], reps=80)
def optics_inside_inferred_boxes(E):
    """box sizes and optics ranges inferred one after the other are non-empty and consistent"""
    c = E.mod(C)
    v, w, lfp = data(E)
    b = c.BoxSizes({'niv_shell': E.int('shell', lo=0, cmax=5)})
    b.set_from_lfp(lfp)
    before = b.niv_asympt
    o = c.OpticsConfig()
    o.set_frequency_ranges(Obj(box=b))
    E.true('vertex frequencies', o.niv_vert >= 1)
    E.true('bubble frequencies', o.niv_bubble >= 1)
    E.true('vertex transfer', o.niw_vert <= b.niw_core)
    E.scalar('the tail is not touched', b.niv_asympt, before)


BUILT_IN = {'two_dimensional_square': 'two_dimensional_square_symmetries',
            'quasi_one_dimensional_square': 'quasi_one_dimensional_square_symmetries',
            'simultaneous_x_y_inversion': 'simultaneous_x_y_inversion'}


class Bare(Obj):
    pass


@contract('C21', [f'{C}.LatticeConfig.check_symmetries'], reps=40)
def symmetry_names(E):
    c = E.mod(C)
    known = [str(s) for s in c.bz.KNOWN_SYMMETRIES]
    kind = E.choice('kind', list(BUILT_IN) + ['none', 'empty list', 'empty tuple', 'empty string', 'None', 'known tuple', 'known list', 'unknown',
                                              'unknown tuple', 'unknown last', 'unknown list', 'number'])
    lat = object.__new__(c.LatticeConfig)

    def check(value):
        lat.symmetries = value
        lat.check_symmetries()
        return lat.symmetries

    if kind in BUILT_IN:
        got = check(kind)
        E.true('expanded', tuple(got) == tuple(getattr(c.bz, BUILT_IN[kind])()))
        E.true('known', all(s in c.bz.KNOWN_SYMMETRIES for s in got))
    elif kind == 'none' or kind.startswith('empty') or kind == 'None':
        v = {'none': 'none', 'empty list': [], 'empty tuple': (), 'empty string': '', 'None': None}[kind]
        E.true('no symmetry', not check(v))
    elif kind in ('known tuple', 'known list'):
        n = E.choice('how many', [1, 2, len(known)])
        E.true('kept', tuple(check((tuple if kind == 'known tuple' else list)(known[:n]))) == tuple(known[:n]))
    else:
        v = {'unknown': E.choice('name', ['two_dimensional_squar', 'cubic', 'Two_dimensional_square', 'None']),
             'unknown tuple': ('x-inv', 'rotation'), 'unknown last': tuple(known) + ('w-inv',), 'unknown list': [known[0], 'rotation'],
             'number': 3}[kind]
        E.raises('rejected', NotImplementedError, lambda: check(v))


@contract('C21', [f'{C}.LatticeConfig.__init__', f'{C}.LatticeConfig.set_hr', f'{C}.LatticeConfig.nk_tot',
                  f'{C}.LatticeConfig.nq_tot'], reps=60)
def lattice_defaults(E):
    """grids of the requested sizes, the bosonic one defaulting to the fermionic one, and the requested Hamiltonian"""
    c = E.mod(C)
    how = E.choice('nq', ['absent', 'contained', 'not contained'])
    if how == 'absent':
        nk = nq = tuple(E.int(f'nk{i}', lo=1, cmax=4) for i in range(3))
    else:
        f = tuple(E.int(f'factor{i}', lo=1, cmax=3) for i in range(3))
        nq = E.choice('sizes of the bosonic grid', [(1, 1, 1), (2, 2, 1), (4, 3, 2), (1, 6, 3)])
        nk = tuple(x * y for x, y in zip(f, nq))
        if how == 'not contained':
            a = E.choice('direction', [i for i in range(3) if nq[i] > 1] or [0])
            r = 0 if nq[a] == 1 else E.int('offset', lo=1, cmax=nq[a] - 1)
            E.assume(r < nq[a])
            nk = tuple(x - r * (i == a) for i, x in enumerate(nk))
            if nq[a] == 1:
                nq = tuple(x + 1 if i == a else y for i, (x, y) in enumerate(zip(nk, nq)))
    kind = tuple if E.choice('nk as', ['tuple', 'list']) == 'tuple' else list
    sy = E.choice('symmetries', ['two_dimensional_square', 'quasi_one_dimensional_square', 'simultaneous_x_y_inversion', 'none', (),
                                 ('x-inv', 'z-inv')])
    cfg = dict(nk=kind(nk), symmetries=sy)
    if how != 'absent':
        cfg['nq'] = kind(nq)
    grids, hams, models = [], [], []

    class KGrid:
        def __init__(self, nk=None, symmetries=()):
            grids.append((nk, symmetries))
            self.nk, self.symmetries = nk, symmetries
    E.patch(c.bz, 'KGrid', KGrid)
    hop = [E.real('t'), E.real('tp'), E.real('tpp')]
    cfg.update(type='t_tp_tpp', hr_input=list(hop))
    E.patch(c.wannier, 'WannierHr', lambda *a, **k: hams.append((a, k)) or ('H', len(hams)))
    E.patch(c.wannier, 'wannier_one_band_2d_t_tp_tpp', lambda *a: models.append(a) or ('hr', 'grid', 'weights', 'orbitals'))
    if how == 'not contained':
        E.raises('momenta k+q outside of the fermionic grid', ValueError, lambda: c.LatticeConfig(cfg))
        return
    lat = c.LatticeConfig(cfg)
    if len(grids) != 2 or len(hams) != 1:
        raise Missing('LatticeConfig builds its grids from KGrid and WannierHr')
    sy = () if sy == 'none' else tuple(getattr(c.bz, BUILT_IN[sy])()) if isinstance(sy, str) else sy
    for name, grid, n in (('k', lat.k_grid, nk), ('q', lat.q_grid, nq)):
        E.true(f'{name} symmetries', tuple(grid.symmetries) == sy)
        for i in range(3):
            E.scalar(f'n{name}{i}', tuple(grid.nk)[i], n[i])
    for i in range(3):
        E.scalar(f'nk{i}', lat.nk[i], nk[i])
        E.scalar(f'nq{i}', lat.nq[i], nq[i])
    E.scalar('nk_tot', lat.nk_tot, nk[0] * nk[1] * nk[2])
    E.scalar('nq_tot', lat.nq_tot, nq[0] * nq[1] * nq[2])
    if len(models) != 1:
        raise Missing('the built-in model comes from wannier_one_band_2d_t_tp_tpp')
    E.true('all parts of the Hamiltonian', hams[0] == (('hr', 'grid', 'weights', 'orbitals'), {}))
    for name, got, h in zip(('t', 'tp', 'tpp'), models[0], hop):
        E.scalar(name, got, h)


@contract('C21', [f'{C}.LatticeConfig.__init__', f'{C}.LatticeConfig.set_hr', f'{C}.LatticeConfig.get_ek'], reps=30)
def lattice_types(E):
    c = E.mod(C)
    case = E.choice('type', ['missing', 'None', 'unknown', 'bad symmetry', 'file name of the wrong type'])
    cfg = dict(nk=(2, 2, 1), symmetries=(), hr_input=[1.0, -0.2, 0.1])
    if case != 'missing':
        cfg['type'] = {'None': None, 'unknown': E.choice('name', ['t_tp', 'T_TP_TPP', 'wannier90', '']), 'bad symmetry': 't_tp_tpp',
                       'file name of the wrong type': 'from_wannier90'}[case]
    if case == 'bad symmetry':
        cfg['symmetries'] = 'hexagonal'
    err = {'missing': ValueError, 'None': ValueError, 'unknown': NotImplementedError, 'bad symmetry': NotImplementedError,
           'file name of the wrong type': AssertionError}[case]
    E.raises('rejected', err, lambda: c.LatticeConfig(cfg))


@contract('C21', [f'{C}.DgaConfig.__init__', f'{C}.DgaConfig.build_box_sizes', f'{C}.DgaConfig.build_lattice_conf',
                  f'{C}.DgaConfig.build_eliash_conf', f'{C}.DgaConfig.build_optics_conf', f'{C}.DgaConfig.build_debug_conf',
                  f'{C}.LatticeConfig.get_ek'], sym=False, bounded='real grids up to 4x4x2 and 12 processes', reps=40)
def whole_configuration(E):
    import numpy as np
    c = E.mod(C)
    rng = E.rng
    nk = (rng.choice([1, 2, 4]), rng.choice([1, 2, 4]), rng.choice([1, 2]))
    lat = dict(nk=list(nk), type='t_tp_tpp', hr_input=[1.0, -0.2, 0.1],
               symmetries=rng.choice(['two_dimensional_square' if nk[0] == nk[1] else 'none', 'quasi_one_dimensional_square', 'none']))
    cfg = {'lattice': dict(lat)}
    for sec, key, val in (('box_sizes', 'niv_core', 7), ('box_sizes', 'niw_core', 5), ('box_sizes', 'niv_shell', 3), ('pairing', 'n_eig', 5),
                          ('pairing', 'k_sym', 'd-wave'), ('optics', 'niw_cond', 4), ('optics', 'do_bubble', True),
                          ('debug', 'keep_rank_files', True), ('dmft_input', 'fname_1p', 'a.hdf5'), ('dmft_input', 'do_sym_v_vp', False),
                          ('output', 'save_fq', True), ('dga', 'lambda_corr', 'none'), ('poly_fitting', 'n_fit', 6)):
        if rng.random() < 0.5:
            cfg.setdefault(sec, {})[key] = val
    size = rng.choice([1, 2, 3, 5, 8, 12])
    comm = rng.choice([None, Obj(size=size, rank=0)])
    irr = c.bz.KGrid(tuple(nk), _expanded(c, lat['symmetries'])).nk_irr
    if comm is not None and size > irr:
        E.raises('more processes than irreducible momenta', ValueError, lambda: c.DgaConfig(cfg, comm=comm))
        return
    d = c.DgaConfig(cfg, comm=comm)
    got = {'box_sizes': d.box, 'pairing': d.eliash, 'optics': d.optics, 'debug': d.debug, 'dmft_input': d, 'output': d, 'dga': d,
           'poly_fitting': d}
    for sec, obj in got.items():
        for key, val in cfg.get(sec, {}).items():
            E.true(f'{sec}.{key}', getattr(obj, key) == val)
    E.true('poly fits only on request', bool(d.do_poly_fitting) == ('poly_fitting' in cfg))
    E.true('grid', tuple(d.lattice.k_grid.nk) == tuple(nk))
    E.true('bosonic grid', tuple(d.lattice.q_grid.nk) == tuple(nk))
    ek = np.asarray(d.lattice.get_ek())
    kx, ky = 2 * np.pi * np.arange(nk[0]) / nk[0], 2 * np.pi * np.arange(nk[1]) / nk[1]
    want = -2 * 1.0 * (np.cos(kx)[:, None] + np.cos(ky)) + 4 * 0.2 * np.cos(kx)[:, None] * np.cos(ky) - 2 * 0.1 * (
        np.cos(2 * kx)[:, None] + np.cos(2 * ky))
    E.true('dispersion', ek.shape == tuple(nk) and np.allclose(ek, want[:, :, None], atol=1e-9))
    E.raises('lattice section is needed', ValueError, lambda: c.DgaConfig({k: v for k, v in cfg.items() if k != 'lattice'}, comm=comm))


def _expanded(c, s):
    return () if s == 'none' else getattr(c.bz, BUILT_IN[s])()


@contract('C21', [f'{C}.EliashbergConfig.__init__', f'{C}.EliashbergConfig.set_gap0', f'{C}.EliashbergConfig.set_gap0_sing',
                  f'{C}.EliashbergConfig.set_gap0_trip'], reps=10)
def gap_symmetries(E):
    """singlet: even under joint inversion of momentum and frequency; triplet: odd"""
    c = E.mod(C)
    k = E.choice('k_sym', ['d-wave', 'p-wave-x', 'p-wave-y', 'random'])
    e = c.EliashbergConfig({'k_sym': k})
    par = {'even': 1, 'odd': -1, 'random': 0}
    kpar = {'d-wave': 1, 'p-wave-x': -1, 'p-wave-y': -1, 'random': 0}[k]
    E.true('singlet momentum dependence', e.gap0_sing['k'] == k)
    E.true('triplet momentum dependence', e.gap0_trip['k'] == k)
    E.true('singlet is even', par[e.gap0_sing['v']] * kpar == abs(kpar))
    E.true('triplet is odd', par[e.gap0_trip['v']] * kpar == -abs(kpar))


@contract('C21', [f'{C}.get_dmft_input_config_from_dict', f'{C}.DmftInput.__init__', f'{C}.DgaConfig.set_system_parameter'], reps=20)
def system_parameters(E):
    c = E.mod(C)
    n = E.int('niv', lo=1, cmax=4)
    g, s = E.array('giw', (2 * n,)), E.array('siw', (2 * n,))
    d = dict(n=E.real('n'), beta=E.real('beta', pos=True), u=E.real('u'), mu_dmft=E.real('mu'), giw=g.a, siw=s.a)
    obj = object.__new__(c.DgaConfig)
    obj.set_system_parameter(d)
    for o, tag in ((obj.sys, 'set'), (c.get_dmft_input_config_from_dict(d), 'from dict')):
        for k in ('n', 'beta', 'u', 'mu_dmft'):
            E.scalar(f'{k} {tag}', getattr(o, k), d[k])
        E.eq(f'giw {tag}', o.giw, (2 * n,), lambda k: g(k))
        E.eq(f'siw {tag}', o.siw, (2 * n,), lambda k: s(k))
