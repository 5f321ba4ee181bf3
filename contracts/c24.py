"""C24 impurity-solver data are read and symmetrised without losing components."""
import contextlib
import io
import os
import shutil
import tempfile

from contracts.c11 import Obj
from engine.env import Missing
from engine.reg import contract

W, S, D = 'w2dyn_aux_dga', 'symmetrize', 'dga_io'
TRUSTED = ['h5py.File/Dataset/Group: opening a path that was stored returns what was stored there, an unknown path raises KeyError, '
           'membership tells whether it was stored (a stand-in file with that behaviour takes its place in the symbolic runs; '
           'the bounded contracts use real files)']


def silent(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class Data:
    """one dataset"""

    def __init__(self, a):
        self.a = a

    shape = property(lambda s: s.a.shape)
    dga_array = property(lambda s: s.a)

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)
    dtype = property(lambda s: s.a.dtype)

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self.a.copy() if hasattr(self.a, 'copy') else self.a
        return self.a[k].copy() if hasattr(self.a[k], 'copy') else self.a[k]

    def __setitem__(self, k, v):
        self.a[k] = v


class File:
    """a file that holds what find(path) says; writes go to a dictionary"""

    def __init__(self, find, attrs=None):
        self.find, self.attrs, self.new, self.log, self.open = find, attrs, {}, [], True

    def key(self, p):
        return p.strip('/')

    def __getitem__(self, p):
        p = self.key(p)
        if p == '.config' and self.attrs is not None:
            return Obj(attrs=Attrs(self.attrs))
        if p in self.new:
            return self.new[p]
        x = self.find(p)
        if x is None:
            raise KeyError(p)
        return x

    def __setitem__(self, p, v):
        self.new[self.key(p)] = v if isinstance(v, (Data, Obj)) else Data(v)

    def __contains__(self, p):
        return self.find(self.key(p)) is not None or self.key(p) in self.new

    def create_group(self, p):
        return Group(self, p)

    def copy(self, p, to):
        self.log.append(('copy', p, to))

    def close(self):
        self.open = False


class Attrs:
    def __init__(self, find):
        self.find = find

    def __getitem__(self, k):
        x = self.find(k)
        if x is None:
            raise KeyError(k)
        return x


class Group:
    def __init__(self, f, path):
        self.f, self.path = f, path

    def create_group(self, p):
        return Group(self.f, f'{self.path}/{p}')

    def __setitem__(self, p, v):
        self.f[f'{self.path}/{p}'] = v


class Keys:
    """a group of which only the names matter"""

    def __init__(self, names):
        self.names = names

    def keys(self):
        return self.names

    def __iter__(self):
        return iter(self.names)

    def __len__(self):
        return len(self.names)


def serve(E, module, files):
    """module.h5py opens the given files"""
    log = []

    def open_(name, mode='r', **k):
        log.append((name, mode))
        if name not in files:
            raise FileNotFoundError(name)
        return files[name]
    E.patch(module, 'h5py', Obj(File=open_))
    return log


def vertex_file(E, G, count, ineq, sb, channel='dens'):
    """file of the bosonic frequencies 0 ... count-1 of one component, G(wn, column, row)"""
    def find(p):
        parts = p.split('/')
        if len(parts) != 5 or parts[4] != 'value' or parts[1] != channel or not parts[0].startswith('ineq-'):
            return None
        a, w, b = E.number(parts[0][5:], 3), E.number(parts[2], 5), E.number(parts[3], 5)
        if a is None or w is None or b is None or not (a == ineq) or not (b == sb) or not (w < count):
            return None
        return Data(G.a[w])
    return File(find)


def stored(E):
    count, nv = E.int('stored frequencies', lo=0, cmax=7), E.int('fermionic', lo=1, cmax=4)
    ineq, sb = E.int('atom', lo=1, cmax=3), E.int('component', lo=1, cmax=16)
    G = E.array('G', (count, nv, nv))
    return count, nv, ineq, sb, G, vertex_file(E, G, count, ineq, sb)


@contract('C24', [f'{W}.W2dynG4iwFile.read_g2', f'{W}.W2dynG4iwFile.open', f'{W}.W2dynG4iwFile.__init__'], reps=60)
def selected_frequencies_are_read_in_order(E):
    m = E.mod(W)
    count, nv, ineq, sb, G, f = stored(E)
    niw, niv = E.int('niw', lo=0, cmax=3), E.int('niv', lo=1, cmax=2)
    E.assume(2 * niw + 1 <= count)
    E.assume(2 * niv == nv)
    log = serve(E, m, {'g4iw.hdf5': f})
    got = m.W2dynG4iwFile('g4iw.hdf5').read_g2(ineq=ineq, channel='dens', niw=niw, niv=niv, spinband=sb)
    E.true('one file, only read', set(log) == {('g4iw.hdf5', 'r')})
    E.eq('transposed matrices', got, (2 * niw + 1, nv, nv), lambda w, a, b: G(w, b, a))


@contract('C24', [f'{W}.W2dynG4iwFile.read_g2_full'], reps=60)
def all_frequencies_are_read_in_order(E):
    """loop invariant: the list holds the transposed matrices of all earlier frequencies; it stops at the first that is not stored"""
    m = E.mod(W)
    count, nv, ineq, sb, G, f = stored(E)
    E.assume(count >= 1)
    serve(E, m, {'g4iw.hdf5': f})

    def arbitrary(_):
        wn = E.int('wn', lo=0)
        E.assume(wn <= count)
        more = E.choice('another one', [True, False])
        return dict(wn=wn, g2=E.list(wn, lambda j: G.a[j].T), group_exists=more)

    def invariant(v):
        wn, g2 = v['wn'], v['g2']
        size = len(g2) if isinstance(g2, list) else g2.n
        ok = size == 0 if isinstance(g2, list) else E.agrees(g2, (wn, nv, nv), lambda w, a, b: G(w, b, a))
        return [('bounds', wn >= 0), ('bounds', wn <= count), ('one entry per frequency', size == wn), ('entries', ok),
                ('stops only at the end', True if v['group_exists'] else wn == count)]
    used = E.loop(f'{W}.W2dynG4iwFile.read_g2_full', ('wn', 'g2', 'group_exists'), arbitrary, invariant)
    got = m.W2dynG4iwFile('g4iw.hdf5').read_g2_full(ineq=ineq, channel='dens', spinband=sb)
    used()
    E.eq('every stored frequency', got, (count, nv, nv), lambda w, a, b: G(w, b, a))


@contract('C24', [f'{W}.W2dynG4iwFile.get_niw', f'{W}.W2dynG4iwFile.read_g2_iw', 'matsubara_frequencies.cen2lin'], reps=60)
def number_of_frequencies(E):
    m = E.mod(W)
    count, nv, ineq, sb, G, f = stored(E)
    serve(E, m, {'g4iw.hdf5': f})
    used = E.loop(f'{W}.W2dynG4iwFile.get_niw', ('wn',), lambda _: dict(wn=E.int('wn', lo=0)), lambda v: [
        ('bounds', v['wn'] >= 0), ('bounds', v['wn'] <= count)])
    file = m.W2dynG4iwFile('g4iw.hdf5')
    got = file.get_niw(ineq=ineq, channel='dens', spinband=sb)
    used()
    E.scalar('positive frequencies', got, count // 2)
    niw = count // 2
    E.assume(count == 2 * niw + 1)
    k = E.choice('asked for', [1, 2, 3])
    p = [E.int(f'p{j}', lo=0, cmax=4) for j in range(k)]
    for j in p:
        E.assume(j < count)
    file.get_niw = lambda **q: niw
    got = file.read_g2_iw(ineq=ineq, channel='dens', spinband=sb, iw=E.np.array([j - niw for j in p]))
    E.eq('centred frequencies', got, (k, nv, nv), lambda w, a, b: sum(E.ite(w == j, lambda j=j: G(p[j], b, a), 0) for j in range(k)))


# ---- one-particle data of w2dynamics

def solver_file(E, full, atoms=1, sizes=None):
    """file of a calculation with one band per atom; returns the arrays"""
    niv = E.int('niv', lo=1, cmax=4)
    nb = E.int('bands', lo=1, cmax=2)
    A = {k: E.array(k, (nb, 2, 2 * niv)) for k in ('giw', 'siw', 'g0iw')}
    for k in ('giw', 'siw', 'g0iw', 'smom'):
        A[k + '-full'] = E.array(k + 'full', (nb, 2, nb, 2, 2 * niv))
    A['dc'] = E.array('dc', (nb, 2), kind='f')
    A['occ'] = E.array('occ', (nb, 2, nb, 2), kind='f')
    atom = E.int('atom', lo=1, cmax=3)
    it = E.choice('iteration', ['dmft-last', 'dmft-001', 'stat-002'])
    conf = {k: E.real(k, pos=True) for k in ('general.totdens', 'general.beta')}
    conf['qmc.niw'], mu = E.int('qmc.niw', lo=1, cmax=9), E.real('mu')
    udd = E.real('udd')
    lat = E.array('dc-latt', (nb, 2), kind='f')

    def find(p):
        parts = p.split('/')
        if parts == [it, 'mu', 'value']:
            return Data(mu)
        if parts == [it, 'dc-latt', 'value']:
            return Data(lat.a)
        if len(parts) != 4 or parts[0] != it or parts[3] != 'value' or not parts[1].startswith('ineq-'):
            return None
        a = E.number(parts[1][5:], 3)
        if a is None or not (a == atom) or parts[2] not in A or parts[2].endswith('full') and not full:
            return None
        return Data(A[parts[2]].a)

    def attrs(k):
        if k in conf:
            return conf[k]
        if k.startswith('atoms.') and k.endswith('.udd'):
            a = E.number(k[6:-4], 1)
            return udd if a is not None and (a == atom) else None
        return None
    return niv, nb, A, atom, it, conf, mu, udd, lat, File(find, attrs)


@contract('C24', [f'{W}.W2dynFile.{k}' for k in ('__init__', 'open', 'atom_group', 'get_siw', 'get_giw', 'get_g0iw', 'get_siw_full', 'get_giw_full',
                                                 'get_g0iw_full', 'get_smom_full', 'get_dc', 'get_dc_latt', 'get_occ', 'get_mu', 'get_udd',
                                                 'get_beta', 'get_totdens', 'get_niw')], reps=30)
def every_quantity_from_its_place(E):
    m = E.mod(W)
    niv, nb, A, atom, it, conf, mu, udd, lat, f = solver_file(E, True)
    log = serve(E, m, {'1p.hdf5': f})
    w = m.W2dynFile('1p.hdf5')
    E.true('only read', set(log) == {('1p.hdf5', 'r')})
    for name, key in [(k.replace('-', '_'), k) for k in A]:
        got = getattr(w, 'get_' + name)(dmft_iter=it, atom=atom)
        E.eq(key, got, A[key].shape, A[key])
    E.eq('lattice double counting', w.get_dc_latt(dmft_iter=it), lat.shape, lat)
    E.scalar('mu', w.get_mu(dmft_iter=it), mu)
    E.scalar('U', w.get_udd(atom=atom), udd)
    E.scalar('beta', w.get_beta(), conf['general.beta'])
    E.scalar('density', w.get_totdens(), conf['general.totdens'])
    E.scalar('frequencies', w.get_niw(), conf['qmc.niw'])
    w.close()
    E.true('closed', not f.open)


@contract('C24', [f'{W}.W2dynFile.get_nd_tot', f'{W}.W2dynFile.get_nd', f'{W}.W2dynFile.get_natom'], reps=30)
def bands_of_all_atoms(E):
    m = E.mod(W)
    nat = E.int('atoms', lo=0, cmax=12)
    nd = E.array('nd', (nat,), kind='i')

    def attrs(k):
        if k == 'general.nat':
            return nat
        a = E.number(k[6:-3], 1) if k.startswith('atoms.') and k.endswith('.nd') else None
        return None if a is None or not (a >= 1) or not (a <= nat) else nd.a[a - 1]
    serve(E, m, {'f': File(lambda p: None, attrs)})
    E.scalar('sum over the atoms', m.W2dynFile('f').get_nd_tot(), E.sum(0, nat, lambda k: nd(k)))


@contract('C24', [f'{W}.W2dynFile.get_chi'], reps=40)
def susceptibility_of_a_channel(E):
    m = E.mod(W)
    niw = E.int('niw', lo=0, cmax=5)
    uu, ud = E.array('upup', (2 * niw + 1,)), E.array('updown', (2 * niw + 1,))
    n, beta, atom = E.real('n', pos=True), E.real('beta', pos=True), E.int('atom', lo=1, cmax=3)

    def find(p):
        q = p.split('/')
        if len(q) != 5 or q[0] != 'worm-last' or q[2] != 'p2iw-worm' or q[4] != 'value' or not (E.number(q[1][5:], 3) == atom):
            return None
        return {'00001': Data(uu.a), '00002': Data(ud.a)}.get(q[3])
    serve(E, m, {'f': File(find, {'general.totdens': n, 'general.beta': beta}.get)})
    w = m.W2dynFile('f')
    E.eq('density: sum without the disconnected part', w.get_chi(atom=atom, channel='dens'), (2 * niw + 1,), lambda k: uu(k) + ud(k) - E.ite(
        k == niw, lambda: (n / 2 - 1) ** 2 * beta * 2, 0))
    E.eq('magnetic: difference', w.get_chi(atom=atom, channel='magn'), (2 * niw + 1,), lambda k: uu(k) - ud(k))
    E.raises('other channel', ValueError, lambda: w.get_chi(atom=atom, channel=E.choice('bad', ['sing', 'upup', None])))
    E.unchanged('frame', uu, ud)


@contract('C24', [f'{W}.W2dynFile.load_dmft1p_w2dyn'], reps=40)
def one_particle_data_for_one_band(E):
    m = E.mod(W)
    full = E.choice('full matrices stored', [False, True])
    niv, nb, A, atom, it, conf, mu, udd, lat, f = solver_file(E, full)
    E.assume(nb == 1)
    E.assume(atom == 1)
    if it != 'dmft-last':
        E.skip() if hasattr(E, 'skip') else E.assume(False)
    serve(E, m, {'f': f})
    d = m.W2dynFile('f').load_dmft1p_w2dyn()
    half = E.real('dummy') * 0 + 0.5
    for key, name in (('gloc', 'giw'), ('sloc', 'siw')):
        if full:
            g = A[name + '-full']
            want = lambda v, g=g: 0.5 * sum(g(0, s, 0, t, v) for s in (0, 1) for t in (0, 1))
        else:
            g = A[name]
            want = lambda v, g=g: 0.5 * (g(0, 0, v) + g(0, 1, v))
        E.eq(f'spin average of {name}', d[key], (2 * niv,), want)
    E.scalar('niv', d['niv'], niv)
    for k, v in dict(beta=conf['general.beta'], u=udd, mu=mu, n=conf['general.totdens'], hartree=conf['general.totdens'] * udd / 2).items():
        E.scalar(k, d[k], v)


@contract('C24', [f'{D}.load_1p_data', f'{D}.load_1p_data_w2dyn'], reps=60)
def input_from_w2dynamics(E):
    m, w = E.mod(D), E.mod(W)
    niv, nb, A, atom, it, conf, mu, udd, lat, f = solver_file(E, E.choice('full', [True, False]))
    E.assume(atom == 1)
    if it != 'dmft-last':
        E.assume(False)
    if E.choice('density', ['given', 'zero']) == 'zero':
        conf['general.totdens'] = 0
    log = serve(E, w, {'dir/1p.hdf5': f, 'dir/g4iw.hdf5': File(lambda p: None)})
    two = E.choice('two-particle file', [True, False])
    G = {c: E.array('G' + c, (1, 2, 2)) for c in ('dens', 'magn')}
    E.patch(w.W2dynG4iwFile, 'read_g2_full', lambda self, ineq=1, channel=None, spinband=1: G[channel].a if (ineq, spinband) == (1, 1) else None)
    d = m.load_1p_data('w2dyn', 'dir/', '1p.hdf5', *(['g4iw.hdf5'] if two else []))
    for k in ('giw', 'siw'):
        E.eq(f'spin average of the first band of {k}', d[k], (2 * niv,), lambda v: (A[k](0, 0, v) + A[k](0, 1, v)) / 2)
    n = conf['general.totdens']
    E.scalar('density', d['n'], A['occ'](0, 0, 0, 0) + A['occ'](0, 1, 0, 1) if isinstance(n, int) else n)
    for k, v in dict(beta=conf['general.beta'], u=udd, mu_dmft=mu).items():
        E.scalar(k, d[k], v)
    for c in G:
        if two:
            E.same(f'{c} vertex', d['g4iw_' + c], G[c].a)
        else:
            E.true(f'no {c} vertex', 'g4iw_' + c not in d)
    E.true('files', [x[0] for x in log] == ['dir/1p.hdf5'] + ['dir/g4iw.hdf5'] * two and all(x[1] == 'r' for x in log) and not f.open)


@contract('C24', [f'{D}.load_1p_data', f'{D}.load_1p_data_ed', f'{D}.create_dmft_ddict'], reps=40)
def input_from_exact_diagonalisation(E):
    m = E.mod(D)
    n = E.int('niv', lo=1, cmax=4)
    one = {'giw': E.array('giw', (2 * n,)), 'siw_hat': E.array('siw', (2 * n,))}
    cfg = {'config/totdens': E.real('n'), 'config/beta': E.real('beta'), 'config/U': E.real('u'), 'dmft/mu': E.real('mu')}
    G = {'g4iw_dens': E.array('gd', (3, 2, 2)), 'g4iw_magn': E.array('gm', (3, 2, 2))}
    f1 = File(lambda p: Data(one[p].a) if p in one else Data(cfg[p]) if p in cfg else None)
    f2 = File(lambda p: Data(G[p].a) if p in G else None)
    E.patch(m, 'h5py', Obj(File=lambda name, mode: {('a/one', 'r'): f1, ('a/two', 'r'): f2}[name, mode]))
    two = E.choice('two-particle file', [True, False])
    d = m.load_1p_data('EDFermion', 'a/', 'one', fname_2p='two') if two else m.load_1p_data('EDFermion', 'a/', 'one')
    E.eq('giw', d['giw'], (2 * n,), one['giw'])
    E.eq('siw', d['siw'], (2 * n,), one['siw_hat'])
    for k, v in dict(n='config/totdens', beta='config/beta', u='config/U', mu_dmft='dmft/mu').items():
        E.scalar(k, d[k], cfg[v])
    if two:
        for k in G:
            E.eq(k, d[k], (3, 2, 2), G[k])
        e = m.create_dmft_ddict(d, Obj(mat=G['g4iw_magn'].a), Obj(mat=G['g4iw_dens'].a))
        E.true('all keys', sorted(e) == sorted(d))
        E.eq('density vertex', e['g4iw_dens'], (3, 2, 2), G['g4iw_magn'])
        E.eq('magnetic vertex', e['g4iw_magn'], (3, 2, 2), G['g4iw_dens'])
        E.true('the rest', all(e[k] is d[k] for k in ('giw', 'siw', 'n', 'beta', 'u', 'mu_dmft')))
    else:
        E.true('no vertex', 'g4iw_dens' not in d and 'g4iw_magn' not in d)
    E.raises('other formats', NotImplementedError, lambda: m.load_1p_data(E.choice('kind', ['triqs', '', None]), 'a/', 'one'))


# ---- symmetrisation

def legs(E, B, N, ind):
    """leg indices of a compound index that starts at one"""
    out = []
    for k in range(N):
        out.append((ind - 1) // B ** (N - 1 - k) % B)
    return out


@contract('C24', [f'{S}.index2component_general'], reps=60)
def compound_index_of_bands_and_spins(E):
    m = E.mod(S)
    B, N = E.choice('bands', [1, 2, 3, 4, 5]), E.choice('legs', [1, 2, 3, 4])
    x = [E.int(f'x{k}', lo=0, hi=2 * B - 1, cmax=2 * B - 1) for k in range(N)]
    ind = 1 + sum(x[k] * (2 * B) ** (N - 1 - k) for k in range(N))
    bs, b, s = m.index2component_general(B, N, ind)
    E.true('sizes', len(bs) == N and len(b) == N and len(s) == N)
    for k in range(N):
        E.scalar('band-spin', bs[k], x[k])
        E.scalar('spin', s[k], x[k] % 2)
        E.scalar('band', 2 * b[k] + s[k], x[k])


@contract('C24', [f'{S}.component2index_band', f'{S}.index2component_band'], reps=60)
def compound_index_of_bands(E):
    m = E.mod(S)
    B, N = E.choice('bands', [1, 2, 3, 4, 5, 6]), E.choice('legs', [1, 2, 3, 4])
    x = [E.int(f'x{k}', lo=0, hi=B - 1, cmax=B - 1) for k in range(N)]
    ind = m.component2index_band(B, N, x)
    E.scalar('packed', ind, 1 + sum(x[k] * B ** (N - 1 - k) for k in range(N)))
    got = m.index2component_band(B, N, ind)
    E.true('number of legs', len(got) == N)
    for k in range(N):
        E.scalar('unpacked again', got[k], x[k])
    i = E.int('index', lo=1, hi=B ** N, cmax=B ** N)
    E.scalar('unpacked and packed again', m.component2index_band(B, N, m.index2component_band(B, N, i)), i)


SPINS = {'dens': {'+': [(0, 0, 0, 0), (0, 0, 1, 1), (1, 1, 0, 0), (1, 1, 1, 1)], '0': [(0, 1, 1, 0), (1, 0, 0, 1)]},
         'magn': {'+': [(0, 0, 0, 0), (0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 1, 1)], '-': [(0, 0, 1, 1), (1, 1, 0, 0)]}}
PATTERN = {'b b b b': (0, 0, 0, 0), 'b b c c': (0, 0, 1, 1), 'b c b c': (0, 1, 0, 1), 'b c c b': (0, 1, 1, 0)}


class Classes:
    """declared equivalences: the class of a band, bands counted from one"""

    def __init__(self, E, members):
        self.E, self.members = E, members       # list of (band, class)

    def __getitem__(self, b):
        for x, c in self.members:
            if b == x:
                return list(c)
        raise IndexError(b)


@contract('C24', [f'{S}.get_symgroups'], reps=40)
def signs_of_the_spin_components(E):
    """dens = sum of the components diagonal in spin, magn = their difference plus the spin flips"""
    m = E.mod(S)
    pat, classes = E.choice('pattern', list(PATTERN)), E.choice('classes', [[[1], [2]], [[1, 2], [1, 2]], [[1, 2, 3], [1, 2, 3], [1, 2, 3]]])
    for ch in SPINS:
        seen = []
        for act in SPINS[ch]:
            for spins in SPINS[ch][act]:
                seen.append(spins)
                got = m.get_symgroups(ch, {'spins': spins, 'bands': PATTERN[pat]}, classes, len(classes))
                E.true(f'{ch} {spins}', got[0] == act)
        for k in range(16):
            spins = tuple(k >> j & 1 for j in range(4))
            if spins not in seen:
                E.raises(f'{ch} {spins} does not conserve spin', SystemExit, lambda: silent(m.get_symgroups, ch, {'spins': spins, 'bands': PATTERN[pat]},
                                                                                                      classes, len(classes)))


@contract('C24', [f'{S}.get_symgroups'], reps=300, budget=120)
def equivalent_components_exactly_once(E):
    """classes of up to three bands anywhere among any number of bands; every admissible spin combination"""
    m = E.mod(S)
    nd = E.int('bands', lo=1, cmax=9)
    same = E.choice('same class', [True, False])
    L1 = E.choice('size', [1, 2, 3])
    L2 = L1 if same else E.choice('other size', [1, 2, 3])
    n = L1 if same else L1 + L2
    x = [E.int(f'band{k}', lo=1, cmax=7) for k in range(n)]
    for k in range(n):
        E.assume(x[k] <= nd)
        for j in range(k):
            E.assume(x[j] != x[k])
    one, two = x[:L1], (x[:L1] if same else x[L1:])
    pat = E.choice('pattern', list(PATTERN))
    b = one[0] - 1
    if same and L1 == 1 and pat != 'b b b b':
        E.assume(False)
    c = (two[1] if same else two[0]) - 1 if pat != 'b b b b' else b
    sy = Classes(E, [(y - 1, one) for y in one] + ([] if same else [(y - 1, two) for y in two]))
    ch, act, spins = E.choice('component', [('dens', '+', (0, 0, 1, 1)), ('magn', '-', (1, 1, 0, 0))])

    def pack(nd_, N, legs_):
        E.true('arguments of the compound index', N == 4 and len(legs_) == 4)
        E.scalar('number of bands', nd_, nd)
        return 'group', tuple(legs_)
    E.patch(m, 'component2index_band', pack)
    action, got = m.get_symgroups(ch, {'spins': spins, 'bands': tuple((b, c)[k] for k in PATTERN[pat])}, sy, nd)
    if not all(isinstance(g, tuple) and len(g) == 2 and g[0] == 'group' for g in got):
        raise Missing('component2index_band')
    E.true('sign of the component', action == act)
    other = [(i - 1,) for i in one] if pat == 'b b b b' else [(i - 1, j - 1) for i in one for j in two if i is not j]
    want = [tuple((w + w)[k] for k in PATTERN[pat]) for w in other]
    E.true('number of equivalent groups', len(got) == len(want))
    for w in want:
        hits = sum(E.ite(E.all([p == q for p, q in zip(g[1], w)]), 1, 0) for g in got)
        E.scalar('every equivalent group once', hits, 1)


KIND = {'1freq_b': 'p2iw-worm', '2freq': 'p3iw-worm', '3freq': 'g4iw-worm'}


def sampled(E, target, ineq, groups, nf, nb, worm='worm-last', extra=()):
    """components of one quantity as the impurity solver writes them: x(group)[(column, row,) frequency]"""
    shape = {'1freq_b': (2 * nb + 1,), '2freq': (2 * nf, 2 * nb + 1), '3freq': (2 * nf, 2 * nf, 2 * nb + 1)}[target]
    return {(i, g): E.array(f'x{i}_{g}', shape) for i in range(ineq) for g in groups}


def infile(E, target, x, worm='worm-last', fields=None):
    def find(p):
        q = p.split('/')
        if len(q) == 3 and q[0] == worm and q[2] == KIND[target] and q[1].startswith('ineq-'):
            return Keys([f'{g:05}' for i, g in x if i == int(q[1][5:]) - 1])
        if len(q) != 5 or q[0] != worm or q[2] != KIND[target] or q[4] != 'value' or not q[1].startswith('ineq-') or len(q[1]) != 8 or len(q[3]) != 5:
            return None
        a = x.get((int(q[1][5:]) - 1, int(q[3])))
        return None if a is None else Data(a.a)
    return File(find)


def output(E, target, ineq, bgroups, nf, nb, outer=None):
    """arrays of an output file: name -> (component, frequency)"""
    out = {}
    for i in range(ineq):
        for ch in ('dens', 'magn'):
            for g in bgroups:
                if target == '1freq_b':
                    out[f'ineq-{i + 1:03}/{ch}/{g:05}'] = (i, ch, g, None)
                for w in range(2 * nb + 1) if target != '1freq_b' else ():
                    out[f'ineq-{i + 1:03}/{ch}/{w:05}/{g:05}' + '/value' * (target == '3freq')] = (i, ch, g, w)
    return out


def element(target, x, w):
    """what a sampled component contributes to one dataset"""
    return {'1freq_b': lambda k: x(k), '2freq': lambda k: x(k, w), '3freq': lambda a, b: x(b, a, w)}[target]


def out_shape(target, nf, nb):
    return {'1freq_b': (2 * nb + 1,), '2freq': (2 * nf,), '3freq': (2 * nf, 2 * nf)}[target]


@contract('C24', [f'{S}.read_and_add'], reps=80)
def component_added_to_every_group(E):
    m = E.mod(S)
    target, ch, act = E.choice('target', list(KIND)), E.choice('channel', ['dens', 'magn']), E.choice('action', ['+', '-', '0'])
    nf, nb = E.int('fermionic', lo=1, cmax=3), E.choice('bosonic', [0, 1])
    worm, ineq, igr, sym = E.choice('where', [('worm-last', 0, 1, [1]), ('worm-001', 1, 256, [7, 3, 12]), ('worm-last', 0, 16, [16, 1])])
    x = sampled(E, target, 2, [1, 16, 256], nf, nb)
    names = output(E, target, 2, [1, 3, 7, 12, 16], nf, nb)
    old = {n: E.array('o ' + n, out_shape(target, nf, nb)) for n in names}
    out = File(lambda p: None)
    for n in names:
        out[n] = old[n].a.copy()
    m.read_and_add(infile(E, target, x, worm), out, ineq, igr, ch, act, list(sym), target=target, n3iwb=nb, n4iwb=nb, worm_group=worm, more=1)
    f, norm = {'+': 1, '-': -1, '0': 0}[act], {'dens': 2, 'magn': 4}[ch] * len(sym)
    for n, (i, c, g, w) in names.items():
        new = out[n].a
        if (i, c) == (ineq, ch) and g in sym:
            e = element(target, x[ineq, igr], w)
            E.eq('share of the component', new, out_shape(target, nf, nb), lambda *k, n=n: old[n](*k) + f * e(*k) / norm)
        else:
            E.eq('other groups untouched', new, out_shape(target, nf, nb), old[n])
    E.true('nothing else is written', sorted(out.new) == sorted(names))


@contract('C24', [f'{S}.initialize_output'], reps=40)
def empty_output(E):
    m = E.mod(S)
    target, ineq = E.choice('target', list(KIND)), E.choice('atoms', [1, 2])
    nf, nb = E.int('fermionic', lo=1, cmax=3), E.choice('bosonic', [0, 1, 2])
    groups = E.choice('groups', [[1], [1, 6, 16]])
    out, f1 = File(lambda p: None), File(lambda p: None)
    m.initialize_output(f1, out, bgroups=[[{'bgroup': g, 'bands': None} for g in groups]] * ineq, nineq=ineq, n2iwb=nb, n3iwf=nf, n3iwb=nb,
                        n4iwf=nf, n4iwb=nb, target=target, conf={}, sym=[])
    names = output(E, target, ineq, groups, nf, nb)
    E.true('one dataset per group and frequency', sorted(out.new) == sorted(names))
    for n in names:
        if n in out.new:
            E.eq('zero', out[n].a, out_shape(target, nf, nb), lambda *k: 0)
    E.true('axes', target != '3freq' or f1.log == [('copy', '.axes', out)])


@contract('C24', [f'{S}.main', f'{S}.get_groups', f'{S}.get_fbox', f'{S}.check_sym', f'{S}.initialize_output', f'{S}.get_symgroups',
                  f'{S}.read_and_add', f'{S}.component2index_band', f'{S}.index2component_general'], reps=30, budget=200)
def symmetrised_file(E):
    """whole program on arbitrary contents: channel sums of the sampled spin components, averaged over the equivalent band groups"""
    m = E.mod(S)
    target = E.choice('target', list(KIND))
    nf, nb = E.int('fermionic', lo=1, cmax=2), E.choice('bosonic', [0, 1])
    classes = E.choice('equivalences', [[[1]], [[1], [2]], [[1, 2], [2, 1]]])
    N = len(classes)
    bands = [b for b in __import__('itertools').product(range(N), repeat=4) if b[0] == b[1] and b[2] == b[3] or b[0] == b[2] and b[1] == b[3]
             or b[0] == b[3] and b[1] == b[2]]
    spins = [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 0), (1, 1, 1, 1)]
    index = lambda b, s: 1 + sum((2 * b[k] + s[k]) * (2 * N) ** (3 - k) for k in range(4))
    bindex = lambda b: 1 + sum(b[k] * N ** (3 - k) for k in range(4))
    x = sampled(E, target, 1, [index(b, s) for b in bands for s in spins], nf, nb)
    worm = E.choice('iteration', [None, 'worm-last', 'worm-002']) if N == 1 else None
    inp, out = infile(E, target, x, worm or 'worm-last'), File(lambda p: None)

    def open_(name, mode):
        return {('in.hdf5', 'r'): inp, ('out.hdf5', 'w-'): out}[name, mode]
    E.patch(m, 'h5py', Obj(File=open_))
    silent(m.main, dict(nineq=1, target=target, infile='in.hdf5', outfile='out.hdf5', Nbands=[N], sym=[classes], **({'worm_group': worm} if worm else {})))
    names = output(E, target, 1, [bindex(b) for b in bands], nf, nb)
    E.true('datasets', sorted(out.new) == sorted(names))
    where = {bindex(b): b for b in bands}
    for n, (i, ch, g, w) in names.items():
        if n not in out.new:
            continue
        b = where[g]
        orbit = {tuple(p[k] for k in b) for p in __import__('itertools').permutations(range(N)) if all(p[k] + 1 in classes[k] for k in range(N))}

        def want(*k):
            r = 0
            for o in sorted(orbit):
                for act, sg in (('+', 1), ('-', -1)):
                    for s in SPINS[ch].get(act, ()):
                        r = r + sg * element(target, x[0, index(o, s)], w)(*k)
            return r / ({'dens': 2, 'magn': 4}[ch] * len(orbit))
        E.eq(f'{ch}', out[n].a, out_shape(target, nf, nb), want)


@contract('C24', [f'{S}.check_sym'], reps=40)
def contradicting_equivalences_are_refused(E):
    m = E.mod(S)
    good = E.choice('good', [[[1]], [[1], [2]], [[1, 2], [1, 2]], [[1, 2], [2, 1]], [[1, 3], [2], [3, 1]], [[1, 2, 3], [2, 3, 1], [3, 1, 2]]])
    m.check_sym(nineq=1, Nbands=[len(good)], sym=[good], conf=0)
    m.check_sym(nineq=2, Nbands=[1, len(good)], sym=[[[1]], good])
    bad = E.choice('bad', [[[1, 2], [2]], [[1], [1, 2]], [[1, 2], [2, 3], [3, 1]], [[1, 2, 3], [1, 2, 3], [1, 3]], [[1, 2], [1, 2, 3], [2, 3]]])
    E.raises('refused', SystemExit, lambda: silent(m.check_sym, nineq=1, Nbands=[len(bad)], sym=[bad]))
    E.raises('refused for any atom', SystemExit, lambda: silent(m.check_sym, nineq=2, Nbands=[1, len(bad)], sym=[[[1]], bad]))


@contract('C24', [f'{S}.main'], reps=30)
def one_particle_functions_symmetrised(E):
    """average over the equivalent bands and over spin; the unsymmetrised functions are kept"""
    m = E.mod(S)
    niv = E.int('niv', lo=1, cmax=4)
    classes = E.choice('equivalences', [[[1]], [[1], [2]], [[1, 2], [2, 1]], [[1, 3], [2], [1, 3]]])
    atoms = E.choice('atoms', [1, 2])
    N = len(classes)
    A = {(k, i): E.array(f'{k}{i}', (N, 2, 2 * niv)) for k in ('giw', 'siw') for i in range(atoms)}
    f2 = File(lambda p: None)
    for (k, i), a in A.items():
        f2[f'dmft-last/ineq-{i + 1:03}/{k}/value'] = a.a.copy()
    f2 = Tree(f2.new)

    E.patch(m, 'h5py', Obj(File=lambda name, mode: {('in', 'r'): File(lambda p: None), ('out', 'r+'): f2}[name, mode]))
    copied = []
    E.patch(m, 'copyfile', lambda a, b: copied.append((a, b)))
    silent(m.main, dict(nineq=atoms, target='1freq_f', infile='in', outfile='out', Nbands=[N] * atoms, sym=[classes] * atoms))
    E.true('starts from a copy of the file', copied == [('in', 'out')])
    for (k, i), a in A.items():
        E.eq(f'{k} kept', f2[f'dmft-last/ineq-{i + 1:03}/{k}_unsymmetrized/value'].a, (N, 2, 2 * niv), a)
        E.eq(f'{k} averaged', f2[f'dmft-last/ineq-{i + 1:03}/{k}/value'].a, (N, 2, 2 * niv), lambda b, s, v: sum(
            E.ite(b == c, lambda c=c: sum(a(e - 1, t, v) for e in classes[c] for t in (0, 1)) / (2 * len(classes[c])), 0) for c in range(N)))


class Tree(File):
    """file whose groups can be moved"""

    def __init__(self, new):
        File.__init__(self, lambda p: None)
        self.new = new

    def __getitem__(self, p):
        p = self.key(p)
        below = {k[len(p):]: v for k, v in self.new.items() if k.startswith(p + '/')}
        return below if below else File.__getitem__(self, p)

    def __setitem__(self, p, v):
        if isinstance(v, dict):
            for k, d in v.items():
                self.new[self.key(p) + k] = d
        else:
            File.__setitem__(self, p, v)

    def __delitem__(self, p):
        p = self.key(p)
        for k in [k for k in self.new if k == p or k.startswith(p + '/')]:
            del self.new[k]


@contract('C24', [f'{S}.main', f'{S}.get_fbox', f'{W}.W2dynG4iwFile.read_g2_full', f'{W}.W2dynG4iwFile.get_niw'], sym=False, reps=16,
          bounded='real HDF5 files: up to 3 bands, 2 atoms, 7 bosonic frequencies; missing samples (NaN) count as zero')
def real_files(E):
    import itertools
    import h5py
    np, rng, nr = E.np, E.rng, E.nprng
    m, w = E.mod(S), E.mod(W)
    d = tempfile.mkdtemp(prefix='dga_c24_')
    E.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
    nf, nb = rng.randint(1, 3), rng.randint(0, 3)
    atoms = [rng.choice([[[1]], [[1], [2]], [[1, 2], [1, 2]], [[1, 3], [2], [1, 3]], [[1, 2, 3]] * 3]) for _ in range(rng.randint(1, 2))]
    data, hole = {}, rng.random() < .5
    worm, other = rng.choice([('worm-last', None), ('worm-001', None), ('worm-001', 'worm-last'), ('worm-last', 'worm-001'), (None, 'worm-001')])
    with h5py.File(d + '/in.hdf5', 'w') as f:
        f['.axes/iw'] = np.arange(3)
        if other:  # another iteration with other boxes and values
            f[f'{other}/ineq-001/g4iw-worm/00001/value'] = nr.normal(size=(2 * nf + 2, 2 * nf + 2, 2 * nb + 3)) + 0j
        for i, cl in enumerate(atoms):
            N = len(cl)
            for b in itertools.product(range(N), repeat=4):
                if not (b[0] == b[1] and b[2] == b[3] or b[0] == b[2] and b[1] == b[3] or b[0] == b[3] and b[1] == b[2]):
                    continue
                for s in [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 0), (1, 1, 1, 1)]:
                    x = nr.normal(size=(2 * nf, 2 * nf, 2 * nb + 1)) + 1j * nr.normal(size=(2 * nf, 2 * nf, 2 * nb + 1))
                    if hole and rng.random() < .2:
                        x[tuple(rng.randrange(k) for k in x.shape)] = np.nan
                    g = 1 + sum((2 * b[k] + s[k]) * (2 * N) ** (3 - k) for k in range(4))
                    f[f'{worm or "worm-last"}/ineq-{i + 1:03}/g4iw-worm/{g:05}/value'] = x
                    data[i, b, s] = np.nan_to_num(x, nan=0.0) if not np.isnan(x).any() else np.where(np.isnan(x), 0, x)
    silent(m.main, dict(nineq=len(atoms), target='3freq', infile=d + '/in.hdf5', outfile=d + '/out.hdf5', Nbands=[len(c) for c in atoms], sym=atoms,
                        **({'worm_group': worm} if worm else {})))
    file = w.W2dynG4iwFile(d + '/out.hdf5')
    for i, cl in enumerate(atoms):
        N = len(cl)
        for b in {b for j, b, s in data if j == i}:
            orbit = {tuple(p[k] for k in b) for p in itertools.permutations(range(N)) if all(p[k] + 1 in cl[k] for k in range(N))}
            g = 1 + sum(b[k] * N ** (3 - k) for k in range(4))
            E.true('stored frequencies', file.get_niw(ineq=i + 1, channel='dens', spinband=g) == nb)
            for ch, norm in (('dens', 2), ('magn', 4)):
                want = sum(sg * data[i, o, s] for o in orbit for a, sg in (('+', 1), ('-', -1)) for s in SPINS[ch].get(a, ())) / norm / len(orbit)
                got = file.read_g2_full(ineq=i + 1, channel=ch, spinband=g)
                E.true(f'{ch} as sampled, bosonic frequency first', got.shape == (2 * nb + 1, 2 * nf, 2 * nf)
                       and bool(np.allclose(got, np.moveaxis(want, -1, 0), atol=1e-12)))
    file.close()


@contract('C24', [f'{D}.build_g2_obj', 'local_four_point.get_g2_from_dmft_input', 'config.BoxSizes.set_from_lfp', 'local_four_point.LocalFourPoint.cut_iv'],
          reps=60)
def vertices_cut_to_the_same_box(E):
    m, c = E.mod(D), E.mod('config')
    niw, niv = E.int('niw', lo=1, cmax=3), E.int('niv', lo=1, cmax=3)
    G = {k: E.array(k, (2 * niw + 1, 2 * niv, 2 * niv)) for k in ('dens', 'magn')}
    box = c.BoxSizes()
    how = E.choice('box', ['taken from the file', 'smaller'])
    kw, kv = niw, niv
    if how == 'smaller':
        kw, kv = E.int('niw_core', lo=0, cmax=3), E.int('niv_core', lo=1, cmax=3)
        E.assume(kw <= niw)
        E.assume(kv <= niv)
        box.niw_core, box.niv_core = kw, kv
        box.niv_shell = 0
    sym = E.choice('symmetrise', [False, True])
    beta = E.real('beta', pos=True)
    got = m.build_g2_obj(Obj(box=box, do_sym_v_vp=sym), {'g4iw_dens': G['dens'].a, 'g4iw_magn': G['magn'].a, 'beta': beta, 'u': E.real('u')})
    for k, g in zip(('dens', 'magn'), got):
        at = lambda w, a, b: G[k](w + niw - kw, a + niv - kv, b + niv - kv)
        E.true('channel', g.channel == k)
        E.scalar('beta', g.beta, beta)
        E.eq(k, g.mat, (2 * kw + 1, 2 * kv, 2 * kv), (lambda w, a, b: (at(w, a, b) + at(w, b, a)) / 2) if sym else at)
    E.unchanged('frame', *G.values())
