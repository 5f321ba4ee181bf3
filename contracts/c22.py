"""C22 output locations never collide with existing results; saved data reload."""
import os
import shutil
import tempfile

from contracts.c09 import Rank
from contracts.c11 import Obj
from engine.env import Missing
from engine.reg import contract

C = 'config'
TRUSTED = ['os.path.splitext splits a name into a root and an extension whose concatenation is the name',
           'np.load returns what np.save stored under the same file name (objects as 0-dimensional arrays); os.mkdir, os.remove, os.path.exists '
           'and os.path.isfile act on exactly the named path']
ASSUMPTIONS = ['no other process creates directories between the check for existence and the creation']


class Only:
    """stand-in for a module: anything but the given names means the code works differently than this contract knows"""

    def __init__(self, name, **k):
        self.__dict__.update(k)
        self.__dict__['_name'] = name

    def __getattr__(self, k):
        raise Missing(f'{self._name}.{k}')


class Fs:
    """file system in which an arbitrary set of names exists"""

    def __init__(self, E, split=None):
        self.E, self.made, self.removed, self.memo = E, [], [], {}
        self.path = Only('os.path', splitext=split or os.path.splitext, exists=self.exists, isfile=self.exists, isdir=self.exists)

    def exists(self, p):
        E = self.E
        if p in self.made:
            return True
        if p in self.removed:
            return False
        if E.sym:
            return E.predicate('exists', p)
        if p not in self.memo:
            self.memo[p] = E.rng.random() < .6
        return self.memo[p]

    def module(self):
        return Only('os', path=self.path, mkdir=self.mkdir, makedirs=self.mkdir, remove=self.removed.append, unlink=self.removed.append)

    def mkdir(self, p, *a, **k):
        self.made.append(p)


@contract('C22', ['util.uniquify'], reps=60)
def an_unused_name_is_chosen(E):
    """loop invariant: the candidate is the requested name, or its number is one behind the counter and the requested name is taken"""
    util = E.mod('util')
    root, ext = 'ROOT', E.choice('extension', ['', '.hdf5'])
    base = root + ext
    fs = Fs(E, split=lambda p: (root, ext) if p == base else os.path.splitext(p))
    E.patch(util, 'os', fs.module())

    def arbitrary(_):
        if E.choice('first candidate', [True, False]):
            return dict(path=base, counter=1)
        k = E.int('number', lo=1)
        return dict(path=root + '_' + str(k) + ext, counter=k + 1)

    def invariant(v):
        first = E.text(v['path']) == base
        if first:
            return [('the first candidate is the name itself', v['counter'] == 1)]
        return [('the candidate carries its number', E.text(v['path']) == E.text(root + '_' + str(v['counter'] - 1) + ext)),
                ('numbers start at one', v['counter'] >= 2), ('a number is only used when the name is taken', fs.exists(base))]

    used = E.loop('util.uniquify', ('path', 'counter'), arbitrary, invariant)
    got = util.uniquify(base)
    used()
    E.true('ends with a separator', got.endswith('/') and not got.endswith('//'))
    name = got[:-1]
    E.true('derived from the requested name', name.startswith(root) and name.endswith(ext))
    E.true('nothing exists under the chosen name', E.np.logical_not(fs.exists(name)) if not E.sym else ~fs.exists(name))
    if E.text(name) != base:
        E.true('a free name is used as it is', fs.exists(base))


@contract('C22', ['util.uniquify'], sym=False, reps=60, bounded='real directories, up to 30 earlier results')
def repeated_creation(E):
    util, rng = E.mod('util'), E.rng
    d = tempfile.mkdtemp(prefix='dga_c22_')
    E.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
    base = os.path.join(d, rng.choice(['LDGA_spch_Nk256_Nq256_wc30_vc30_vs100', 'run', 'beta12.5_n0.85', 'data.hdf5', '.hidden', 'a.b/c', 'x_1', 'sub/']))
    os.makedirs(os.path.dirname(base), exist_ok=True)
    content = {}
    for j in range(rng.randint(1, 30)):
        got = util.uniquify(base)
        E.true('new', not os.path.exists(got) and not os.path.exists(got.rstrip('/')))
        E.true('close to the requested name', os.path.dirname(got.rstrip('/')) in (os.path.dirname(base), base.rstrip('/')))
        if rng.random() < .2:
            open(got.rstrip('/'), 'w').close()
        else:
            os.mkdir(got)
            content[got] = j
            with open(got + 'result', 'w') as f:
                f.write(str(j))
        if content and rng.random() < .2:
            k = rng.choice(list(content))
            shutil.rmtree(k)
            del content[k]
    for k, j in content.items():
        E.true('earlier results untouched', open(k + 'result').read() == str(j))


class Bcast(Rank):
    """rank r of several: what the root broadcasts arrives at the others"""

    def __init__(self, r, n, root_value):
        super().__init__(r, n)
        self.value, self.count = root_value, 0

    def bcast(self, x, root=0):
        self.count += 1
        return x if self.rank == root else self.value

    def barrier(self):
        pass

    Barrier = barrier


def location(E, m):
    """a module whose choice of the name is replaced by its contract, in an arbitrary file system"""
    fs = Fs(E)
    asked = []

    def uniquify(path=None):
        asked.append(path)
        return f'UNUSED{len(asked)}/'
    E.patch(m.util, 'uniquify', uniquify)
    E.patch(m, 'os', fs.module())
    return fs, asked


def rank(E):
    r = E.choice('rank', [None, 0, 1, 3])
    return None if r is None else Bcast(r, 4, 'ROOTS/')


def taken(E, x):
    """on the path of the run: is the name known to exist?"""
    return bool(x)


@contract('C22', [f'{C}.OutputConfig.set_output_path', f'{C}.OutputConfig.__init__'], reps=60)
def location_of_a_run(E):
    """the root picks an unused name, every process gets that name, only the root creates it"""
    c = E.mod(C)
    fs, asked = location(E, c)
    comm = rank(E)
    o = c.OutputConfig()
    got = o.set_output_path('some/name', comm=comm)
    root = comm is None or comm.rank == 0
    want = 'UNUSED1/' if root else 'ROOTS/'
    E.true('returned', got == want)
    E.true('kept', o.output_path == want)
    E.true('one choice, by the root', asked == (['some/name'] if root else asked[:1]) and all(a == 'some/name' for a in asked))
    if comm is not None:
        E.true('shared with all processes', comm.count >= 1)
    E.true('only the root creates it', root or not fs.made)
    if root:
        E.true('the location exists afterwards', bool(fs.exists(want)) and fs.made in ([], [want]))


@contract('C22', ['dga_io.set_output_path'], reps=60)
def location_of_postprocessing(E):
    io = E.mod('dga_io')
    fs, asked = location(E, io)
    comm = E.choice('comm', [None, Bcast(0, 4, None), Bcast(2, 4, 'ROOTS/')])
    got = io.set_output_path('some/name', comm=comm)
    root = comm is None or comm.rank == 0
    E.true('only the root creates it', root or not fs.made)
    if root:
        E.true('an unused name', got == 'UNUSED1/' and asked == ['some/name'])
        E.true('the location exists afterwards', bool(fs.exists(got)) and fs.made in ([], [got]))


@contract('C22', [f'{C}.DgaConfig.create_dga_ouput_folder', f'{C}.DgaConfig.create_folders', f'{C}.DgaConfig.create_plotting_folder',
                  f'{C}.DgaConfig.create_poly_fit_folder', f'{C}.get_dga_output_folder_name'], reps=60)
def all_locations_of_a_run(E):
    """the run directory is named after all parameters of the run, everything else lies inside it"""
    c = E.mod(C)
    fs = Fs(E)
    asked = []
    E.patch(c.util, 'uniquify', lambda path=None: asked.append(path) or path.rstrip('/') + '_NEW/')
    E.patch(c, 'os', fs.module())
    r = E.choice('rank', [0, 2])
    inp, corr = E.choice('input', ['./', '/data/run1/']), E.choice('correction', ['spch', 'none'])
    nums = dict(nk_tot=E.int('nk', lo=1), nq_tot=E.int('nq', lo=1))
    box = dict(niw_core=E.int('niw', lo=0), niv_core=E.int('niv', lo=1), niv_shell=E.int('shell', lo=0))
    root_name = inp + c.get_dga_output_folder_name(corr, *nums.values(), *box.values())
    class Values(Bcast):
        def bcast(self, x, root=0):
            self.count += 1
            if self.rank == root:
                return x
            return self.table[self.count - 1]
    comm = Values(r, 4, None)
    main = root_name.rstrip('/') + '_NEW/'
    comm.table = [main, main + 'Eliashberg_NEW/', main + 'Optics_NEW/']
    d = object.__new__(c.DgaConfig)
    fit = E.choice('fits', [True, False])
    d.__dict__.update(input_path=inp, lambda_corr=corr, lattice=Obj(**nums), box=Obj(**box), comm=comm, do_poly_fitting=fit,
                      eliash=c.EliashbergConfig(), optics=c.OpticsConfig(), output_path=None)
    fs.made.append(main)             # (assertion of the code: the run directory has been created)
    d.create_folders()
    E.true('run directory', E.text(d.output_path) == E.text(main))
    E.true('all parameters in the name', E.text(root_name) == E.text(f'{inp}/LDGA_{corr}_Nk{nums["nk_tot"]}_Nq{nums["nq_tot"]}_wc{box["niw_core"]}_vc{box["niv_core"]}_vs{box["niv_shell"]}'))
    E.true('Eliashberg results inside', E.text(d.eliash.output_path) == E.text(main + 'Eliashberg_NEW/'))
    E.true('optics results inside', E.text(d.optics.output_path) == E.text(main + 'Optics_NEW/'))
    if r == 0:
        E.true('plots inside', E.text(d.pdir) == E.text(main + 'Plots_NEW/') or E.text(d.pdir) == E.text(main + '/Plots_NEW/'))
        if fit:
            E.true('fits inside', E.text(d.poly_fit_dir).replace('//', '/') == E.text(main + 'PolyFits_NEW/').replace('//', '/'))
    else:
        E.true('created by the root only', fs.made == [main])


class Disk:
    """np.save / np.load and the operations of os on files by their contracts"""

    def __init__(self, E, m):
        self.E, self.files = E, {}
        E.patch(m, 'np', Io(self, m.np))
        E.patch(m, 'os', Only('os', path=Only('os.path', isfile=lambda p: self.key(p) in self.files, exists=lambda p: self.key(p) in self.files,
                                              join=os.path.join), remove=self.remove, unlink=self.remove))

    def key(self, p):
        return os.path.normpath(p)

    def remove(self, p):
        if self.key(p) not in self.files:
            raise FileNotFoundError(p)
        del self.files[self.key(p)]


class Io:
    def __init__(self, disk, np):
        self.__dict__.update(_d=disk, _np=np)

    def __getattr__(self, k):
        return getattr(self._np, k)

    def save(self, file, arr, allow_pickle=True, fix_imports=True):
        f = file if file.endswith('.npy') else file + '.npy'
        if isinstance(arr, dict):
            arr = Item(arr)
        else:
            arr = self._np.array(arr)
        self._d.files[self._d.key(f)] = arr

    def load(self, file, allow_pickle=False, **k):
        if self._d.key(file) not in self._d.files:
            raise FileNotFoundError(file)
        x = self._d.files[self._d.key(file)]
        return Item(x.x) if isinstance(x, Item) else self._np.array(x)


class Item:
    """0-dimensional array of objects"""
    ndim, shape, size = 0, (), 1

    def __init__(self, x):
        self.x = x

    def item(self):
        return self.x

    def __getitem__(self, k):
        if k == ():
            return self.x
        raise IndexError('too many indices for array')

    def tolist(self):
        return self.x


@contract('C22', [f'{C}.OutputConfig.save_data', f'{C}.OutputConfig.load_data', f'{C}.OutputConfig.clean_data'], reps=60)
def saved_data_reload(E):
    c = E.mod(C)
    Disk(E, c)
    o = c.OutputConfig()
    o.output_path = E.choice('where', ['/data/run/', '/data/run', './LDGA_1/'])
    n, m = E.int('n', lo=1, cmax=4), E.int('m', lo=1, cmax=3)
    rank_ = E.choice('dimensions', [1, 2, 4])
    sh = {1: (n,), 2: (n, m), 4: (n, m, 1, n)}[rank_]
    A, B = E.array('A', sh), E.array('B', (n,))
    d = {'mu': E.real('mu'), 'x': B.a, 'name': 'text'}
    names = E.choice('names', [('siwk_dga', 'giwk_dga', 'gap'), ('gap', 'gap_sing', 'gap_sing_0'), ('x.npy', 'x', 'x.y')])
    o.save_data(A.a, names[0])
    o.save_data(d, names[1])
    o.save_data(B.a, names[2])

    def check(which, when):
        if 0 in which:
            E.eq(f'array {when}', o.load_data(names[0]), sh, lambda *k: A(*k))
        if 1 in which:
            x = o.load_data(names[1])
            E.true(f'dictionary {when}', isinstance(x, dict) and set(x) == set(d) and x['name'] == 'text')
            E.scalar(f'number {when}', x['mu'], d['mu'])
            E.eq(f'array in dictionary {when}', x['x'], (n,), lambda k: B(k))
        if 2 in which:
            E.eq(f'second array {when}', o.load_data(names[2]), (n,), lambda k: B(k))
    check((0, 1, 2), 'after saving')
    E.unchanged('frame', A, B)
    gone = E.choice('removed', [0, 1, 2])
    o.clean_data(names[gone])
    check({0, 1, 2} - {gone}, 'after removing another one')
    E.raises('removed', FileNotFoundError, lambda: o.load_data(names[gone]))
    o.clean_data(names[gone])        # removing what does not exist changes nothing
    o.save_data(B.a, names[gone])
    E.eq('saved again', o.load_data(names[gone]), (n,), lambda k: B(k))
    keep = 0 if gone != 0 else 1
    check({keep}, 'after saving another one')


@contract('C22', [f'{C}.OutputConfig.save_data', f'{C}.OutputConfig.load_data', f'{C}.OutputConfig.clean_data', f'{C}.OutputConfig.set_output_path'],
          sym=False, reps=60, bounded='real files: histories of up to 25 operations on 5 names in up to 3 locations')
def histories_on_disk(E):
    import numpy as np
    c, rng, nr = E.mod(C), E.rng, E.nprng
    top = tempfile.mkdtemp(prefix='dga_c22_')
    E.cleanup.append(lambda: shutil.rmtree(top, ignore_errors=True))
    locs = []
    for j in range(rng.randint(1, 3)):
        o = c.OutputConfig()
        p = o.set_output_path(top + '/run', comm=E.rng.choice([None, Bcast(0, 2, None)]))
        E.true('a new directory', os.path.isdir(p) and not os.listdir(p) and all(os.path.realpath(p) != os.path.realpath(q.output_path) for q, _ in locs))
        locs.append((o, {}))

    def value():
        k = rng.randint(0, 6)
        sh = tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 4)))
        a = nr.random(sh)
        return [a, a + 1j * nr.random(sh), (a * 10).astype(int), {'a': a, 'b': 3, 'c': None}, {'Z': {'x': 1.5}}, np.array([2.5]), a > .5][k]

    def same(x, y):
        if isinstance(y, dict):
            return isinstance(x, dict) and set(x) == set(y) and all(same(x[k], y[k]) for k in y)
        if isinstance(y, np.ndarray):
            return isinstance(x, np.ndarray) and x.dtype == y.dtype and x.shape == y.shape and bool(np.array_equal(x, y))
        return x == y
    for _ in range(rng.randint(5, 25)):
        o, want = rng.choice(locs)
        name = rng.choice(['a', 'b', 'a_b', 'siwk.dga', 'ab'])
        op = rng.choice(['save', 'save', 'load', 'clean'])
        if op == 'save':
            want[name] = value()
            o.save_data(want[name], name)
        elif op == 'clean':
            o.clean_data(name)
            want.pop(name, None)
        for q, w in locs:
            for k, v in w.items():
                E.true('reloads unchanged', same(q.load_data(k), v))
            E.true('nothing else', sorted(os.listdir(q.output_path)) == sorted(k + '.npy' for k in w))


@contract('C22', [f'{C}.save_config_file', f'{C}.parse_config_file',
                  f'{C}.create_dga_argparser'], sym=False, reps=15, bounded='real files, sampled settings')
def configuration_reloads(E):
    import sys
    c, rng = E.mod(C), E.rng
    top = tempfile.mkdtemp(prefix='dga_c22_') + '/'
    E.cleanup.append(lambda: shutil.rmtree(top, ignore_errors=True))
    cfg = {'lattice': {'nk': [4, 4, 1], 'type': 't_tp_tpp', 'hr_input': [1.0, -0.25, 0.125], 'symmetries': 'two_dimensional_square'},
           'box_sizes': {'niv_core': rng.randint(1, 99), 'niw_core': rng.randint(1, 99)}, 'dga': {'lambda_corr': 'spch'}}
    c.save_config_file(cfg, top)
    argv = sys.argv
    E.cleanup.append(lambda: setattr(sys, 'argv', argv))
    sys.argv = ['dga', '-p', top, '-c', 'dga_config.yaml']
    d, raw = c.parse_config_file(Bcast(0, 1, None))
    E.true('same sections', {k: dict(v) for k, v in raw.items()} == cfg)
    E.true('applied', d.box.niv_core == cfg['box_sizes']['niv_core'] and d.box.niw_core == cfg['box_sizes']['niw_core'] and tuple(d.lattice.nk) == (4, 4, 1))


@contract('C22', [f'{C}.OutputConfig.to_yaml', f'{C}.ConfigBase.as_dict', f'{C}.ConfigBase.update_dict', f'{C}.ConfigBase.set', f'{C}.ConfigBase.set_from_obj'],
          sym=False, reps=40, bounded='files on disk')
def settings_reload(E):
    """the settings of a section written under a name are read back; another file keeps its contents"""
    from ruamel.yaml import YAML
    c, rng = E.mod(C), E.rng
    top = tempfile.mkdtemp(prefix='dga_c22_')
    E.cleanup.append(lambda: shutil.rmtree(top, ignore_errors=True))

    def value(deep=2):
        k = rng.randrange(7 if deep else 5)
        if k == 5:
            return [value(0) for _ in range(rng.randint(1, 3))]
        if k == 6:
            return {n: value(deep - 1) for n in ('a', 'b', 'k')[:rng.randint(1, 3)]}
        return [rng.randint(-9, 9), round(rng.uniform(-5, 5), 6), rng.choice(['random', 'd-wave', 'x']), True, False][k]
    o = rng.choice([c.OutputConfig, c.EliashbergConfig, c.OpticsConfig])()
    o.output_path = top
    names = [f'name{i}' for i in range(rng.randint(1, 4))] + [n for n in list(vars(o)) if n != 'output_path' and rng.random() < .5]
    want = {n: value() for n in names}
    o.set(dict(want))
    E.true('settings are applied', all(getattr(o, n) == v for n, v in want.items()))
    o.to_yaml('first')
    full = {n: v for n, v in vars(o).items()}

    def read(n):
        with open(f'{top}/{n}.yaml') as f:
            return YAML(typ='safe').load(f)
    E.true('settings reload', read('first') == full, f'{read("first")} {full}')
    o.set({names[0]: 'changed'})
    o.to_yaml('second')
    E.true('earlier file untouched', read('first') == full and read('second') == {**full, names[0]: 'changed'})
    E.true('nothing else written', sorted(os.listdir(top)) == ['first.yaml', 'second.yaml'])
    other = c.EliashbergConfig()
    src = c.EliashbergConfig()
    src.n_eig, src.eps = rng.randint(3, 9), .5
    other.set(src)
    E.true('settings of another section', vars(other) == vars(src))
