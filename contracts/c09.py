"""C09 work distribution is a partition; scatter and gather are inverse to each other."""
import threading

from engine.env import Missing
from engine.reg import contract

M = 'mpi_aux'
D = f'{M}.MpiDistributor'
ASSUMPTIONS = ['MPI collectives meet their documentation: (All)Gatherv/Scatterv move counts[i] elements of C-contiguous buffers for rank i, '
               'in rank order without gaps; Allreduce adds element-wise; bcast returns the data of the root process. The bounded '
               'contract runs every rank against an in-process implementation of exactly that.']


class Rank:
    """communicator that only knows its rank and size"""

    def __init__(self, r, n):
        self.rank, self.size = r, n

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


@contract('C09', [f'{D}.__init__', f'{D}.distribute_tasks', f'{D}.my_slice', f'{D}.my_tasks', f'{D}.my_size', f'{D}.sizes', f'{D}.ntasks',
                  f'{D}.mpi_size', f'{D}.my_rank', f'{D}.is_root'], reps=200)
def task_lists_partition_the_tasks(E):
    m = E.mod(M)
    N = E.int('ntasks', lo=0, cmax=40)
    P = E.int('nproc', lo=1, cmax=12)
    r = E.int('rank', lo=0, hi=P - 1)
    s = E.int('other', lo=0, hi=P - 1)

    def span(k):
        d = m.MpiDistributor(N, comm=Rank(k, P))
        return d, d.my_slice.start, d.my_slice.stop
    d, a, b = span(r)
    E.true('ordered range', (a <= b) & (0 <= a) & (b <= N))
    E.true('size is the length of the range', d.my_size == b - a)
    E.true('counts', (d.ntasks == N) & (d.mpi_size == P) & (d.my_rank == r))
    E.true('root', bool(d.is_root) == bool(r == 0))
    E.eq('tasks of the process', d.my_tasks, (b - a,), lambda i: a + i)
    d0, a0, _ = span(0)
    E.true('starts at the first task', a0 == 0)
    _, _, e = span(P - 1)
    E.true('ends at the last task', e == N)
    ds, as_, bs = span(s)
    E.true('lengths differ by at most one', ((b - a) - (bs - as_) <= 1) & ((bs - as_) - (b - a) <= 1))
    E.true('same sizes known to every process', (ds.sizes[r] == b - a) & (d.sizes[s] == bs - as_))
    if r + 1 < P:
        _, a1, b1 = span(r + 1)
        E.true('contiguous and disjoint', a1 == b)


class Recorder(Rank):
    """checks the arguments of a collective call and returns what the call is documented to return"""

    def __init__(self, E, r, n, full, piece, rest):
        super().__init__(r, n)
        self.E, self.full, self.piece, self.rest, self.calls = E, full, piece, rest, []

    def bcast(self, x, root=0):
        return x

    def counts(self, spec):
        E = self.E
        one = 1
        for t in self.rest:
            one = one * t
        E.eq('number of elements of every process', spec[1], (self.size,), lambda i: self.d.sizes[i] * one)
        return spec[0]

    def Allgatherv(self, piece, spec):
        self.calls.append('allgather')
        self.E.same('own piece is sent', piece, self.piece)
        self.counts(spec)[...] = self.full

    def Gatherv(self, piece, spec, root=0):
        self.calls.append(('gather', root))
        self.E.same('own piece is sent', piece, self.piece)
        self.counts(spec)[...] = self.full

    def Scatterv(self, spec, recv, root=0):
        self.calls.append(('scatter', root))
        self.E.same('everything is sent', self.counts(spec), self.full)
        recv[...] = self.piece

    def Allreduce(self, x, out):
        self.calls.append('allreduce')
        self.E.same('own summand is sent', x, self.piece)
        out[...] = 3 * self.piece


@contract('C09', [f'{D}.scatter', f'{D}.gather', f'{D}.allgather', f'{D}.allreduce', f'{D}.bcast'], reps=60)
def arguments_of_the_collectives(E):
    """buffers have the full shape, and counts are those of the task lists; the result is what the collective delivers"""
    m = E.mod(M)
    N = E.int('ntasks', lo=1, cmax=12)
    P = E.int('nproc', lo=1, cmax=6)
    r = E.int('rank', lo=0, hi=P - 1)
    nd = E.choice('trailing', [0, 1, 2])
    rest = tuple(E.int(f't{i}', lo=1, cmax=3) for i in range(nd))
    d0 = m.MpiDistributor(N, comm=Rank(r, P))
    F = E.array('F', (N,) + rest)
    a, b = d0.my_slice.start, d0.my_slice.stop
    piece = F.a[d0.my_slice].copy()
    c = Recorder(E, r, P, F.a, piece, rest)
    d = c.d = m.MpiDistributor(N, comm=c)
    E.eq('all-gather', d.allgather(piece), (N,) + rest, lambda *ix: F(*ix))
    E.eq('gather', d.gather(piece), (N,) + rest, lambda *ix: F(*ix))
    E.eq('scatter', d.scatter(F.a), (b - a,) + rest, lambda i, *t: F(a + i, *t))
    E.eq('sum', d.allreduce(piece), (b - a,) + rest, lambda i, *t: 3 * F(a + i, *t))
    if [x[0] if isinstance(x, tuple) else x for x in c.calls] != ['allgather', 'gather', 'scatter', 'allreduce']:
        raise Missing('one collective call each')
    E.true('root process', all(x[1] == 0 for x in c.calls if isinstance(x, tuple)))
    E.unchanged('frame', F)


class World:
    """in-process communicator: every rank is a thread; buffers are interpreted as flat C or Fortran contiguous memory, as MPI does"""

    def __init__(self, n):
        self.n = n
        self.slots = [None] * n
        self.bar = threading.Barrier(n, timeout=20)

    def exchange(self, r, x):
        self.slots[r] = x
        self.bar.wait()
        out = list(self.slots)
        self.bar.wait()
        return out


def flat(x):
    if x.flags.c_contiguous:
        return x.reshape(-1)
    if x.flags.f_contiguous:
        return x.reshape(-1, order='F')
    raise BufferError('buffer is not contiguous')


def unspec(x, n):
    import numpy as np
    if x is None:
        return None, None, None
    if isinstance(x, np.ndarray):
        return x, None, None
    buf, cnt = x[0], x[1]
    if buf is None:
        return None, None, None
    dis = None
    if isinstance(cnt, tuple) and len(cnt) == 2 and np.ndim(cnt[0]) == 1:
        cnt, dis = cnt
    elif len(x) > 2 and np.ndim(x[2]) == 1:
        dis = x[2]
    cnt = [int(c) for c in np.asarray(cnt)]
    dis = [sum(cnt[:i]) for i in range(n)] if dis is None else [int(z) for z in dis]
    return buf, cnt, dis


class Comm(Rank):
    def __init__(self, w, r):
        super().__init__(r, w.n)
        self.w = w

    def bcast(self, x, root=0):
        return self.w.exchange(self.rank, x)[root]

    def gather(self, x, root=0):
        o = self.w.exchange(self.rank, x)
        return o if self.rank == root else None

    def allgather(self, x):
        return self.w.exchange(self.rank, x)

    def scatter(self, x, root=0):
        return self.w.exchange(self.rank, x)[root][self.rank]

    def allreduce(self, x, op=None):
        o = self.w.exchange(self.rank, x)
        t = o[0]
        for y in o[1:]:
            t = t + y
        return t

    def barrier(self):
        self.w.exchange(self.rank, None)
    Barrier = barrier

    def Bcast(self, x, root=0):
        y = self.w.exchange(self.rank, x)[root]
        if self.rank != root:
            flat(x)[...] = flat(y)

    def _gatherv(self, send, recv, here):
        send = send[0] if isinstance(send, (list, tuple)) else send
        o = self.w.exchange(self.rank, flat(send).copy())
        if here:
            buf, cnt, dis = unspec(recv, self.size)
            f = flat(buf)
            if cnt is None:
                cnt = [len(o[0])] * self.size
                dis = [len(o[0]) * i for i in range(self.size)]
            for i, y in enumerate(o):
                if len(y) != cnt[i] or y.dtype != f.dtype:
                    raise ValueError('MPI_ERR_TRUNCATE')
                f[dis[i]:dis[i] + cnt[i]] = y

    def Gatherv(self, send, recv, root=0):
        self._gatherv(send, recv, self.rank == root)
    Gather = Gatherv

    def Allgatherv(self, send, recv):
        self._gatherv(send, recv, True)
    Allgather = Allgatherv

    def Scatterv(self, send, recv, root=0):
        buf, cnt, dis = self.w.exchange(self.rank, unspec(send, self.size))[root]
        recv = recv[0] if isinstance(recv, (list, tuple)) else recv
        y = flat(buf)[dis[self.rank]:dis[self.rank] + cnt[self.rank]]
        f = flat(recv)
        if len(f) != len(y) or f.dtype != y.dtype:
            raise ValueError('MPI_ERR_TRUNCATE')
        f[...] = y
        self.w.exchange(self.rank, None)

    def Allreduce(self, x, out, op=None):
        o = self.w.exchange(self.rank, flat(x).copy())
        flat(out)[...] = sum(o[1:], o[0])

    def Reduce(self, x, out, op=None, root=0):
        o = self.w.exchange(self.rank, flat(x).copy())
        if self.rank == root:
            flat(out)[...] = sum(o[1:], o[0])


def run_ranks(n, f):
    """f(comm) on every rank; returns the list of results, raises what a rank raised"""
    w = World(n)
    res, exc = [None] * n, [None] * n

    def go(r):
        try:
            res[r] = f(Comm(w, r))
        except BaseException as e:  # noqa
            exc[r] = e
            w.bar.abort()
    ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    real = [e for e in exc if e is not None and not isinstance(e, threading.BrokenBarrierError)]
    if real or any(exc):
        raise (real or [e for e in exc if e is not None])[0]
    return res


@contract('C09', [f'{D}.scatter', f'{D}.gather', f'{D}.allgather', f'{D}.allreduce', f'{D}.bcast', f'{M}.create_distributor'], sym=False,
          reps=150, bounded='all processes run together: threads with an in-process communicator, up to 7 processes')
def scatter_and_gather_are_inverse(E):
    import numpy as np
    m = E.mod(M)
    N = E.int('ntasks', lo=0, cmax=11)
    P = E.int('nproc', lo=1, cmax=7)
    root = E.int('root', lo=0, hi=P - 1)
    rest = tuple(E.int(f't{i}', lo=1, cmax=3) for i in range(E.choice('trailing', [0, 1, 2, 3])))
    dt = E.choice('dtype', [np.float64, np.complex128, np.int64, np.complex64, np.bool_, np.float32])
    order = E.choice('order', ['C', 'F', 'strided'])
    x = (E.nprng.normal(size=(N,) + rest) * 10 + 1j * E.nprng.normal(size=(N,) + rest))
    x = (x.real > 0) if dt == np.bool_ else (x if np.issubdtype(dt, np.complexfloating) else x.real).astype(dt)
    if order == 'F':
        x = np.asfortranarray(x)
    elif order == 'strided':
        y = np.empty((2 * N,) + rest, dtype=dt)
        y[::2] = x
        x = y[::2]
    ref = x.copy()

    def job(c):
        d = m.create_distributor(N, comm=c)
        mine = d.scatter(x if c.rank == root else None, root=root)
        other = {'C': lambda a: a, 'F': np.asfortranarray, 'strided': lambda a: np.repeat(a, 2, axis=0)[::2]}[order]
        g = d.gather(other(mine), root=root)
        ag = d.allgather(other(mine))
        red = None if dt == np.bool_ else d.allreduce(other(np.asarray(x * (c.rank + 1)).astype(dt)))
        return d, mine, g, ag, red, d.bcast(c.rank, root=root)
    res = run_ranks(P, job)
    tasks = []
    for r, (d, mine, g, ag, red, b) in enumerate(res):
        tasks += list(d.my_tasks)
        E.true('piece of the process', mine.dtype == ref.dtype and np.array_equal(mine, ref[list(d.my_tasks)] if len(d.my_tasks) else ref[:0]))
        E.true('gathered by every process', ag.dtype == ref.dtype and np.array_equal(ag, ref))
        E.true('broadcast', b == root)
        if red is not None:
            E.same('sum over the processes', red, ref * (P * (P + 1) // 2), tol=1e-5)
    E.true('gathered by the root process', res[root][2].dtype == ref.dtype and np.array_equal(res[root][2], ref))
    E.true('every task once, in order', tasks == list(range(N)))
    E.true('input kept', np.array_equal(x, ref))
