"""Two interpretations of one contract: symbolic (all sizes, all contents; obligations discharged by the prover) and
concrete (the real, uninstrumented code on seeded inputs or on the inputs of a counterexample)."""
import importlib
import itertools
import os
import random
import sys
import time
import traceback

import numpy as np

from engine import dflt


class Violation(Exception):
    """a contract clause does not hold on concrete inputs"""


class SpecError(BaseException):
    """the contract itself is broken (never a verdict)"""


class Skip(BaseException):
    """precondition not met by the drawn inputs / contract not applicable"""


class Missing(BaseException):
    """the function under contract does not exist (any more) under that name"""


class ModProxy:
    """module access that distinguishes 'function is gone' from an AttributeError inside the code"""

    def __init__(self, m, concrete=False):
        self.__dict__['_m'] = m
        self.__dict__['_c'] = concrete

    def __getattr__(self, k):
        try:
            v = getattr(self._m, k)
        except AttributeError:
            raise Missing(f'{self._m.__name__}.{k}')
        return dflt.attribute(self._m, k, v) if self._c else v

    def __setattr__(self, k, v):
        setattr(self._m, k, v)


# ================================================================================================= concrete
def patch(E, module, name, value):
    """replace a public name of a module for the duration of one run"""
    if not hasattr(module, name):
        raise Missing(name)
    old = getattr(module, name)
    setattr(module, name, value)
    E.cleanup.append(lambda: setattr(module, name, old))


class ConEnv:
    sym = False

    def __init__(self, rng_seed, forced=None, tier='quick', idx=0):
        self.rng = random.Random(rng_seed)
        self.nprng = np.random.default_rng(abs(hash(rng_seed)) % 2 ** 32 if not isinstance(rng_seed, int) else rng_seed)
        self.forced = dict(forced or {})
        self.ints = {}
        self.tier = tier
        self.n_checks = 0
        self.clauses = {}
        self.idx = idx
        self.cleanup = []
        dflt.DROP[0] = idx % 2 == 1
        self.pi = np.pi
        self.i = 1j
        self.np = np

    def patch(self, module, name, value):
        patch(self, module, name, value)

    def loop(self, where, variables, arbitrary, invariant):
        return lambda: True

    def text(self, s):
        return s

    def list(self, n, fn):
        return [fn(i) for i in range(n)]

    def all(self, conditions):
        return all(bool(c) for c in conditions)

    def predicate(self, name, text):
        raise NotImplementedError

    def number(self, text, width=0):
        """the non-negative integer that a piece of text shows, padded with zeros to the given width; None if it does not"""
        return int(text) if text.isdigit() and text == f'{int(text):0{width}}' else None

    # ---- inputs
    def int(self, name, lo=0, hi=None, cmax=None):
        if name in self.forced:
            v = int(self.forced[name])
            if lo is not None and v < lo or hi is not None and v > hi:
                raise Skip(name)
        elif lo is None:
            v = self.rng.randint(-9, 9 if hi is None else min(9, hi))
        else:
            top = cmax if cmax is not None else lo + 7
            if hi is not None:
                top = min(top, hi)
            if top < lo:
                raise Skip(name)
            v = self.rng.randint(lo, top)
        self.ints[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        if name in self.forced:
            k = int(self.forced[name])
        elif self.idx < len(options) and not any(n.startswith('choice:') for n in self.ints):
            k = self.idx
        else:
            k = self.rng.randrange(len(options))
        self.ints[name] = k
        self.ints['choice:' + name] = 1
        return options[k % len(options)]

    def real(self, name, pos=False, lo=None, hi=None):
        lo = (0.3 if pos else -2.0) if lo is None else lo
        hi = 3.0 if hi is None else hi
        v = self.rng.uniform(lo, hi)
        return v

    def cplx(self, name):
        return complex(self.rng.uniform(-1, 1), self.rng.uniform(-1, 1))

    def array(self, name, shape, kind='c', lo=None, hi=None):
        shape = tuple(int(s) for s in shape)
        if any(s < 0 for s in shape):
            raise Skip(name)
        if int(np.prod(shape, dtype=float)) > 3_000_000:
            raise Skip('too large to replay')
        if kind == 'i':
            a = self.nprng.integers(-9 if lo is None else lo, 10 if hi is None else hi, shape)
            if lo is None and hi is None and len(shape) == 2 and shape[0] > 1 and self.nprng.random() < .5:  # related rows: images of the first one
                for r in a[1:]:
                    r[:] = self.nprng.permutation(a[0]) * self.nprng.choice([1, 1, -1], shape[1])
        else:
            a = self.nprng.uniform(-1, 1, shape)
            if kind == 'c' or kind == 'r' and self.nprng.random() > .3:  # 'r': at times an array of real type
                a = a + 1j * self.nprng.uniform(-1, 1, shape)
            if kind == '+':
                a = a + 2.0
        return ConIn(self, name, self.laid_out(a))

    def laid_out(self, a):
        """the same array, at times in another memory layout (a transposed or reversed view): results must not depend on it"""
        if a.ndim < 2 or self.nprng.random() < .7:
            return a
        return np.asfortranarray(a) if self.nprng.random() < .6 else np.ascontiguousarray(a[..., ::-1])[..., ::-1]

    def mod(self, name):
        try:
            return ModProxy(importlib.import_module('dga.' + name), True)
        except ModuleNotFoundError as e:
            if 'dga' in str(e):
                raise Missing(name)
            raise

    def assume(self, c):
        if not c:
            raise Skip('precondition')

    def given(self, name, shape, fn, kind='c'):
        """input array with prescribed contents"""
        shape = tuple(int(s) for s in shape)
        a = np.empty(shape, dtype={'c': complex, 'f': float, 'i': int}[kind])
        for ix in np.ndindex(*shape):
            a[ix] = fn(*ix)
        return ConIn(self, name, self.laid_out(a))

    # ---- spec language
    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def sum(self, lo, hi, f):
        t = 0
        for k in range(int(lo), int(hi)):
            t = t + f(k)
        return t

    def argmin(self, n, fn):
        """position of the smallest of fn(0) ... fn(n - 1)"""
        return int(np.argmin([fn(i) for i in range(int(n))]))

    def first(self, n, fn):
        """position of the first of fn(0) ... fn(n - 1) that holds; n if none does"""
        return next((i for i in range(int(n)) if fn(i)), int(n))

    def conj(self, x):
        return np.conj(x)

    def min(self, *a):
        return min(*a)

    def max(self, *a):
        return max(*a)

    def exp(self, x):
        return np.exp(x)

    def cos(self, x):
        return np.cos(x)

    def sin(self, x):
        return np.sin(x)

    def tan(self, x):
        return np.tan(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return abs(x)

    def mod_n(self, a, n):
        return a % n

    def convolution_theorem(self):
        pass

    def re(self, x):
        return np.real(x)

    def im(self, x):
        return np.imag(x)

    def get(self, arr, *idx):
        """element of a returned array, without wrap around"""
        for i, d in zip(idx, np.shape(arr)):
            if not 0 <= i < d:
                raise Violation(f'the result has shape {np.shape(arr)}: no element {idx}')
        return arr[idx]

    def shape(self, arr):
        return np.shape(arr)

    def matinv(self, n, f):
        m = np.array([[f(i, j) for j in range(n)] for i in range(n)])
        r = np.linalg.inv(m)
        return lambda i, j: r[i, j]

    # ---- clauses
    def _clause(self, label):
        self.n_checks += 1
        self.clauses[label] = self.clauses.get(label, 0) + 1

    def eq(self, label, got, shape, spec, tol=1e-9, ints=False, maxel=4000):
        self._clause(label)
        got = np.asarray(got)
        shape = tuple(int(s) for s in shape)
        if got.shape != shape:
            raise Violation(f'{label}: shape {got.shape}, expected {shape}')
        n = int(np.prod(shape, dtype=float))
        idxs = list(np.ndindex(*shape)) if n <= maxel else \
            [tuple(self.rng.randrange(s) for s in shape) for _ in range(maxel - 300)] + \
            list(itertools.islice(np.ndindex(*shape), 150)) + \
            [tuple(s - 1 - i for s, i in zip(shape, ix)) for ix in itertools.islice(np.ndindex(*shape), 150)]
        if not idxs:
            return
        want = [spec(*ix) for ix in idxs]
        have = [got[ix] for ix in idxs]
        w = np.array(want, dtype=complex)
        h = np.array(have, dtype=complex)
        scale = max(1e-12, float(np.max(np.abs(w[np.isfinite(w)]), initial=0.0)))
        err = np.abs(w - h)
        bad = ~(err <= tol * scale + 1e-13)
        bad &= ~((w == h) | (np.isnan(w) & np.isnan(h)))
        if bad.any():
            k = int(np.argmax(bad))
            raise Violation(f'{label}: element {idxs[k]} of {shape} is {have[k]}, specified {want[k]}')

    def scalar(self, label, got, want, tol=1e-9):
        self._clause(label)
        g, w = complex(np.asarray(got).reshape(-1)[0]) if np.size(got) == 1 else None, None
        if g is None:
            raise Violation(f'{label}: result of shape {np.shape(got)}, expected a scalar')
        w = complex(want)
        if not (abs(g - w) <= tol * max(abs(w), 1e-12) + 1e-13):
            raise Violation(f'{label}: {g}, specified {w}')

    def true(self, label, cond, info=''):
        self._clause(label)
        if not bool(cond):
            raise Violation(f'{label} does not hold {info}')

    def same(self, label, got, other, tol=1e-9):
        """two results of the code agree"""
        self._clause(label)
        a, b = np.asarray(got), np.asarray(other)
        if a.shape != b.shape:
            raise Violation(f'{label}: shapes {a.shape} and {b.shape} differ')
        if a.size and not np.all(np.isfinite(a) == np.isfinite(b)):
            raise Violation(f'{label}: non finite entries differ')
        s = max(1e-12, float(np.max(np.abs(b), initial=0)))
        if a.size and not np.max(np.abs(a - b)) <= tol * s + 1e-13:
            k = np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape)
            raise Violation(f'{label}: element {k}: {a[k]} versus {b[k]}')

    def raises(self, label, exc, thunk):
        self._clause(label)
        try:
            r = thunk()
        except exc:
            return
        except Exception as e:
            raise Violation(f'{label}: raised {type(e).__name__} ({e}) instead')
        raise Violation(f'{label}: no error raised')

    def unchanged(self, label, *ins):
        self._clause(label)
        for x in ins:
            if x.a.shape != x.pristine.shape or not np.array_equal(x.a, x.pristine):
                raise Violation(f'{label}: input {x.name} was modified')


class ConIn:
    def __init__(self, E, name, a):
        self.E, self.name, self.a = E, name, a
        self.pristine = a.copy()

    @property
    def shape(self):
        return self.pristine.shape

    def __call__(self, *idx):
        if len(idx) != self.pristine.ndim:
            raise SpecError(f'specification reads {self.name} with {len(idx)} indices')
        for i, d in zip(idx, self.pristine.shape):
            if not 0 <= i < d:
                raise SpecError(f'specification reads {self.name}{idx} outside shape {self.pristine.shape}')
        return self.pristine[idx].item()


# ================================================================================================= symbolic
class Refuted(BaseException):
    pass


class SymEnv:
    sym = True

    def __init__(self, loader, explorer, results, tier='quick'):
        from engine import npshim, sym, terms
        import z3
        self.S, self.T, self.N, self.z3 = sym, terms, npshim, z3
        self.loader, self.ex, self.results, self.tier = loader, explorer, results, tier
        self.names = {}
        self.pi = sym.SNum(terms.PI, True)
        self.i = sym.SNum(terms.I_, False)
        self.assumed_extra = []
        self.counter = {}
        self.np = npshim.NP
        self.cleanup = []

    def patch(self, module, name, value):
        patch(self, module, name, value)

    def loop(self, where, variables, arbitrary, invariant):
        """decide the data-dependent loop of a function by an invariant over its variables

        where: 'module.function'; arbitrary: values of the variables in any state -> dict; invariant: state -> [(label, condition)]
        """
        from engine import instr
        m, f = where.split('.')[0], where.split('.')[-1]
        self.loops_used = getattr(self, 'loops_used', set())
        instr.LOOPS[m, f] = (self, tuple(variables), arbitrary, invariant)
        self.cleanup.append(lambda: instr.LOOPS.pop((m, f), None))

        def used():
            if f not in self.loops_used:
                raise Missing(f'loop of {where}')
        return used

    def text(self, s):
        return self.S.SymStr.text(s)

    def number(self, text, width=0):
        parts = self.S.SymStr.fields(text)
        if len(parts) != 1:
            return None
        if isinstance(parts[0], str):
            return ConEnv.number(self, text, width)
        x, spec = parts[0]
        return x if spec.rstrip('d') in ((f'0{width}', f'0>{width}') if width > 1 else ('', '0', '1', '01', '>1')) else None

    def all(self, conditions):
        z = [c.z if isinstance(c, self.S.SBool) else self.z3.BoolVal(bool(c)) for c in conditions]
        return self.S.mkbool(self.z3.simplify(self.z3.And(*z)))

    def list(self, n, fn):
        """the list fn(0), ..., fn(n - 1)"""
        return self.S.SList(n, lambda i: fn(self.S.mkint(i)))

    def agrees(self, got, shape, spec):
        """do the entries provably have the given values? (for invariants)"""
        S, z3 = self.S, self.z3
        got = S.to_arr(got).snapshot()
        if len(got.shape) != len(shape) or not all(self.ex.ctx().implies(S.zint(a) == S.zint(b)) for a, b in zip(got.shape, shape)):
            return False
        vs = [self.T.fresh_int('x') for _ in shape]
        n = self.ex.push(*[z3.And(0 <= v, v < S.zint(d)) for v, d in zip(vs, got.shape)])
        try:
            self.ex._ctx = None
            if not self.ex.ctx().feasible():
                return True
            r = self.T.prove_eq(S.num_term(got.get(vs)), S.num_term(spec(*[S.SInt(v) for v in vs])), self.ex.ctx())
            return r[0] == 'proved'
        finally:
            self.ex.pop(n)

    def predicate(self, name, text):
        """an arbitrary but fixed truth value for every text"""
        return self.S.SBool(self.z3.Bool(f'{name}[{self.text(text)}]'))

    def invariant(self, label, cond):
        ok = self.ex.ctx().implies(cond.z) if isinstance(cond, self.S.SBool) else bool(cond)
        if not ok:
            raise Missing(f'{label} is not established by the code')
        self.true(label, cond)

    # ---- inputs
    def int(self, name, lo=0, hi=None, cmax=None):
        v = self.z3.Int(name)
        self.names[name] = v
        if lo is not None:
            self._assume(v >= lo)
        if hi is not None:
            self._assume(v <= self.S.zint(hi))
        return self.S.SInt(v)

    def _assume(self, c):
        self.ex.pc.append(c)
        self.ex._ctx = None
        if not self.ex.ctx().feasible():
            raise self.S.PathEnd()

    def assume(self, c):
        if isinstance(c, self.S.SBool):
            self._assume(c.z)
        elif not c:
            raise self.S.PathEnd()

    def choice(self, name, options):
        options = list(options)
        v = self.z3.Int(name)
        self.names[name] = v
        for k in range(len(options) - 1):
            if self.ex.decide(v == k):
                return options[k]
        self._assume(v == len(options) - 1)
        return options[-1]

    def real(self, name, pos=False, lo=None, hi=None):
        if pos:
            self.ex.signs = getattr(self.ex, 'signs', {})
            self.ex.signs[name] = 1
        return self.S.SNum(self.T.Elem(name, (), real=True), True)

    def cplx(self, name):
        return self.S.SNum(self.T.Elem(name, ()), False)

    def array(self, name, shape, kind='c', lo=None, hi=None):
        """array of arbitrary contents; integers in [lo, hi)"""
        if kind == 'i':
            z3, S = self.z3, self.S
            a = [] if lo is None else [lambda e: S.zint(lo) <= e]
            a += [] if hi is None else [lambda e: e < S.zint(hi)]
            if a:
                # hi/lo must not depend on the element's own index
                self.axiom(name, lambda *idx: z3.And(*[f(self.intfun(name, len(shape))(*idx)) for f in a]))
        return SymIn(self, name, tuple(shape), kind)

    def intfun(self, name, n):
        return self.z3.Function(name, *([self.z3.IntSort()] * (n + 1)))

    def axiom(self, name, f):
        """a fact about every element of the integer array `name` (precondition); f: z3 indices -> z3 formula"""
        old = self.T.AXIOMS.get(name)
        self.T.AXIOMS[name] = f if old is None else (lambda *i: self.z3.And(old(*i), f(*i)))

    def given(self, name, shape, fn, kind='c'):
        return SymIn(self, name, tuple(shape), kind, fn)

    def mod(self, name):
        try:
            return ModProxy(self.loader.load(name))
        except FileNotFoundError:
            raise Missing(name)

    # ---- spec language
    def ite(self, c, a, b):
        if not isinstance(c, self.S.SBool):
            r = a if c else b
            return r() if callable(r) else r
        d = self.ex.ctx().decide(c.z)
        if d is not None:
            r = a if d else b
            return r() if callable(r) else r

        def ev(x, cond):
            if not callable(x):
                return x
            n = self.ex.push(cond)
            try:
                return x()
            finally:
                self.ex.pop(n)
        return self.S.ite(c.z, ev(a, c.z), ev(b, self.z3.Not(c.z)))

    def sum(self, lo, hi, f):
        lo, hi = self.S.zint(lo), self.S.zint(hi)
        ln = self.T.zsimp(hi - lo)
        if self.z3.is_int_value(ln) and ln.as_long() <= 8:
            t = 0
            for k in range(ln.as_long()):
                t = t + f(self.S.mkint(lo + k))
            return t
        v = self.T.fresh_int('s')
        n = self.ex.push(lo <= v, v < hi)
        try:
            b = f(self.S.SInt(v))
        finally:
            self.ex.pop(n)
        return self.S.SNum(self.T.Sum(v, lo, hi, self.S.num_term(b)), self.S.is_real(b))

    def conj(self, x):
        return x.conjugate()

    def argmin(self, n, fn):
        from engine.npshim import NP
        return NP.argmin(self.given(f'argmin {self.T.fresh_int("a")}', (n,), fn, kind='f').a)

    def first(self, n, fn):
        from engine.npshim import NP
        a = self.S.SArr.make((n,), lambda ix: fn(self.S.mkint(ix[0])), 'b')
        return self.ite(NP.any(a), lambda: NP.argmax(a), n)

    def min(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.N.smin(r, x)
        return r

    def max(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.N.smax(r, x)
        return r

    def exp(self, x):
        return self.N.NP.exp(x)

    def cos(self, x):
        return self.N.NP.cos(x)

    def sin(self, x):
        return self.N.NP.sin(x)

    def tan(self, x):
        return self.N.NP.tan(x)

    def sqrt(self, x):
        return self.N.NP.sqrt(x)

    def abs(self, x):
        return abs(x)

    def re(self, x):
        return x.real

    def im(self, x):
        return x.imag

    def convolution_theorem(self):
        """assumed contract of numpy.fft: a transform of a product of two transforms is their circular sum"""
        self.T.CONVOLVE = True

    def mod_n(self, a, n):
        return self.S.mkint(self.N.modn(self.S.zint(a), self.S.zint(n)))

    def get(self, arr, *idx):
        a = self.S.to_arr(arr)
        c = self.ex.ctx()
        for i, d in zip(idx, a.shape):
            z = self.S.zint(i)
            if not c.implies(self.z3.And(0 <= z, z < self.S.zint(d))):
                raise SpecError(f'specification reads a result outside its shape ({z} of {d})')
        return a.get(list(idx))

    def shape(self, arr):
        return self.S.to_arr(arr).shape

    def matinv(self, n, f):
        p, q = self.T.fresh_int('m'), self.T.fresh_int('m')
        zn = self.S.zint(n)
        m = self.ex.push(0 <= p, p < zn, 0 <= q, q < zn)
        try:
            b = self.S.num_term(f(self.S.SInt(p), self.S.SInt(q)))
        finally:
            self.ex.pop(m)
        return lambda i, j: self.S.SNum(self.T.Opq('matinv', (zn, zn), (p, q), b, (self.S.zint(i), self.S.zint(j))))

    # ---- clauses
    def _begin(self, label):
        k = self.counter.get(label, 0)
        self.counter[label] = k + 1
        self.cur_label = label if k == 0 else f'{label}#{k}'
        self.cur_key = (self.cur_label, tuple(c.get_id() for c in self.ex.pc))
        self.results.setdefault('keep', []).extend(self.ex.pc)
        return self.cur_key in self.results.setdefault('done', {})

    def _record(self, status, info='', model=None):
        self.results['done'][self.cur_key] = status
        self.results.setdefault('obl', []).append(
            {'label': self.cur_label, 'status': status, 'info': str(info)[:3000], "model": model})

    def _small_model(self, *conds):
        """a model of the path condition and conds with small sizes"""
        z3 = self.z3
        ctx = self.ex.ctx()
        best = None
        for b in (3, 5, 8, 13, 21, 40, 100, 1000, None):
            cs = [] if b is None else [z3.And(v <= b, v >= -b) for v in self.names.values()]
            r, m = ctx.check(*conds, *cs)
            if r == z3.sat:
                best = m
                break
        if best is None:
            return None
        out = {}
        for n, v in self.names.items():
            x = best.eval(v, model_completion=True)
            out[n] = x.as_long()
        return out

    def _prove_val(self, got, want, what):
        """returns True if proved, else records"""
        T, S = self.T, self.S
        if S.is_intlike(got) and S.is_intlike(want) and not isinstance(got, bool):
            c = S.zint(got) == S.zint(want)
            if self.ex.ctx().implies(c):
                return True
            m = self._small_model(self.z3.Not(c))
            self._record('refuted' if m else 'unknown', f'{what}: got {got} want {want}', m)
            return False
        r = T.prove_eq(S.num_term(got), S.num_term(want), self.ex.ctx())
        if r[0] == 'proved':
            return True
        if r[0] == 'refuted':
            model, info = r[1]
            # small model: keep the values of the failing branch if no small one is found
            m = {n: model.eval(v, model_completion=True).as_long() for n, v in self.names.items()}
            self.last_model = None
            small = self._shrink(m, got, want)
            from engine import numeric
            t1, t2 = S.num_term(got), S.num_term(want)
            res = [numeric.differ(t1, t2, x) for x in (self.last_model, model) if x is not None]
            if False in res and True not in res:
                # both sides have the same value at the model: the prover is too weak here, this is no refutation
                self._record('unknown', f'{what}: {info} (no difference at the counter-model)', m)
            else:
                self._record('refuted', f'{what}: {info}', small or m)
            return False
        self._record('unknown', f'{what}: {r[1]}')
        return False

    def _shrink(self, m, got, want):
        """try to refute under small bounds on the sizes"""
        z3 = self.z3
        t0 = time.time()
        for b in (2, 3, 5, 8, 14):
            if max(abs(x) for x in m.values()) <= b:
                return m
            c = self.ex.ctx().extend(*[z3.And(v <= b, v >= -b) for v in self.names.values()])
            if not c.feasible():
                continue
            try:
                r = self.T.prove_eq(self.S.num_term(got), self.S.num_term(want), c)
            except self.T.Unsupported:
                return None
            if r[0] == 'refuted':
                self.last_model = r[1][0]
                return {n: r[1][0].eval(v, model_completion=True).as_long() for n, v in self.names.items()}
            if time.time() - t0 > 20:
                break
        return None

    def _shape_ok(self, got, shape):
        S = self.S
        if len(got.shape) != len(shape):
            self._record('refuted', f'rank {len(got.shape)} instead of {len(shape)}', self._small_model())
            return False
        for a, b in zip(got.shape, shape):
            c = S.zint(a) == S.zint(b)
            if not self.ex.ctx().implies(c):
                m = self._small_model(self.z3.Not(c))
                self._record('refuted' if m else 'unknown', f'shape: {a} instead of {b}', m)
                return False
        return True

    def eq(self, label, got, shape, spec, tol=None, ints=False, maxel=None):
        if self._begin(label):
            return
        S, z3 = self.S, self.z3
        got = S.to_arr(got).snapshot()
        if not self._shape_ok(got, shape):
            return
        vs = [self.T.fresh_int('x') for _ in shape]
        n = self.ex.push(*[z3.And(0 <= v, v < S.zint(d)) for v, d in zip(vs, got.shape)])
        try:
            self.ex._ctx = None
            if not self.ex.ctx().feasible():
                self._record('proved', 'empty')
                return
            g = got.get(vs)
            w = spec(*[S.SInt(v) for v in vs])
            if self._prove_val(g, w, 'element'):
                self._record('proved')
        finally:
            self.ex.pop(n)

    def scalar(self, label, got, want, tol=None):
        if self._begin(label):
            return
        if isinstance(got, self.S.SArr):
            got = got.item()
        if self._prove_val(got, want, 'value'):
            self._record('proved')

    def true(self, label, cond, info=''):
        if self._begin(label):
            return
        if isinstance(cond, self.S.SBool):
            if self.ex.ctx().implies(cond.z):
                self._record('proved')
            else:
                m = self._small_model(self.z3.Not(cond.z))
                self._record('refuted' if m else 'unknown', f'{cond.z}', m)
        elif cond:
            self._record('proved')
        else:
            self._record('refuted', info, self._small_model())

    def same(self, label, got, other, tol=None):
        if self.S.is_scalar(got) and self.S.is_scalar(other):
            return self.scalar(label, got, other)
        o = self.S.to_arr(other).snapshot()
        self.eq(label, got, o.shape, lambda *ix: o.get(list(ix)))

    def raises(self, label, exc, thunk):
        try:
            thunk()
        except exc:
            if not self._begin(label):
                self._record('proved')
            return
        if not self._begin(label):
            self._record('refuted', 'no error raised', self._small_model())

    def unchanged(self, label, *ins):
        for x in ins:
            self.eq(f'{label}:{x.name}', x.a, x.shape, lambda *ix: x(*ix))


class SymIn:
    def __init__(self, E, name, shape, kind, fn=None):
        S, T = E.S, E.T
        self.E, self.name, self.kind = E, name, kind
        k = {'c': 'c', 'r': 'c', 'f': 'f', '+': 'f', 'i': 'i'}[kind]
        if fn is not None:
            self.el = lambda idx: fn(*[S.mkint(i) for i in idx])
        elif kind == 'i':
            f = E.z3.Function(name, *([E.z3.IntSort()] * (len(shape) + 1)))
            self.el = lambda idx: S.SInt(f(*idx))
        else:
            self.el = lambda idx: S.SNum(T.Elem(name, idx, real=k != 'c'), k != 'c')
        self.a = S.SArr.make(shape, self.el, k, name=name)
        self.shape = self.a.shape

    def __call__(self, *idx):
        S = self.E.S
        if len(idx) != len(self.shape):
            raise SpecError(f'specification reads {self.name} with {len(idx)} indices')
        zs = [S.zint(i) for i in idx]
        c = self.E.ex.ctx()
        z3 = self.E.z3
        for z, d in zip(zs, self.shape):
            if not c.implies(z3.And(0 <= z, z < S.zint(d))):
                raise SpecError(f'specification reads {self.name} outside its shape: {z} of {d}')
        return self.el([S.recombine(self.E.T.zsimp(z)) for z in zs])
