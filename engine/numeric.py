"""Numeric evaluation of terms at a model: confirms (or not) that two terms which the prover could not match really differ.

A failed match is only a refutation if the two sides differ for some interpretation of the data.  Arrays are interpreted by a hash
of name and index, integers by the solver's model, inverses / exponentials / ... by their meaning."""
import cmath
import hashlib
import math
import os
import sys
import time

import numpy as np
import z3

from engine import terms as T


class CannotEvaluate(Exception):
    pass


class Evaluator:
    def __init__(self, model, seed, positive, limit=4.0, nodes=400000):
        self.model, self.seed, self.positive = model, seed, positive
        self.t0, self.limit, self.nodes = time.time(), limit, nodes
        self.zc, self.tc, self.elems, self.opq, self.ufs = {}, {}, {}, {}, {}
        self.keep = []

    # ---- integer expressions
    def z(self, e):
        k = e.get_id()
        f = self.zc.get(k)
        if f is None:
            self.keep.append(e)
            f = self.zc[k] = self._z(e)
        return f

    def _z(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return lambda env: v
        if z3.is_true(e):
            return lambda env: True
        if z3.is_false(e):
            return lambda env: False
        if z3.is_rational_value(e):
            v = float(e.as_fraction())
            return lambda env: v
        if not z3.is_app(e):
            raise CannotEvaluate('quantifier')
        kind = e.decl().kind()
        ch = [self.z(c) for c in e.children()]
        if kind == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                i = e.get_id()
                m = self.model

                def const(env):
                    if i in env:
                        return env[i]
                    if i not in self.ufs:
                        self.ufs[i] = self._val(m.eval(e, model_completion=True))
                    return self.ufs[i]
                return const
            decl, isb = e.decl(), z3.is_bool(e)
            sorts = [c.sort() for c in e.children()]

            def app(env):
                a = tuple(c(env) for c in ch)
                key = (decl.name(), a)
                if key not in self.ufs:
                    args = [z3.BoolVal(x) if s == z3.BoolSort() else z3.IntVal(x) for x, s in zip(a, sorts)]
                    self.ufs[key] = self._val(self.model.eval(decl(*args), model_completion=True))
                return self.ufs[key]
            return app
        if kind == z3.Z3_OP_ADD:
            return lambda env: sum(c(env) for c in ch)
        if kind == z3.Z3_OP_SUB:
            return lambda env: ch[0](env) - sum(c(env) for c in ch[1:])
        if kind == z3.Z3_OP_UMINUS:
            return lambda env: -ch[0](env)
        if kind == z3.Z3_OP_MUL:
            return lambda env: math.prod(c(env) for c in ch)
        if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            def dm(env):
                a, b = ch[0](env), ch[1](env)
                if b == 0:
                    raise CannotEvaluate('division by zero')
                r = a % abs(b)
                return r if kind != z3.Z3_OP_IDIV else (a - r) // b
            return dm
        if kind == z3.Z3_OP_ITE:
            return lambda env: ch[1](env) if ch[0](env) else ch[2](env)
        if kind == z3.Z3_OP_AND:
            return lambda env: all(c(env) for c in ch)
        if kind == z3.Z3_OP_OR:
            return lambda env: any(c(env) for c in ch)
        if kind == z3.Z3_OP_NOT:
            return lambda env: not ch[0](env)
        if kind == z3.Z3_OP_IMPLIES:
            return lambda env: not ch[0](env) or ch[1](env)
        if kind == z3.Z3_OP_XOR:
            return lambda env: ch[0](env) != ch[1](env)
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return lambda env: ch[0](env) == ch[1](env)
        if kind == z3.Z3_OP_DISTINCT:
            return lambda env: len({c(env) for c in ch}) == len(ch)
        if kind == z3.Z3_OP_LE:
            return lambda env: ch[0](env) <= ch[1](env)
        if kind == z3.Z3_OP_LT:
            return lambda env: ch[0](env) < ch[1](env)
        if kind == z3.Z3_OP_GE:
            return lambda env: ch[0](env) >= ch[1](env)
        if kind == z3.Z3_OP_GT:
            return lambda env: ch[0](env) > ch[1](env)
        if kind in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
            return ch[0]
        raise CannotEvaluate(f'operation {e.decl()}')

    @staticmethod
    def _val(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        raise CannotEvaluate('no value in the model')

    # ---- data
    def elem(self, name, idx, real):
        k = (name, idx)
        v = self.elems.get(k)
        if v is None:
            h = hashlib.blake2b(repr((self.seed, str(name), idx)).encode(), digest_size=16).digest()
            a, b = int.from_bytes(h[:8], 'big') / 2 ** 64, int.from_bytes(h[8:], 'big') / 2 ** 64
            if real:
                v = 0.4 + a if self.positive or b < 0.5 else -0.4 - a
            else:
                v = (0.4 + a) * cmath.exp(2j * math.pi * b)
            self.elems[k] = v
        return v

    def free(self, t):
        """identities of the variables a term depends on (cache key)"""
        k = id(t)
        r = self.tc.get(k)
        if r is None:
            acc = set()

            def zz(e):
                acc.update(T.zvars(e).keys())
            if isinstance(t, T.Elem):
                for e in t.idx:
                    zz(e)
            elif isinstance(t, T.IntT):
                zz(t.z)
            elif isinstance(t, (T.Add, T.Mul)):
                for x in t.ts:
                    acc |= self.free(x)
            elif isinstance(t, T.Inv):
                acc |= self.free(t.t)
            elif isinstance(t, T.Ite):
                zz(t.c)
                acc |= self.free(t.a) | self.free(t.b)
            elif isinstance(t, T.Sum):
                acc |= self.free(t.body)
                acc.discard(t.v.get_id())
                zz(t.lo), zz(t.hi)
            elif isinstance(t, T.Fn):
                for x in t.args:
                    acc |= self.free(x)
            elif isinstance(t, T.Opq):
                acc |= self.free(t.body)
                for v in t.vs:
                    acc.discard(v.get_id())
                for e in list(t.shape) + list(t.idx):
                    zz(e)
            self.keep.append(t)
            r = self.tc[k] = frozenset(acc)
        return r

    def term(self, t, env):
        self.nodes -= 1
        if self.nodes < 0 or self.nodes % 512 == 0 and time.time() - self.t0 > self.limit:
            raise CannotEvaluate('too large')
        if isinstance(t, T.Const):
            return complex(t.re, t.im) if t.im else float(t.re)
        if isinstance(t, T.Elem):
            if t.name == 'pi':
                return math.pi
            v = self.elem(t.name, tuple(self.z(e)(env) for e in t.idx), t.real)
            return v.conjugate() if t.cj else v
        if isinstance(t, T.IntT):
            return self.z(t.z)(env)
        if isinstance(t, T.Add):
            return sum(self.term(x, env) for x in t.ts)
        if isinstance(t, T.Mul):
            r = 1
            for x in t.ts:
                r = r * self.term(x, env)
                if r == 0:
                    return 0.0
            return r
        if isinstance(t, T.Inv):
            v = self.term(t.t, env)
            if abs(v) < 1e-12:
                raise CannotEvaluate('division by zero')
            return 1 / v
        if isinstance(t, T.Ite):
            return self.term(t.a if self.z(t.c)(env) else t.b, env)
        if isinstance(t, T.Sum):
            fr = self.free(t)
            key = (id(t), tuple((i, env[i]) for i in sorted(fr) if i in env))
            if key in self.opq:
                return self.opq[key]
            lo, hi = self.z(t.lo)(env), self.z(t.hi)(env)
            i, s = t.v.get_id(), 0.0
            self.keep.append(t.v)
            e2 = dict(env)
            for k in range(lo, hi):
                e2[i] = k
                s += self.term(t.body, e2)
            self.opq[key] = s
            return s
        if isinstance(t, T.Fn):
            a = [self.term(x, env) for x in t.args]
            v = self.fn(t.name, a)
            return v.conjugate() if t.cj else v
        if isinstance(t, T.Opq):
            M = self.functional(t, env)
            v = complex(M[tuple(self.z(e)(env) for e in t.idx)]) if M.ndim else complex(M)
            return v.conjugate() if t.cj else v
        raise CannotEvaluate(str(type(t)))

    def fn(self, name, a):
        name = name[0] if isinstance(name, tuple) else name
        if name == 'abs':
            return abs(a[0])
        if name == 'pow':
            return complex(a[0]) ** a[1]
        if name == 'sign':
            return float(np.sign(complex(a[0]).real))
        if name == 'arctan':
            return cmath.atan(a[0])
        if name in ('exp', 'cos', 'sin', 'sqrt', 'log', 'tanh', 'cosh', 'sinh', 'tan', 'log10'):
            try:
                return getattr(cmath, name)(a[0])
            except (OverflowError, ValueError):
                raise CannotEvaluate(name)
        raise CannotEvaluate('function ' + str(name))

    def functional(self, t, env):
        fr = self.free(t.body)
        ids = {v.get_id() for v in t.vs}
        key = (id(t), tuple((i, env[i]) for i in sorted(fr) if i in env and i not in ids), tuple(self.z(s)(env) for s in t.shape))
        if key in self.opq:
            return self.opq[key]
        shape = key[2]
        if math.prod(shape) > 4000:
            raise CannotEvaluate('too large')
        A = np.zeros(shape, complex)
        e2 = dict(env)
        for ix in np.ndindex(*shape):
            for v, k in zip(t.vs, ix):
                e2[v.get_id()] = int(k)
            A[ix] = self.term(t.body, e2)
        if t.name == 'matinv':
            if shape[0] and np.linalg.cond(A) > 1e8:
                raise CannotEvaluate('singular')
            M = np.linalg.inv(A)
        elif t.name in ('amin', 'amax'):
            M = np.asarray(getattr(np, t.name)(A.real))
        elif t.name == 'fft':
            M = np.fft.fftn(A)
        elif t.name in ('ifft', 'ifftn'):
            M = np.fft.ifftn(A)
        else:
            raise CannotEvaluate('functional ' + str(t.name))
        self.opq[key] = M
        return M


def differ(t1, t2, model):
    """True: the terms differ at this model; False: they agree for several interpretations; None: cannot be evaluated"""
    agree = 0
    for seed, positive in ((1, False), (2, True), (3, False)):
        try:
            E = Evaluator(model, seed, positive)
            a, b = complex(E.term(t1, {})), complex(E.term(t2, {}))
            if os.environ.get('DGA_TRACE'):
                print('VALUES', a, b, str(model)[:400], file=sys.stderr)
        except (CannotEvaluate, ZeroDivisionError, OverflowError, IndexError, T.Unsupported, RecursionError) as e:
            if os.environ.get('DGA_TRACE'):
                print('VALUES', type(e), e, file=sys.stderr)
            continue
        if not (cmath.isfinite(a) and cmath.isfinite(b)):
            continue
        if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)):
            return True
        agree += 1
    return False if agree >= 2 else None
