"""Scalar terms, their normal form, and the equality prover.

A term denotes a complex number depending on unbounded integer parameters (array sizes, frequency indices, ...)
and on uninterpreted array contents.  ``prove_eq`` decides t1 == t2 for ALL values of the integers satisfying a
context (z3 formulae) and ALL array contents, by rewriting the difference to a guarded sum-of-products normal form

    sum_m  c_m * Sum_{binders_m | guards_m}  prod atoms_m

aligning the monomials (bijective affine re-indexing of the bound variables, index equality decided by z3) and
discharging with z3 that the guarded coefficients of every class cancel.
Numbers are mathematical (exact rationals); rounding is not modelled.
"""
import itertools
import os
import sys
import math
import time
from fractions import Fraction

import z3

STATS = {'z3_calls': 0, 'z3_time': 0.0}
_ctr = itertools.count()


class Unsupported(BaseException):
    """Raised when a construct is outside the verifier's reach (never turned into a verdict)."""


class Deadline(Unsupported):
    pass


DEADLINE = [None]


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Deadline('time budget of the obligation exhausted')


def fresh_int(prefix='v'):
    return z3.Int(f'{prefix}!{next(_ctr)}')


def iv(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


# ------------------------------------------------------------------------------------------------ contexts
AXIOMS = {}   # name of an uninterpreted integer array -> function(*indices) giving facts about that element (given as preconditions)
COUNTS = {}   # name of the counts of numpy.unique -> (number of values, function position -> value, number of positions)
_apps_memo = {}


def fn_apps(e):
    """applications of axiomatised integer arrays inside e"""
    k = e.get_id()
    r = _apps_memo.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = {}
    for c in e.children():
        out.update(fn_apps(c))
    if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in AXIOMS:
        out[k] = e
    _apps_memo[k] = (e, out)
    return out


def instances(cs):
    out, done, todo = [], set(), list(cs)
    for _ in range(3):
        apps = {}
        for c in todo:
            apps.update(fn_apps(c))
        todo = []
        for k, a in apps.items():
            if k not in done:
                done.add(k)
                todo.append(AXIOMS[a.decl().name()](*a.children()))
        out += todo
        if not todo:
            break
    return out


class Ctx:
    def __init__(self, conds=()):
        self.conds = tuple(conds)
        self._s = None
        self._memo = {}

    def extend(self, *cs):
        cs = [c for c in cs if not z3.is_true(c)]
        return Ctx(self.conds + tuple(cs)) if cs else self

    def _solver(self):
        if self._s is None:
            self._s = z3.Solver()
            self._s.set('timeout', 3000)
            for c in self.conds:
                self._s.add(c)
            if AXIOMS:
                for c in instances(self.conds):
                    self._s.add(c)
        return self._s

    def check(self, *cs):
        check_deadline()
        s = self._solver()
        t = time.time()
        s.push()
        for c in cs:
            s.add(c)
        if AXIOMS:
            for c in instances(cs):
                s.add(c)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t
        return r, m

    def implies(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible()
        k = (0, c.get_id())
        if k not in self._memo:
            r, _ = self.check(z3.Not(c))
            self._memo[k] = (r == z3.unsat, c)
        return self._memo[k][0]

    def feasible(self, c=None):
        c = z3.BoolVal(True) if c is None else c
        k = (1, c.get_id())
        if k not in self._memo:
            r, _ = self.check(c)
            self._memo[k] = (r != z3.unsat, c)
        return self._memo[k][0]

    def decide(self, c):
        """True / False / None"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.implies(c):
            return True
        if self.implies(z3.Not(c)):
            return False
        return None

    def eq(self, a, b):
        if a.eq(b):
            return True
        return self.implies(a == b)


# ------------------------------------------------------------------------------------------------ linear ints
def lin(e):
    """z3 int expr -> (dict id -> (expr, coef), const); non linear parts become opaque leaves"""
    d = {}
    c = _lin(e, 1, d)
    return {k: v for k, v in d.items() if v[1] != 0}, c


def _lin(e, f, d):
    if z3.is_int_value(e):
        return f * e.as_long()
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return sum(_lin(x, f, d) for x in e.children())
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        return _lin(ch[0], f, d) + sum(_lin(x, -f, d) for x in ch[1:])
    if k == z3.Z3_OP_UMINUS:
        return _lin(e.arg(0), -f, d)
    if k == z3.Z3_OP_MUL:
        num, rest = 1, []
        for x in e.children():
            if z3.is_int_value(x):
                num *= x.as_long()
            else:
                rest.append(x)
        if not rest:
            return f * num
        if len(rest) == 1:
            return _lin(rest[0], f * num, d)
        # distribute products of sums so that equal polynomials get equal leaves
        pe = z3.simplify(e, som=True)
        if not pe.eq(e) and pe.decl().kind() != z3.Z3_OP_MUL:
            return _lin(pe, f, d)
    if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
        # canonical: a mod k = a - k (a div k), and multiples of k leave the div
        kk = e.arg(1).as_long()
        dd = {}
        c = _lin(e.arg(0), 1, dd)
        r = {i: (x, g % kk) for i, (x, g) in dd.items() if g % kk}
        out, rr = 0, c % kk
        if k == z3.Z3_OP_MOD:
            if not r:
                return f * rr
            for i, (x, g) in r.items():
                d[i] = (x, d.get(i, (x, 0))[1] + f * g)
            out, f = f * rr, -f * kk
        else:
            for i, (x, g) in dd.items():
                if g // kk:
                    d[i] = (x, d.get(i, (x, 0))[1] + f * (g // kk))
            out = f * (c // kk)
            if not r:
                return out
        e = z3.simplify(from_lin({i: r[i] for i in sorted(r)}, rr)) / kk
        _KEEP.append(e)
        i = e.get_id()
        d[i] = (e, d.get(i, (e, 0))[1] + f)
        return out
    i = e.get_id()
    d[i] = (e, d.get(i, (e, 0))[1] + f)
    return 0


_KEEP = []


def from_lin(d, c):
    out = z3.IntVal(c)
    parts = [v[1] * v[0] if v[1] != 1 else v[0] for v in d.values()]
    if not parts:
        return out
    s = parts[0]
    for p in parts[1:]:
        s = s + p
    return s + c if c else s


def zsimp(e):
    if z3.is_int_value(e):
        return e
    return z3.simplify(e)


def occurs(e, var, _cache=None):
    """does z3 const var occur in expr e"""
    vid = var.get_id()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def zvars(e, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[i] = x
        st.extend(x.children())
    return acc


# ------------------------------------------------------------------------------------------------ terms
class Term:
    __slots__ = ()


class Const(Term):
    __slots__ = ('re', 'im')

    def __init__(self, re, im=0):
        self.re, self.im = Fraction(re), Fraction(im)


class Elem(Term):
    __slots__ = ('name', 'idx', 'cj', 'real')

    def __init__(self, name, idx=(), cj=False, real=False):
        self.name, self.idx, self.real = name, tuple(idx), real
        self.cj = cj and not real


class IntT(Term):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = iv(z)


class Add(Term):
    __slots__ = ('ts',)

    def __init__(self, ts):
        self.ts = tuple(ts)


class Mul(Term):
    __slots__ = ('ts',)

    def __init__(self, ts):
        self.ts = tuple(ts)


class Inv(Term):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Ite(Term):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Sum(Term):
    __slots__ = ('v', 'lo', 'hi', 'body')

    def __init__(self, v, lo, hi, body):
        self.v, self.lo, self.hi, self.body = v, iv(lo), iv(hi), body


class Fn(Term):
    """uninterpreted scalar function (congruence only); flags: real (result real)"""
    __slots__ = ('name', 'args', 'real', 'cj')

    def __init__(self, name, args, real=False, cj=False):
        self.name, self.args, self.real = name, tuple(args), real
        self.cj = cj and not real


class Opq(Term):
    """element ``idx`` of an uninterpreted functional ``name`` applied to the array  lambda vs in shape. body"""
    __slots__ = ('name', 'shape', 'vs', 'body', 'idx', 'cj', 'real')

    def __init__(self, name, shape, vs, body, idx, cj=False, real=False):
        self.name, self.shape, self.vs, self.body, self.idx = name, tuple(shape), tuple(vs), body, tuple(idx)
        self.cj, self.real = cj and not real, real


ZERO, ONE = Const(0), Const(1)
I_ = Const(0, 1)
PI = Elem('pi', (), real=True)


def add(*ts):
    ts = [t for t in ts if not (isinstance(t, Const) and t.re == 0 and t.im == 0)]
    if not ts:
        return ZERO
    if all(isinstance(t, Const) for t in ts):
        return Const(sum(t.re for t in ts), sum(t.im for t in ts))
    return ts[0] if len(ts) == 1 else Add(ts)


def mul(*ts):
    out, re, im = [], Fraction(1), Fraction(0)
    for t in ts:
        if isinstance(t, Const):
            re, im = re * t.re - im * t.im, re * t.im + im * t.re
        else:
            out.append(t)
    if re == 0 and im == 0:
        return ZERO
    # |x| |x| = x conj(x)
    mods = [i for i, t in enumerate(out) if isinstance(t, Fn) and t.name == 'abs']
    if len(mods) > 1:
        for i in mods:
            for j in mods:
                if i < j and out[i] is not None and out[j] is not None and out[i].args[0] is out[j].args[0]:
                    x = out[i].args[0]
                    out[i], out[j] = mul(x, conj(x)), None
        out = [t for t in out if t is not None]
    if not (re == 1 and im == 0):
        out.insert(0, Const(re, im))
    if not out:
        return ONE
    return out[0] if len(out) == 1 else Mul(out)


def neg(t):
    return mul(Const(-1), t)


def inv(t):
    if isinstance(t, Const):
        n = t.re * t.re + t.im * t.im
        if n == 0:
            raise Unsupported('division by literal zero')
        return Const(t.re / n, -t.im / n)
    if isinstance(t, Inv):
        return t.t
    return Inv(t)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    return Ite(c, a, b)


def conj(t):
    if isinstance(t, Const):
        return Const(t.re, -t.im)
    if isinstance(t, Elem):
        return t if t.real else Elem(t.name, t.idx, not t.cj)
    if isinstance(t, IntT):
        return t
    if isinstance(t, Add):
        return Add([conj(x) for x in t.ts])
    if isinstance(t, Mul):
        return Mul([conj(x) for x in t.ts])
    if isinstance(t, Inv):
        return Inv(conj(t.t))
    if isinstance(t, Ite):
        return Ite(t.c, conj(t.a), conj(t.b))
    if isinstance(t, Sum):
        return Sum(t.v, t.lo, t.hi, conj(t.body))
    if isinstance(t, Fn):
        if t.real:
            return t
        if t.name in ('exp', 'cos', 'sin', 'cosh', 'sinh'):
            return Fn(t.name, [conj(a) for a in t.args])
        return Fn(t.name, t.args, False, not t.cj)
    if isinstance(t, Opq):
        if t.real:
            return t
        if t.name in ('matinv',):
            return Opq(t.name, t.shape, t.vs, conj(t.body), t.idx)
        return Opq(t.name, t.shape, t.vs, t.body, t.idx, not t.cj)
    raise Unsupported(f'conj of {type(t)}')


def subst(t, pairs):
    """substitute z3 vars (list of (var, expr)) in a term"""
    if not pairs:
        return t
    return map_z(t, lambda e: z3.substitute(e, *pairs))


def map_z(t, z):
    """apply a function to every index expression of a term"""
    def go(t):
        if isinstance(t, Const):
            return t
        if isinstance(t, Elem):
            return Elem(t.name, [z(e) for e in t.idx], t.cj, t.real) if t.idx else t
        if isinstance(t, IntT):
            return IntT(z(t.z))
        if isinstance(t, Add):
            return Add([go(x) for x in t.ts])
        if isinstance(t, Mul):
            return Mul([go(x) for x in t.ts])
        if isinstance(t, Inv):
            return Inv(go(t.t))
        if isinstance(t, Ite):
            return Ite(z(t.c), go(t.a), go(t.b))
        if isinstance(t, Sum):
            return Sum(t.v, z(t.lo), z(t.hi), go(t.body))
        if isinstance(t, Fn):
            return Fn(t.name, [go(a) for a in t.args], t.real, t.cj)
        if isinstance(t, Opq):
            return Opq(t.name, [z(s) for s in t.shape], t.vs, go(t.body), [z(e) for e in t.idx], t.cj, t.real)
        raise Unsupported(f'subst in {type(t)}')

    return go(t)


# ------------------------------------------------------------------------------------------------ normal form
class Atom:
    """kind: 'e' elem, 'i' integer leaf, 'f' Fn, 'o' Opq, 'v' inverse of a polynomial.  exp is +1 or -1."""
    __slots__ = ('kind', 'head', 'idx', 'sub', 'exp', 'aux')

    def __init__(self, kind, head, idx=(), sub=None, exp=1, aux=None):
        self.kind, self.head, self.idx, self.sub, self.exp, self.aux = kind, head, tuple(idx), sub, exp, aux

    def zs(self):
        out = list(self.idx)
        if self.kind == 'f':
            for ms in self.sub:
                out += monos_zs(ms)
        elif self.kind == 'v':
            out += monos_zs(self.sub)
        elif self.kind == 'o':
            out += list(self.aux[0]) + monos_zs(self.sub)
        return out

    def flip(self):
        return Atom(self.kind, self.head, self.idx, self.sub, -self.exp, self.aux)

    def subst(self, pairs):
        idx = [z3.substitute(e, *pairs) for e in self.idx]
        sub, aux = self.sub, self.aux
        if self.kind == 'f':
            sub = [monos_subst(m, pairs) for m in self.sub]
        elif self.kind == 'v':
            sub = monos_subst(self.sub, pairs)
        elif self.kind == 'o':
            sub = monos_subst(self.sub, pairs)
            aux = (tuple(z3.substitute(s, *pairs) for s in aux[0]), aux[1])
        return Atom(self.kind, self.head, idx, sub, self.exp, aux)

    def __repr__(self):
        return f'{self.head}{list(self.idx)}^{self.exp}'


class Mono:
    __slots__ = ('c', 'binders', 'guards', 'atoms')

    def __init__(self, c, binders=(), guards=(), atoms=()):
        self.c, self.binders, self.guards, self.atoms = c, tuple(binders), tuple(guards), tuple(atoms)

    def __repr__(self):
        return f'({self.c[0]}+{self.c[1]}i) S{list(self.binders)} G{list(self.guards)} {list(self.atoms)}'

    def ranges(self):
        return [z3.And(lo <= v, v < hi) for v, lo, hi in self.binders]


def monos_zs(ms):
    out = []
    for m in ms:
        for v, lo, hi in m.binders:
            out += [lo, hi]
        out += list(m.guards)
        for a in m.atoms:
            out += a.zs()
    return out


def monos_subst(ms, pairs):
    return [Mono(m.c, [(v, z3.substitute(lo, *pairs), z3.substitute(hi, *pairs)) for v, lo, hi in m.binders],
                 [z3.substitute(g, *pairs) for g in m.guards], [a.subst(pairs) for a in m.atoms]) for m in ms]


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


MAXMONO = 4000


def small_range(t):
    """values of the index of a short sum over a table (cases of the index with fixed values)"""
    lo, hi = zsimp(t.lo), zsimp(t.hi)
    if not (z3.is_int_value(lo) and z3.is_int_value(hi)) or hi.as_long() - lo.as_long() > 16:
        return None

    def table(x):
        if isinstance(x, Ite):
            c = x.c
            if z3.is_eq(c) and (z3.is_int_value(c.arg(1)) and c.arg(0).eq(t.v) or z3.is_int_value(c.arg(0)) and c.arg(1).eq(t.v)):
                return True
            return table(x.a) or table(x.b)
        if isinstance(x, (Add, Mul)):
            return any(table(y) for y in x.ts)
        if isinstance(x, Inv):
            return table(x.t)
        if isinstance(x, Sum):
            return table(x.body)
        if isinstance(x, Fn):
            return any(table(y) for y in x.args)
        return False
    return list(range(lo.as_long(), hi.as_long())) if table(t.body) else None


def nf(t, ctx):
    """term -> list of Mono, valid under ctx"""
    check_deadline()
    if isinstance(t, Const):
        return [] if t.re == 0 and t.im == 0 else [Mono((t.re, t.im))]
    if isinstance(t, Elem):
        return [Mono((1, 0), atoms=[Atom('e', (t.name, t.cj), [zsimp(e) for e in t.idx])])]
    if isinstance(t, IntT):
        return nf_int(t.z, ctx)
    if isinstance(t, Add):
        out = []
        for x in t.ts:
            out += nf(x, ctx)
        return merge_syntactic(out)
    if isinstance(t, Mul):
        out = [Mono((1, 0))]
        for x in t.ts:
            n = nf(x, ctx)
            if not n:
                return []
            out = mul_monos(out, n, ctx)
        return out
    if isinstance(t, Ite):
        d = ctx.decide(t.c)
        if d is True:
            return nf(t.a, ctx)
        if d is False:
            return nf(t.b, ctx)
        nc = z3.Not(t.c)
        return [Mono(m.c, m.binders, m.guards + (t.c,), m.atoms) for m in nf(t.a, ctx.extend(t.c))] + \
               [Mono(m.c, m.binders, m.guards + (nc,), m.atoms) for m in nf(t.b, ctx.extend(nc))]
    if isinstance(t, Sum):
        pts = small_range(t)
        if pts is not None:
            return nf(Add([subst(t.body, [(t.v, z3.IntVal(k))]) for k in pts]), ctx) if pts else []
        v = fresh_int('s')
        body = subst(t.body, [(t.v, v)])
        lo, hi = zsimp(t.lo), zsimp(t.hi)
        rng = z3.And(lo <= v, v < hi)
        c2 = ctx.extend(rng)
        if not c2.feasible():
            return []
        ln = zsimp(hi - lo)
        if z3.is_int_value(ln) and ln.as_long() <= 4:
            out = []
            for k in range(max(ln.as_long(), 0)):
                out += nf(subst(body, [(v, zsimp(lo + k))]), ctx)
            return out
        out = []
        for m in nf(body, c2):
            out.append(Mono(m.c, ((v, lo, hi),) + m.binders, m.guards, m.atoms))
        return tidy(out, ctx)
    if isinstance(t, Inv):
        return nf_inv(t.t, ctx)
    if isinstance(t, Fn):
        args = [nf(a, ctx) for a in t.args]
        return split_guards(args, ctx, lambda ar, c: nf_fn(t, ar, c))
    if isinstance(t, Opq):
        return nf_opq(t, ctx)
    raise Unsupported(f'nf of {type(t)}')


def nf_int(z, ctx):
    z = zsimp(z)
    if z3.is_int_value(z):
        c = z.as_long()
        return [Mono((Fraction(c), 0))] if c else []
    d, c = lin(z)
    out = [Mono((Fraction(c), 0))] if c else []
    for e, k in d.values():
        kind = e.decl().kind()
        if kind == z3.Z3_OP_ITE:
            for m in nf(Ite(e.arg(0), IntT(e.arg(1)), IntT(e.arg(2))), ctx):
                out.append(Mono(cmul(m.c, (Fraction(k), 0)), m.binders, m.guards, m.atoms))
        elif kind == z3.Z3_OP_MUL:
            cur = [Mono((Fraction(k), 0))]
            for ch in e.children():
                cur = mul_monos(cur, nf_int(ch, ctx), ctx)
            out += cur
        else:
            out.append(Mono((Fraction(k), 0), atoms=[Atom('i', 'int', [e])]))
    return out


def separable(ms):
    for m in ms:
        if m.binders or m.guards or any(a.kind == 'i' for a in m.atoms):
            return False
        if m.c[0] and m.c[1]:
            return False
        x = Fraction(m.c[0] or m.c[1])
        if abs(x.numerator) > 8 or x.denominator > 8:
            return False
    return True


def exp_mono(ms, sign, times_i=False):
    atoms = []
    for m in ms:
        c = cmul((Fraction(0), Fraction(1)), m.c) if times_i else m.c
        re, im = Fraction(c[0]), Fraction(c[1])
        x = re or im
        base = Mono((Fraction(1, x.denominator), Fraction(0)) if re else (Fraction(0), Fraction(1, x.denominator)), atoms=m.atoms)
        k = x.numerator * sign
        a = Atom('f', ('exp', False), (), [[base]], exp=1 if k > 0 else -1)
        atoms += [a] * abs(k)
    return Mono((Fraction(1), Fraction(0)), atoms=atoms)


def nf_fn(t, args, ctx):
    name = t.name
    if name in ('exp',) and all(not a for a in args):
        return [Mono((Fraction(1), Fraction(0)))]
    if name == 'cos' and not args[0]:
        return [Mono((Fraction(1), Fraction(0)))]
    if name in ('sin', 'sqrt', 'abs') and not args[0]:
        return []
    if name in ('exp', 'cos', 'sin') and separable(args[0]):
        # exp of a sum is the product of the exponentials; Euler's formula
        if name == 'exp':
            return [exp_mono(args[0], 1)]
        h = (Fraction(1, 2), Fraction(0))
        p, m = exp_mono(args[0], 1, True), exp_mono(args[0], -1, True)
        if name == 'cos':
            return [Mono(cmul(h, p.c), atoms=p.atoms), Mono(cmul(h, m.c), atoms=m.atoms)]
        h = (Fraction(0), Fraction(-1, 2))
        return [Mono(cmul(h, p.c), atoms=p.atoms), Mono(cmul((Fraction(0), Fraction(1, 2)), m.c), atoms=m.atoms)]
    return [Mono((1, 0), atoms=[Atom('f', (name, t.cj), (), args)])]


def split_guards(margs, ctx, k):
    """margs: list of mono lists. Remove binder-free guards by case distinction, then call k(margs, ctx)."""
    for ms in margs:
        for m in ms:
            for g in m.guards:
                if any(occurs(g, v) for v, _, _ in m.binders):
                    continue
                d = ctx.decide(g)
                if d is None:
                    out = []
                    for c in (g, z3.Not(g)):
                        cc = ctx.extend(c)
                        if cc.feasible():
                            out += [Mono(mm.c, mm.binders, mm.guards + (c,), mm.atoms)
                                    for mm in split_guards([tidy(x, cc) for x in margs], cc, k)]
                    return out
    return k([tidy(x, ctx) for x in margs], ctx)


def nf_inv(t, ctx):
    if isinstance(t, Ite):
        d = ctx.decide(t.c)
        if d is not None:
            return nf_inv(t.a if d else t.b, ctx)
        nc = z3.Not(t.c)
        return [Mono(m.c, m.binders, m.guards + (t.c,), m.atoms) for m in nf_inv(t.a, ctx.extend(t.c))] + \
               [Mono(m.c, m.binders, m.guards + (nc,), m.atoms) for m in nf_inv(t.b, ctx.extend(nc))]
    if isinstance(t, Mul):
        return nf(Mul([Inv(x) for x in t.ts]), ctx)
    if isinstance(t, Inv):
        return nf(t.t, ctx)
    return split_guards([nf(t, ctx)], ctx, lambda ar, c: inv_monos(ar[0], c))


def inv_monos(ms, ctx):
    ms = combine(ms, ctx)
    if len(ms) == 1 and not ms[0].binders and not ms[0].guards:
        m = ms[0]
        n = m.c[0] * m.c[0] + m.c[1] * m.c[1]
        return [Mono((Fraction(m.c[0]) / n, -Fraction(m.c[1]) / n), atoms=[a.flip() for a in m.atoms])]
    if not ms:
        # division by zero on this branch: an unspecified number
        return [Mono((1, 0), atoms=[Atom('e', ('1/0', False))])]
    # normalise content and phase to make proportional polynomials equal
    u, ms = normalise(ms)
    if u[1] == 0 and all(not m.binders and not m.guards and m.c[1] == 0 and all(a.kind == 'i' and a.exp == 1 for a in m.atoms)
                         for m in ms):
        e = z3.IntVal(0)
        for m in ms:
            x = z3.IntVal(int(m.c[0]))
            for a in m.atoms:
                x = x * a.idx[0]
            e = e + x
        return [Mono(u, atoms=[Atom('i', 'int', [zsimp(e)], exp=-1)])]
    return [Mono(u, atoms=[Atom('v', 'inv', (), ms)])]


def normalise(ms):
    """polynomial P -> (u, Q) with 1/P = u/Q, Q with coprime integer coefficients and fixed phase"""
    # terms linear in index expressions change their coefficients under a shift of a summation index: leave them out
    def head(m):
        return sorted((a.kind, str(a.head), a.exp) for a in m.atoms if a.kind != 'i' or a.exp < 0)
    every = ms
    moving = [head(m) for m in ms if any(a.kind == 'i' and a.exp > 0 for a in m.atoms)]
    fixed = [m for m in ms if head(m) not in moving
             and not any(a.kind == 'i' and a.exp < 0 and (len(lin(a.idx[0])[0]) > 1 or lin(a.idx[0])[1] != 0) for a in m.atoms)]
    ms = fixed or ms
    den, num = 1, 0
    for m in ms:
        for c in m.c:
            c = Fraction(c)
            if c:
                den = den * c.denominator // math.gcd(den, c.denominator)
    for m in ms:
        for c in m.c:
            num = math.gcd(num, int(abs(Fraction(c)) * den))
    f = Fraction(den, num)                 # Q = P * f * phase
    for w in (lambda m: 1, lambda m: len(m.atoms) + 1, lambda m: (len(m.atoms) + 1) ** 2):
        S = (sum(Fraction(m.c[0]) * w(m) for m in ms), sum(Fraction(m.c[1]) * w(m) for m in ms))
        if S != (0, 0):
            break
    ph = (1, 0)
    if S != (0, 0):
        for ph in ((1, 0), (0, -1), (-1, 0), (0, 1)):
            r = cmul(S, ph)
            if r[0] > 0 and r[1] >= 0:
                break
    k = (f * ph[0], f * ph[1])
    return k, [Mono(cmul(m.c, k), m.binders, m.guards, m.atoms) for m in every]


def nf_opq(t, ctx):
    vs2 = [fresh_int('o') for _ in t.vs]
    body = subst(t.body, list(zip(t.vs, vs2)))
    shape = [zsimp(s) for s in t.shape]
    c2 = ctx.extend(*[z3.And(0 <= v, v < s) for v, s in zip(vs2, shape)])
    ms = nf(body, c2)
    if t.name == 'matinv' and not t.cj:
        # inverse of an inverse
        ms1 = combine(ms, c2)
        if len(ms1) == 1 and not ms1[0].binders and not ms1[0].guards:
            m = ms1[0]
            os_ = [a for a in m.atoms if a.kind == 'o' and a.head[0] == 'matinv' and a.exp == 1
                   and c2.eq(a.idx[0], vs2[0]) and c2.eq(a.idx[1], vs2[1]) and c2.eq(a.aux[0][0], shape[0])]
            rest = [a for a in m.atoms if a not in os_]
            if len(os_) == 1 and not any(occurs(z, v) for a in rest for z in a.zs() for v in vs2):
                a = os_[0]
                inner = monos_subst(a.sub, [(a.aux[1][0], zsimp(t.idx[0])), (a.aux[1][1], zsimp(t.idx[1]))])
                n = m.c[0] * m.c[0] + m.c[1] * m.c[1]
                pre = [Mono((Fraction(m.c[0]) / n, -Fraction(m.c[1]) / n), atoms=[x.flip() for x in rest])]
                return mul_monos(pre, inner, ctx)
    idx = [zsimp(e) for e in t.idx]
    if t.name in ('fft', 'ifft') and len(ms) <= 6:
        # linear: constant factors in front, one transform per summand
        out, rest, done = [], [], []
        for m in merge_syntactic(ms):
            r = convolved(t, m, shape, vs2, idx, ctx) if CONVOLVE else None
            if r is not None:
                done += r
                continue
            if m.guards:
                rest.append(m)
                continue
            bad = list(vs2) + [v for v, _, _ in m.binders]
            const = [a for a in m.atoms if not any(occurs(z, v) for z in a.zs() for v in bad)]
            inner = Mono((Fraction(1), Fraction(0)), m.binders, (), [a for a in m.atoms if not any(a is x for x in const)])
            c = (m.c[0], -m.c[1]) if t.cj else m.c
            out.append((c, const, [inner]))
        if rest:
            out.append(((1, 0), [], rest))
        if done or not t.cj or not any(const for _, const, _ in out):
            return done + [Mono(c, atoms=[Atom('o', (t.name, t.cj), idx, inner, 1, (tuple(shape), tuple(vs2)))] + const)
                           for c, const, inner in out]
    return [Mono((1, 0), atoms=[Atom('o', (t.name, t.cj), idx, ms, 1, (tuple(shape), tuple(vs2)))])]


CONVOLVE = False


def convolved(t, m, shape, vs2, idx, ctx):
    """a transform of a product of two transforms over the same axes: the circular sum (convolution theorem of the documented definition)"""
    dep = [a for a in m.atoms if any(occurs(z, v) for z in a.zs() for v in vs2)]
    if (t.cj or m.guards or len(dep) != 2 or any(occurs(z, v) for _, lo, hi in m.binders for z in (lo, hi) for v in vs2)):
        return None
    for a in dep:
        if (a.kind != 'o' or a.exp != 1 or a.head not in (('fft', False), ('ifft', False)) or len(a.idx) != len(vs2)
                or any(not x.eq(v) for x, v in zip(a.idx, vs2)) or any(not x.eq(s) for x, s in zip(a.aux[0], shape))
                or any(occurs(z, v) for z in monos_zs(a.sub) for v in vs2)):
            return None
    sg = {'fft': -1, 'ifft': 1}
    # the transform that runs over the sum: the one of opposite direction, else the second one
    first, second = dep if sg[dep[0].head[0]] == sg[t.name] else dep[::-1]
    s0, s1, s2 = sg[t.name], sg[first.head[0]], sg[second.head[0]]
    qs = [fresh_int('q') for _ in vs2]
    ps = [zsimp((-s1 * s0 * k - s1 * s2 * q) % n) for k, q, n in zip(idx, qs, shape)]
    x = monos_subst(first.sub, list(zip(first.aux[1], ps)))
    y = monos_subst(second.sub, list(zip(second.aux[1], qs)))
    # every inverse transform divides by the number of points, the sum over the intermediate points gives one factor of it
    power = 1 - sum(s == 1 for s in (s0, s1, s2))
    pre = Mono(m.c, tuple(m.binders) + tuple((q, z3.IntVal(0), n) for q, n in zip(qs, shape)), (), [a for a in m.atoms if a not in dep])
    out = [pre]
    for n in shape:
        f = nf_int(n, ctx)
        for _ in range(abs(power)):
            out = mul_monos(out, f if power > 0 else inv_monos(f, ctx), ctx)
    return mul_monos(mul_monos(out, x, ctx), y, ctx)


def mul_monos(a, b, ctx):
    if len(a) * len(b) > MAXMONO:
        raise Unsupported('normal form too large')
    out = []
    used = False
    for x in a:
        for y in b:
            yy = y
            if x.binders and y.binders:
                ren = [(v, fresh_int('s')) for v, _, _ in y.binders]
                yy = monos_subst([y], ren)[0]
                yy = Mono(yy.c, [(ren[i][1], lo, hi) for i, (v, lo, hi) in enumerate(yy.binders)], yy.guards,
                          yy.atoms)
            out.append(Mono(cmul(x.c, yy.c), x.binders + yy.binders, x.guards + yy.guards, x.atoms + yy.atoms))
    return merge_syntactic([cancel_syntactic(m) for m in out])


def _akey(a):
    if a.kind in 'ei':
        return (a.kind, a.head, tuple(e.get_id() for e in a.idx))
    return None


def cancel_syntactic(m):
    if not any(a.exp < 0 for a in m.atoms):
        return m
    atoms = list(m.atoms)
    i = 0
    while i < len(atoms):
        k = _akey(atoms[i])
        if k is not None:
            for j in range(i + 1, len(atoms)):
                if atoms[j].exp == -atoms[i].exp and _akey(atoms[j]) == k:
                    del atoms[j], atoms[i]
                    i -= 1
                    break
        i += 1
    return m if len(atoms) == len(m.atoms) else Mono(m.c, m.binders, m.guards, atoms)


def merge_syntactic(ms):
    if len(ms) < 2:
        return ms
    out, d = [], {}
    for m in ms:
        if m.binders or any(a.kind not in 'ei' for a in m.atoms):
            out.append(m)
            continue
        k = (frozenset(g.get_id() for g in m.guards),
             tuple(sorted((_akey(a), a.exp) for a in m.atoms)))
        if k in d:
            o = d[k]
            d[k] = Mono((o.c[0] + m.c[0], o.c[1] + m.c[1]), m.binders, m.guards, m.atoms)
        else:
            d[k] = m
    out += [m for m in d.values() if m.c[0] != 0 or m.c[1] != 0]
    return out


def _split_and(g):
    if z3.is_and(g):
        return [x for k in g.children() for x in _split_and(k)]
    if z3.is_not(g) and z3.is_not(g.arg(0)):
        return _split_and(g.arg(0).arg(0))
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [x for k in g.arg(0).children() for x in _split_and(z3.Not(k))]
    return [g]


def solve_for(var, e):
    """e == 0 linear with coefficient +-1 in var -> expr of var or None"""
    d, c = lin(e)
    vid = var.get_id()
    if vid not in d or d[vid][1] == 0:
        return None
    co = d.pop(vid)[1]
    for x, _ in d.values():
        if occurs(x, var):
            return None
    if abs(co) != 1:
        k = abs(co)
        if c % k or any(w[1] % k for w in d.values()):
            return None
        d = {i: (w[0], w[1] // k) for i, w in d.items()}
        c, co = c // k, co // k
    return zsimp(from_lin({k: (v[0], -co * v[1]) for k, v in d.items()}, -co * c))


def tidy(ms, ctx):
    """prune guards, cancel atoms, collapse one-point and free binders"""
    out = []
    for m in ms:
        out += tidy1(m, ctx)
    return out


def by_position(m):
    """sum over the values of (count of the value) f(value) = sum over the positions of f(value of the position)"""
    for a in m.atoms:
        if a.kind != 'i' or a.exp != 1 or not z3.is_app(a.idx[0]) or a.idx[0].num_args() != 1 or a.idx[0].decl().name() not in COUNTS:
            continue
        M, inv, n, same = COUNTS[a.idx[0].decl().name()]
        for i, (v, lo, hi) in enumerate(m.binders):
            if a.idx[0].arg(0).eq(v) and z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(M) and not any(
                    occurs(z, v) for _, x, y in m.binders for z in (x, y)):
                k = fresh_int('s')
                bs = [b for b in m.binders if b[0] is not v]
                r = monos_subst([Mono(m.c, bs, m.guards, [x for x in m.atoms if x is not a])], [(v, inv(k))])
                r = monos_subst(r, [same(k)])[0]  # the representative of a position has its label
                return Mono(r.c, tuple(r.binders) + ((k, z3.IntVal(0), n),), r.guards, r.atoms)
    return m


def tidy1(m, ctx, depth=0):
    check_deadline()
    if COUNTS:
        m = by_position(m)
    guards = []
    for g in m.guards:
        guards += _split_and(g)
    base = ctx.extend(*m.ranges())
    # prune guards
    keep = []
    for i, g in enumerate(guards):
        d = base.decide(g)
        if d is True:
            continue
        if d is False:
            return []
        if has_ite(g):
            g = zsimp(ctx_simp(g, base))
        keep.append(g)
    guards = keep
    if len(guards) > 1:
        full = base.extend(*guards)
        if not full.feasible():
            return []
        i = 0
        while i < len(guards) and len(guards) > 1:
            rest = guards[:i] + guards[i + 1:]
            if base.extend(*rest).implies(guards[i]):
                guards = rest
            else:
                i += 1
    elif not base.extend(*guards).feasible():
        return []
    full = base.extend(*guards)
    binders = list(m.binders)
    # one point collapse
    if binders and depth < 6:
        for bi, (v, lo, hi) in enumerate(binders):
            sol = None
            for g in guards:
                if z3.is_eq(g) and z3.is_int(g.arg(0)) and occurs(g, v):
                    sol = solve_for(v, g.arg(0) - g.arg(1))
                    if sol is not None:
                        break
            if sol is None and full.implies(v == lo):
                sol = lo
            if sol is None:
                gs = [g for g in guards if occurs(g, v)]
                if gs:
                    # bounds forcing a single point
                    los, his = bounds_of(v, lo, hi, gs)
                    for b in los[1:]:
                        if full.implies(v == b):
                            sol = b
                            break
            if sol is not None and not any(occurs(sol, w) for w, _, _ in binders[bi:]):
                pr = [(v, sol)]
                rest = binders[:bi] + binders[bi + 1:]
                mm = monos_subst([Mono(m.c, rest, guards + [lo <= v, v < hi], m.atoms)], pr)[0]
                mm = Mono(mm.c, mm.binders, [zsimp(g) for g in mm.guards],
                          [simp_atom(a) for a in mm.atoms])
                return [z for y in renorm(mm, full) for z in tidy1(y, ctx, depth + 1)]
        # few values left of a fixed range
        for bi, (v, lo, hi) in enumerate(binders):
            lo_, hi_ = zsimp(lo), zsimp(hi)
            if not (z3.is_int_value(lo_) and z3.is_int_value(hi_)) or hi_.as_long() - lo_.as_long() > 64:
                continue
            gone = set()
            for g in guards:
                if z3.is_not(g) and z3.is_eq(g.arg(0)):
                    a, b = g.arg(0).arg(0), g.arg(0).arg(1)
                    if z3.is_int_value(a):
                        a, b = b, a
                    if z3.is_int_value(b) and a.eq(v):
                        gone.add(b.as_long())
            left = [x for x in range(lo_.as_long(), hi_.as_long()) if x not in gone]
            if gone and len(left) <= 2:
                out = []
                for x in left:
                    mm = monos_subst([Mono(m.c, binders[:bi] + binders[bi + 1:], guards, m.atoms)], [(v, z3.IntVal(x))])[0]
                    mm = Mono(mm.c, mm.binders, [zsimp(g) for g in mm.guards], [simp_atom(a) for a in mm.atoms])
                    out += [z for y in renorm(mm, full) for z in tidy1(y, ctx, depth + 1)]
                return out
    atoms = list(m.atoms)
    # simplify If inside indices under the context
    atoms = [ctx_simp_atom(a, full) for a in atoms]
    # cancel x * 1/x
    i = 0
    while i < len(atoms):
        hit = None
        for j in range(i + 1, len(atoms)):
            if atoms[i].exp == -atoms[j].exp and atom_eq(atoms[i], atoms[j].flip(), full):
                hit = j
                break
        if hit is not None:
            del atoms[hit], atoms[i]
        else:
            i += 1
    # integer factors: fold literals, expand composite ones
    for i, a in enumerate(atoms):
        if a.kind != 'i' or depth > 8:
            continue
        d, n = lin(a.idx[0])
        if not d and n and a.exp in (1, -1):
            f = Fraction(int(n)) ** a.exp
            return tidy1(Mono((m.c[0] * f, m.c[1] * f), binders, guards, atoms[:i] + atoms[i + 1:]), ctx, depth)
        if a.exp == 1 and (not d or n or len(d) > 1 or abs(list(d.values())[0][1]) != 1):
            res = []
            for mm in mul_monos([Mono(m.c, binders, guards, atoms[:i] + atoms[i + 1:])], nf_int(a.idx[0], full), ctx):
                res += tidy1(mm, ctx, depth + 1)
            return res
    # bounds: decide conditionals under the context, unroll short literal ranges
    for bi, (v, lo, hi) in enumerate(binders):
        if any(has_ite(e, k) for e in (lo, hi) for k in (z3.Z3_OP_ITE, z3.Z3_OP_IDIV)):
            lo, hi = zsimp(ctx_simp(lo, full)), zsimp(ctx_simp(hi, full))
            binders[bi] = (v, lo, hi)
        d, n = lin(hi - lo)
        if not d and 0 < n <= 8 and depth < 6:
            out = []
            for k in range(int(n)):
                mm = monos_subst([Mono(m.c, binders[:bi] + binders[bi + 1:], guards, atoms)], [(v, zsimp(lo + k))])[0]
                mm = Mono(mm.c, mm.binders, [zsimp(g) for g in mm.guards], [simp_atom(a) for a in mm.atoms])
                out += [z for y in renorm(mm, full) for z in tidy1(y, ctx, depth + 1)]
            return out
    # free binders -> length
    for bi, (v, lo, hi) in enumerate(binders):
        if any(occurs(z, v) for a in atoms for z in a.zs()):
            continue
        if any(occurs(b[1], v) or occurs(b[2], v) for b in binders):
            continue
        gs = [g for g in guards if occurs(g, v)]
        los, his = bounds_of(v, lo, hi, gs, strict=True) if gs else ([lo], [hi])
        if los is None:
            continue
        L = los[0]
        for b in los[1:]:
            L = z3.If(b > L, b, L)
        H = his[0]
        for b in his[1:]:
            H = z3.If(b < H, b, H)
        ln = z3.If(H > L, H - L, z3.IntVal(0))
        rest = [g for g in guards if not any(g is x for x in gs)]
        c2 = ctx.extend(*[z3.And(l <= w, w < h) for w, l, h in binders if w is not v], *rest)
        cnt = nf_int(ln, c2)
        outer = Mono(m.c, binders[:bi] + binders[bi + 1:], rest, atoms)
        res = []
        for mm in mul_monos([outer], cnt, ctx):
            res += tidy1(mm, ctx, depth + 1)
        return res
    if m.c[0] == 0 and m.c[1] == 0:
        return []
    return [Mono(m.c, binders, guards, atoms)]


def renorm(m, ctx):
    """rebuild the inverses of polynomials after a substitution of an index"""
    vs = [a for a in m.atoms if a.kind == 'v' and a.exp == 1]
    if not vs:
        return [m]
    cur = [Mono(m.c, m.binders, m.guards, [a for a in m.atoms if not any(a is b for b in vs)])]
    for a in vs:
        sub = []
        for x in a.sub:
            sub += tidy1(Mono(x.c, x.binders, [zsimp(g) for g in x.guards], [simp_atom(y) for y in x.atoms]), ctx, 1)
        cur = mul_monos(cur, inv_monos(merge_syntactic(sub), ctx), ctx)
    return cur


def bounds_of(v, lo, hi, gs, strict=False):
    los, his = [lo], [hi]
    for g in gs:
        b = bound_from(v, g)
        if b is None:
            if strict:
                return None, None
            continue
        for kind, e in b:
            (los if kind == 'lo' else his).append(e)
    return los, his


def bound_from(v, g):
    """guard -> [('lo', e)] meaning v >= e   or [('hi', e)] meaning v < e"""
    pos = True
    if z3.is_not(g):
        pos, g = False, g.arg(0)
    k = g.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return None
    if k == z3.Z3_OP_EQ and (not pos or not z3.is_int(g.arg(0))):
        return None
    d, c = lin(g.arg(0) - g.arg(1))
    if v.get_id() not in d or abs(d[v.get_id()][1]) != 1:
        return None
    co = d.pop(v.get_id())[1]
    if any(occurs(x, v) for x, _ in d.values()):
        return None
    e = zsimp(from_lin({q: (w[0], -co * w[1]) for q, w in d.items()}, -co * c))  # v ? e  (with sign co)
    if k == z3.Z3_OP_EQ:
        return [('lo', e), ('hi', e + 1)]
    op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}[k]
    if not pos:
        op = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}[op]
    if co < 0:
        op = {'<=': '>=', '<': '>', '>=': '<=', '>': '<'}[op]
    return [{'<=': ('hi', zsimp(e + 1)), '<': ('hi', e), '>=': ('lo', e), '>': ('lo', zsimp(e + 1))}[op]]


def simp_atom(a):
    return Atom(a.kind, a.head, [zsimp(e) for e in a.idx], a.sub, a.exp, a.aux) if a.idx else a


def has_ite(e, kind=z3.Z3_OP_ITE):
    st = [e]
    while st:
        x = st.pop()
        if x.decl().kind() == kind:
            return True
        st.extend(x.children())
    return False


def find_ite_conds(e, acc):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        acc.append(e.arg(0))
    for c in e.children():
        find_ite_conds(c, acc)
    return acc


def ctx_simp(e, ctx):
    """resolve decided If's in an index expression"""
    n = 0
    while n < 30 and has_ite(e):
        n += 1
        done = False
        for c in find_ite_conds(e, []):
            d = ctx.decide(c)
            if d is not None:
                e = z3.simplify(z3.substitute(e, (c, z3.BoolVal(d))))
                done = True
                break
        if not done:
            break
    return div_simp(e, ctx) if has_ite(e, z3.Z3_OP_IDIV) else e


def div_simp(e, ctx):
    """(n*A + R) div n -> A + k where the context says k*n <= R < (k+1)*n"""
    for _ in range(6):
        todo, hit = [e], None
        while todo and hit is None:
            x = todo.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
                n = x.arg(1).as_long()
                d, c = lin(x.arg(0))
                A, R = {}, {}
                for key, (y, k) in d.items():
                    if k // n:
                        A[key] = (y, k // n)
                    if k % n:
                        R[key] = (y, k % n)
                a, r = from_lin(A, c // n), from_lin(R, c % n)
                for k in (0, -1, 1):
                    if ctx.implies(z3.And(k * n <= r, r < (k + 1) * n)):
                        hit = (x, zsimp(a + k))
                        break
            todo.extend(x.children())
        if hit is None:
            return e
        e = zsimp(z3.substitute(e, hit))
    return e


def ctx_simp_atom(a, ctx):
    if a.idx and any(has_ite(e) or has_ite(e, z3.Z3_OP_IDIV) for e in a.idx):
        return Atom(a.kind, a.head, [ctx_simp(e, ctx) for e in a.idx], a.sub, a.exp, a.aux)
    return a


# ------------------------------------------------------------------------------------------------ equality
def atom_eq(a, b, ctx, depth=0):
    if a.kind != b.kind or a.head != b.head or a.exp != b.exp or len(a.idx) != len(b.idx):
        return False
    if not all(ctx.eq(x, y) for x, y in zip(a.idx, b.idx)):
        return False
    if a.kind in 'ei':
        return True
    if a.kind == 'f':
        return len(a.sub) == len(b.sub) and all(zero_quick(x, y, ctx, depth) for x, y in zip(a.sub, b.sub))
    if a.kind == 'v':
        return zero_quick(a.sub, b.sub, ctx, depth)
    if a.kind == 'o':
        if len(a.aux[0]) != len(b.aux[0]) or not all(ctx.eq(x, y) for x, y in zip(a.aux[0], b.aux[0])):
            return False
        bs = monos_subst(b.sub, list(zip(b.aux[1], a.aux[1])))
        c2 = ctx.extend(*[z3.And(0 <= v, v < s) for v, s in zip(a.aux[1], a.aux[0])])
        return zero_quick(a.sub, bs, c2, depth)
    return False


def zero_quick(m1, m2, ctx, depth):
    if depth > 4:
        return False
    if m1 is m2:
        return True
    r = prove_zero(list(m1) + [Mono((-m.c[0], -m.c[1]), m.binders, m.guards, m.atoms) for m in m2], ctx,
                   depth=depth + 1, splits=3)
    return r[0] == 'proved'


def bind_order(binders):
    return binders


def align(m1, m2, ctx, depth, strict=False):
    """find affine bijection from m1's binders giving m2's atoms; return (region of m1, region of m2 in m1's variables, sign) or None
    strict: the two regions must be equal"""
    if len(m1.binders) != len(m2.binders) or len(m1.atoms) != len(m2.atoms):
        return None
    h1 = sorted((a.kind, str(a.head), a.exp) for a in m1.atoms)
    h2 = sorted((a.kind, str(a.head), a.exp) for a in m2.atoms)
    if h1 != h2:
        return None
    b1 = [v for v, _, _ in m1.binders]
    b2 = [v for v, _, _ in m2.binders]
    c1 = ctx.extend(*m1.ranges(), *m1.guards)
    # order atoms: indexed ones first
    A1 = sorted(m1.atoms, key=lambda a: (a.kind not in 'eo', -len(a.idx)))
    budget = [400]

    def bt(i, used, sol, pend, sg=1):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        if i == len(A1):
            sol2 = resolve(sol, pend)
            if sol2 is None:
                return None
            if len(sol2) < len(b2):
                # remaining binders appear only in composite atoms: try identity by position
                un2 = [v for v in b2 if v.get_id() not in sol2]
                used1 = set()
                for e in sol2.values():
                    for v in b1:
                        if occurs(e, v):
                            used1.add(v.get_id())
                un1 = [v for v in b1 if v.get_id() not in used1]
                if len(un1) != len(un2):
                    return None
                for perm in itertools.permutations(un1):
                    s3 = dict(sol2)
                    for v, w in zip(un2, perm):
                        lo2 = [x for x in m2.binders if x[0] is v][0][1]
                        lo1 = [x for x in m1.binders if x[0] is w][0][1]
                        s3[v.get_id()] = zsimp(w - lo1 + z3.substitute(lo2, *[(q, s3[q.get_id()]) for q in b2 if
                                                                            q.get_id() in s3]) if s3 else w - lo1 + lo2)
                    r = verify(s3, used, sg)
                    if r is not None:
                        return r
                # what the index expressions inside the composite atoms suggest
                pairs = inner_pairs(A1, [m2.atoms[j] for j in used], un2)
                for x, y in [(None, None)] + pairs[:12]:
                    if x is not None:
                        s3 = resolve(sol2, pend + list(zip(x.idx, y.idx)), partial=True)
                        if s3 is None:
                            continue
                    else:
                        s3 = sol2
                    left = [v for v in b2 if v.get_id() not in s3]
                    if not left:
                        r = verify(s3, used, sg)
                        if r is not None:
                            return r
                    if len(left) != 1:
                        continue
                    v = left[0]
                    took = [w for w in b1 if any(occurs(e, w) for e in s3.values())]
                    free = [w for w in b1 if not any(w is x for x in took)]
                    if len(free) != 1:
                        continue
                    w = free[0]
                    lo2, hi2 = [z[1:] for z in m2.binders if z[0] is v][0]
                    lo1, hi1 = [z[1:] for z in m1.binders if z[0] is w][0]
                    prs = [(z, s3[z.get_id()]) for z in b2 if z.get_id() in s3]
                    cands = [w - lo1 + lo2, hi2 - 1 - w + lo1]
                    if prs:
                        cands = [z3.substitute(e, *prs) for e in cands]
                    cands += inner_guesses(v, A1, [m2.atoms[j] for j in used], prs)
                    for e in cands[:9]:
                        r = verify({**s3, v.get_id(): zsimp(e)}, used, sg)
                        if r is not None:
                            return r
                return None
            return verify(sol2, used, sg)
        a = A1[i]
        tried = set()
        for j, b in enumerate(m2.atoms):
            if j in used or b.kind != a.kind or b.head != a.head or b.exp != a.exp or len(a.idx) != len(b.idx):
                continue
            if not b.sub:
                kb = tuple(e.get_id() for e in b.idx)
                if kb in tried:
                    continue
                tried.add(kb)
            for f in ((1, -1) if a.kind == 'i' and a.exp == -1 and len(lin(a.idx[0])[0]) > 1 else (1,)):
                p2 = pend + list(zip(a.idx, b.idx if f == 1 else [-e for e in b.idx]))
                s2 = resolve(sol, p2, partial=True)
                if s2 is None:
                    continue
                r = bt(i + 1, used + [j], s2, p2, sg * f)
                if r is not None:
                    return r
        return None

    def resolve(sol, pend, partial=False):
        sol = dict(sol)
        changed = True
        while changed:
            changed = False
            for e1, e2 in pend:
                unk = [v for v in b2 if v.get_id() not in sol and occurs(e2, v)]
                if len(unk) == 1:
                    prs = [(v, sol[v.get_id()]) for v in b2 if v.get_id() in sol]
                    e2s = z3.substitute(e2, *prs) if prs else e2
                    s = solve_for(unk[0], e2s - e1)
                    if s is None:
                        s = solve_inside(unk[0], e1, e2s)
                    if s is not None and not any(occurs(s, v) for v in b2):
                        sol[unk[0].get_id()] = s
                        changed = True
        # verify fully known ones
        prs = [(v, sol[v.get_id()]) for v in b2 if v.get_id() in sol]
        for e1, e2 in pend:
            if any(v.get_id() not in sol and occurs(e2, v) for v in b2):
                continue
            e2s = z3.substitute(e2, *prs) if prs else e2
            if not c1.eq(e1, e2s):
                return None
        return sol

    def verify(sol, used, sg):
        if len(sol) < len(b2):
            return None
        prs = [(v, sol[v.get_id()]) for v in b2]
        # bijectivity: integer matrix with det +-1
        if b2:
            M = []
            for v in b2:
                d, _ = lin(sol[v.get_id()])
                row = []
                for w in b1:
                    row.append(d[w.get_id()][1] if w.get_id() in d else 0)
                for x, _c in d.values():
                    if not any(x is w or x.eq(w) for w in b1) and any(occurs(x, w) for w in b1):
                        return None
                M.append(row)
            if abs(det(M)) != 1:
                return None
        m2s = monos_subst([m2], prs)[0] if prs else m2
        rng2 = [z3.And(z3.substitute(lo, *prs) <= z3.substitute(v, *prs),
                       z3.substitute(v, *prs) < z3.substitute(hi, *prs)) for v, lo, hi in m2.binders] if prs else []
        g2 = z3.And(*(rng2 + list(m2s.guards))) if rng2 or m2s.guards else z3.BoolVal(True)
        g1 = z3.And(*(m1.ranges() + list(m1.guards))) if m1.binders or m1.guards else z3.BoolVal(True)
        cu = ctx.extend(z3.Or(g1, g2)) if not (z3.is_true(g1) or z3.is_true(g2)) else ctx
        fl = 1
        for a, j in zip(A1, used):
            o = m2s.atoms[j]
            if a.kind == 'i' and a.exp == -1 and o.kind == 'i' and o.exp == -1:
                if cu.eq(a.idx[0], o.idx[0]):
                    continue
                if not cu.eq(a.idx[0], -o.idx[0]):
                    return None
                fl = -fl
            elif not atom_eq(a, o, cu, depth):
                return None
        if strict and not (z3.is_true(g1) and z3.is_true(g2)) and not ctx.implies(g1 == g2):
            return None
        return g1, g2, fl

    return bt(0, [], {}, [])


def inner_pairs(as1, as2, vs):
    """pairs of array elements inside composite atoms, largest arity first"""
    def elems(a):
        if a.kind not in 'vof' or not a.sub:
            return []
        return [x for y in a.sub for x in (y.atoms if isinstance(y, Mono) else [z for m in y for z in m.atoms]) if x.kind == 'e' and x.idx]
    out = []
    for a, b in zip(as1, as2):
        for y in elems(b):
            if any(occurs(e, v) for e in y.idx for v in vs):
                out += [(x, y) for x in elems(a) if x.head == y.head and len(x.idx) == len(y.idx)]
    return sorted(out, key=lambda p: -len(p[0].idx))


def inner_guesses(v, as1, as2, prs):
    out = []
    for a, b in zip(as1, as2):
        if a.kind not in 'vof' or not a.sub:
            continue
        s1 = [x for y in a.sub for x in (y.atoms if isinstance(y, Mono) else [z for m in y for z in m.atoms])]
        s2 = [x for y in b.sub for x in (y.atoms if isinstance(y, Mono) else [z for m in y for z in m.atoms])]
        for y in s2:
            for i, e2 in enumerate(y.idx):
                if not occurs(e2, v):
                    continue
                e2 = z3.substitute(e2, *prs) if prs else e2
                for x in s1:
                    if x.kind == y.kind and x.head == y.head and len(x.idx) == len(y.idx):
                        for sg in ((1, -1) if x.kind == 'i' else (1,)):
                            g = solve_for(v, e2 - sg * x.idx[i])
                            if g is not None and not occurs(g, v) and not any(g.eq(o) for o in out):
                                out.append(g)
                        if len(out) > 8:
                            return out
    return out


def ufs_with(e, v, acc=None):
    """applications of uninterpreted functions in e (containing v, if given), outermost first"""
    if acc is None:
        acc = []
    if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (v is None or occurs(e, v)):
        if not any(x.eq(e) for x in acc):
            acc.append(e)
    for k in e.children():
        ufs_with(k, v, acc)
    return acc


def solve_inside(v, e1, e2):
    """guess for v from e1 == e2 when it occurs under a table lookup: f(.., v + c, ..) against the only f(..) of e1 (the guess is verified later)"""
    for f in ufs_with(e2, v):
        c = [g for g in ufs_with(e1, None) if g.decl().eq(f.decl())]
        if len(c) != 1:
            continue
        for x, y in zip(c[0].children(), f.children()):
            if occurs(y, v):
                s = solve_for(v, y - x)
                if s is not None:
                    return s
    return None


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    s = 0
    for j in range(n):
        if M[0][j]:
            s += (-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
    return s


def combine(ms, ctx, depth=0):
    """merge monos without binders that are equal under ctx (used before inverting)"""
    ms = tidy(ms, ctx)
    out = []
    for m in ms:
        for k, o in enumerate(out):
            if not m.guards and not o.guards and len(m.atoms) == len(o.atoms):
                r = align(o, m, ctx, depth + 1)
                if r is not None and (not m.binders or ctx.implies(r[0] == r[1])):
                    out[k] = Mono((o.c[0] + r[2] * m.c[0], o.c[1] + r[2] * m.c[1]), o.binders, o.guards, o.atoms)
                    break
        else:
            out.append(m)
    return [m for m in out if m.c[0] != 0 or m.c[1] != 0]


def q(x):
    x = Fraction(x)
    return z3.RealVal(f'{x.numerator}/{x.denominator}')


def prove_zero(ms, ctx, depth=0, splits=10):
    """-> ('proved', None) | ('refuted', model) | ('unknown', reason)"""
    check_deadline()
    if not ctx.feasible():
        return 'proved', None
    ms = tidy(ms, ctx)
    if not ms:
        return 'proved', None
    # first pass: the same region; what cancels there is gone
    same = []
    for m in ms:
        for cl in same:
            r = align(cl[0], m, ctx, depth, strict=True)
            if r is not None:
                cl[1] = (cl[1][0] + m.c[0] * r[2], cl[1][1] + m.c[1] * r[2])
                break
        else:
            same.append([m, m.c])
    ms = [Mono(c, m.binders, m.guards, m.atoms) for m, c in same if c != (0, 0)]
    if not ms:
        return 'proved', None
    classes = []
    for m in ms:
        for cl in classes:
            r = align(cl[0], m, ctx, depth)
            if r is not None:
                cl[1].append(((m.c[0] * r[2], m.c[1] * r[2]), r[1]))
                break
        else:
            g = z3.And(*(m.ranges() + list(m.guards))) if m.binders or m.guards else z3.BoolVal(True)
            classes.append((m, [(m.c, g)]))
    bad = None
    for m, lst in classes:
        cond = []
        for part in (0, 1):
            if any(c[part] != 0 for c, _ in lst):
                s = sum((z3.If(g, q(c[part]), q(0)) for c, g in lst), q(0))
                cond.append(s == 0)
        if cond:
            c = z3.And(*cond)
            if not ctx.implies(c):
                bad = (m, lst, c)
                break
    if bad is None:
        return 'proved', None
    # cross multiply a polynomial inverse
    if depth < 6:
        for m in ms:
            for a in m.atoms:
                if (a.kind == 'v' or a.kind == 'i' and a.exp < 0 and len(lin(a.idx[0])[0]) + (lin(a.idx[0])[1] != 0) > 1) \
                        and not m.guards and (not m.binders or a.kind == 'v' and (len(ms) <= 3 or not any(x.binders for x in a.sub))
                                              and not mentions(a.sub, [v for v, _, _ in m.binders])):
                    r = cross_multiply(ms, a, ctx, depth, splits)
                    if r is not None:
                        return r
    if splits > 0:
        c = choose_split(ms, ctx, bad)
        if os.environ.get('DGA_TRACE') and depth == 0:
            print('SPLIT', c, 'because of', bad[0], '\n   CLASSES', *[f'\n      {x[0]} INV {[a.sub for a in x[0].atoms if a.kind=="v"]}' for x in classes][:8], ctx.conds, file=sys.stderr)
        if c is not None:
            for cc in (c, z3.Not(c)):
                c2 = ctx.extend(cc)
                if not c2.feasible():
                    continue
                r = prove_zero(ms, c2, depth, splits - 1)
                if r[0] != 'proved':
                    return r
            return 'proved', None
    r, model = ctx.check(z3.Not(bad[2]))
    if r == z3.sat:
        return 'refuted', (model, f'unmatched term {bad[0]} (classes: {[c[0] for c in classes][:6]})')
    return 'unknown', f'unmatched term {bad[0]}'


def mentions(ms, vs):
    """whether a normal form depends on one of the variables"""
    return any(occurs(e, v) for e in monos_zs(ms) for v in vs)


def cross_multiply(ms, a, ctx, depth, splits):
    """multiply every mono by P (a = 1/P or 1/(1/P)); only if all occurrences are outside binders/guards"""
    if a.kind == 'i':
        poly = nf_int(a.idx[0], ctx)

        def same(x):
            return x.kind == 'i' and ctx.eq(x.idx[0], a.idx[0])
        sgn = -1
    else:
        poly = a.sub

        def same(x):
            return x.kind == 'v' and atom_eq(Atom('v', 'inv', (), x.sub), Atom('v', 'inv', (), a.sub), ctx, depth + 1)
        sgn = 1

    def count(m):
        k = 0
        for x in m.atoms:
            if same(x):
                k += sgn * x.exp
        return k
    ks = [count(m) for m in ms]
    if any(k and (m.guards or m.binders and a.kind != 'v') for k, m in zip(ks, ms)):
        return None
    K = max(ks)
    if K <= 0:
        return None
    out = []
    for k, m in zip(ks, ms):
        rest = [x for x in m.atoms if not same(x)]
        cur = [Mono(m.c, m.binders, m.guards, rest)]
        for _ in range(K - k):
            cur = mul_monos(cur, poly, ctx)
        out += cur
    return prove_zero(out, ctx, depth + 1, splits)


def choose_split(ms, ctx, bad):
    bv = set()
    for m in ms:
        for v, _, _ in m.binders:
            bv.add(v.get_id())

    def free(c):
        return not any(i in bv for i in zvars(c))

    cands = []
    for m in ms:
        for g in m.guards:
            if free(g):
                cands.append(g)
        for a in m.atoms:
            for e in a.idx:
                for c in find_ite_conds(e, []):
                    if free(c):
                        cands.append(c)
        for v, lo, hi in m.binders:
            for e in (lo, hi):
                for c in find_ite_conds(e, []):
                    if free(c):
                        cands.append(c)
    for c in cands:
        if ctx.decide(c) is None:
            return c
    # equality of indices of same-head atoms
    n = 0
    for i, m in enumerate(ms):
        for o in ms[i + 1:]:
            for a in m.atoms:
                for b in o.atoms:
                    if a.kind == b.kind != 'i' and a.head == b.head and len(a.idx) == len(b.idx) and a.idx:
                        for x, y in zip(a.idx, b.idx):
                            n += 1
                            if n > 60:
                                return None
                            e = x == y
                            if free(e) and ctx.decide(e) is None:
                                return e
    return None


def same_term(a, b, ren=()):
    """syntactic equality up to the names of summation variables"""
    if a is b and all(x is y for x, y in ren):
        return True
    if type(a) is not type(b):
        return False

    def zz(x, y):
        return x.eq(y) or bool(ren) and z3.substitute(x, *ren).eq(y)
    if isinstance(a, Const):
        return a.re == b.re and a.im == b.im
    if isinstance(a, Elem):
        return a.name == b.name and a.cj == b.cj and len(a.idx) == len(b.idx) and all(map(zz, a.idx, b.idx))
    if isinstance(a, IntT):
        return zz(a.z, b.z)
    if isinstance(a, (Add, Mul)):
        return len(a.ts) == len(b.ts) and all(same_term(x, y, ren) for x, y in zip(a.ts, b.ts))
    if isinstance(a, Inv):
        return same_term(a.t, b.t, ren)
    if isinstance(a, Ite):
        return zz(a.c, b.c) and same_term(a.a, b.a, ren) and same_term(a.b, b.b, ren)
    if isinstance(a, Sum):
        return zz(a.lo, b.lo) and zz(a.hi, b.hi) and same_term(a.body, b.body, ren if a.v.eq(b.v) else tuple(ren) + ((a.v, b.v),))
    if isinstance(a, Fn):
        return a.name == b.name and a.cj == b.cj and len(a.args) == len(b.args) and all(same_term(x, y, ren) for x, y in zip(a.args, b.args))
    if isinstance(a, Opq):
        return (a.name == b.name and a.cj == b.cj and len(a.idx) == len(b.idx) and all(map(zz, a.idx, b.idx))
                and len(a.vs) == len(b.vs) and all(map(zz, a.shape, b.shape))
                and same_term(a.body, b.body, tuple(ren) + tuple((x, y) for x, y in zip(a.vs, b.vs) if not x.eq(y))))
    return False


def summands(t):
    return [x for y in t.ts for x in summands(y)] if isinstance(t, Add) else [t]


def cancel_equal(t1, t2):
    """drop summands that are literally the same on both sides"""
    l1, l2 = summands(t1), summands(t2)
    if len(l1) * len(l2) > 400:
        return t1, t2
    k1 = []
    for x in l1:
        for j, y in enumerate(l2):
            if same_term(x, y):
                del l2[j]
                break
        else:
            k1.append(x)
    return add(*k1) if k1 else ZERO, add(*l2) if l2 else ZERO


def fixed_ints(ctx):
    """integer inputs whose value is forced by the path condition"""
    vs = {}
    for c in ctx.conds:
        zvars(c, vs)
    vs = {k: v for k, v in vs.items() if z3.is_int(v)}
    if not vs:
        return []
    r, m = ctx.check()
    out = []
    if m is None:
        return out
    for v in vs.values():
        val = m.eval(v, model_completion=True)
        if z3.is_int_value(val) and abs(val.as_long()) <= 8 and ctx.implies(v == val):
            out.append((v, val))
    return out


def prove_eq(t1, t2, ctx):
    t1, t2 = cancel_equal(t1, t2)
    d = add(t1, neg(t2))
    fx = fixed_ints(ctx)
    if fx:
        d = subst(d, fx)
    return prove_zero(nf(d, ctx), ctx)
