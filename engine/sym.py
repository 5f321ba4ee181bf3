"""Symbolic values (unbounded integers, uninterpreted complex numbers, arrays of symbolic shape) and the path explorer."""
import itertools
import math
import numbers
import types
import time
from fractions import Fraction

import numpy as _np
import z3

from engine import terms as T
from engine.terms import Unsupported, fresh_int, iv, zsimp


class PathEnd(BaseException):
    """the current path is infeasible"""


class Explorer:
    """re-execution based path explorer; also holds the stack of local assumptions (loop/element contexts)"""
    cur = None

    def __init__(self, assume=(), max_paths=400):
        self.base = list(assume)
        self.max_paths = max_paths
        self.trail, self.pos = [], 0
        self.pc = []
        self.local = []
        self._ctx = None
        self.generic = []  # generic (loop/element) variables currently in scope
        self.sub = None
        self.obl = None

    # ---- contexts
    def ctx(self):
        key = (len(self.pc), len(self.local), len(self.base))
        if self._ctx is None or self._ctx[0] != key:
            self._ctx = (key, T.Ctx(self.base + self.pc + [c for c in self.local]))
        return self._ctx[1]

    def push(self, *cs):
        n = len(self.local)
        self.local.extend(cs)
        self._ctx = None
        return n

    def pop(self, n):
        del self.local[n:]
        self._ctx = None

    # ---- decisions
    def decide(self, c):
        T.check_deadline()
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ctx = self.ctx()
        d = ctx.decide(c)
        if d is not None:
            return d
        vs = T.zvars(c)
        for lvl in reversed(range(len(self.generic))):
            ids, sub = self.generic[lvl]
            if any(i in vs for i in ids):
                if sub is None:
                    raise Unsupported('branch on a generic element index')
                return sub.decide(self, c)
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
        else:
            v = True
            self.trail.append([True, False])
        self.pos += 1
        self.pc.append(c if v else z3.Not(c))
        self._ctx = None
        return v

    def run(self, fn):
        """yield (outcome, pc) for every path"""
        n = 0
        prev = Explorer.cur
        while True:
            self.pos, self.pc, self.local, self._ctx, self.generic = 0, [], [], None, []
            Explorer.cur = self
            try:
                try:
                    r = ('ok', fn())
                except Unsupported:
                    raise
                except PathEnd:
                    r = ('infeasible', None)
                except Exception as e:  # exception raised by the code under verification
                    r = ('exc', e)
                yield r
            finally:
                Explorer.cur = prev
            n += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            while self.trail and self.trail[-1][1]:
                self.trail.pop()
            if not self.trail:
                return
            self.trail[-1] = [not self.trail[-1][0], True]


class SubExplorer:
    """explores the paths of one generic loop iteration / comprehension element (branches on the generic index)"""

    def __init__(self):
        self.trail, self.pos, self.pc = [], 0, []

    def decide(self, ex, c):
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
        else:
            v = True
            self.trail.append([True, False])
        self.pos += 1
        cc = c if v else z3.Not(c)
        self.pc.append(cc)
        ex.local.append(cc)
        ex._ctx = None
        return v

    def start(self):
        self.pos, self.pc = 0, []

    def next(self):
        while self.trail and self.trail[-1][1]:
            self.trail.pop()
        if not self.trail:
            return False
        self.trail[-1] = [not self.trail[-1][0], True]
        return True


def ex():
    if Explorer.cur is None:
        raise Unsupported('symbolic operation outside the explorer')
    return Explorer.cur


def ctx():
    return ex().ctx()


# ---------------------------------------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SInt, SBool, SNum, SArr, SList, SMask)) or hasattr(type(x), 'dga_array') and is_sym(x.dga_array)


def zint(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SArr) and len(x.shape) == 0:
        return zint(x.item())
    if isinstance(x, _np.ndarray) and x.shape == () and x.dtype.kind in 'iu':
        return z3.IntVal(int(x))
    raise TypeError(f'expected an integer, got {type(x).__name__}')


def mkint(z):
    z = zsimp(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def zbool(x):
    if isinstance(x, SBool):
        return x.z
    return z3.BoolVal(bool(x))


def frac(x):
    """the number a float literal stands for: 0.2 is 1/5 (machine arithmetic is treated as mathematical)"""
    if isinstance(x, Fraction):
        return x
    r = repr(float(x))
    return Fraction(r) if len(r) <= 12 else Fraction(float(x))


def num_term(x):
    """python / symbolic scalar -> Term"""
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SInt):
        return T.IntT(x.z)
    if isinstance(x, SBool):
        return T.Ite(x.z, T.ONE, T.ZERO)
    if isinstance(x, T.Term):
        return x
    if isinstance(x, Fraction):
        return T.Const(x)
    if isinstance(x, (bool, numbers.Integral)) or isinstance(x, _np.bool_):
        return T.Const(int(x))
    if isinstance(x, numbers.Real) or isinstance(x, _np.floating):
        x = float(x)
        if x == math.pi:
            return T.PI
        if not math.isfinite(x):
            return T.Elem('inf' if x > 0 else ('nan' if x != x else '-inf'), (), real=True)
        return T.Const(frac(x))
    if isinstance(x, numbers.Complex):
        x = complex(x)
        return T.add(num_term(x.real), T.mul(T.I_, num_term(x.imag)))
    if isinstance(x, SArr) and len(x.shape) == 0:
        return num_term(x.item())
    if isinstance(x, _np.ndarray) and x.shape == ():
        return num_term(x.item())
    raise TypeError(f'expected a number, got {type(x).__name__}')


def is_scalar(x):
    return isinstance(x, (SInt, SBool, SNum, numbers.Number, _np.generic, Fraction))


def is_intlike(x):
    return isinstance(x, (SInt, numbers.Integral, _np.integer)) and not isinstance(x, (bool, _np.bool_)) \
        or isinstance(x, (bool, _np.bool_))


def is_real(x):
    if isinstance(x, SNum):
        return x.real
    if isinstance(x, (SInt, SBool)):
        return True
    return isinstance(x, (numbers.Real, _np.bool_))


class _Arr0:
    """array protocol bits shared by scalars"""
    shape = ()
    ndim = 0
    size = 1


class SInt(_Arr0):
    __slots__ = ('z',)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'SInt({self.z})'

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __format__(self, spec):
        return SymStr.mark(self, spec)

    def __str__(self):
        return SymStr.mark(self, '')

    def __index__(self):
        c = ctx()
        z = zsimp(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        r, m = c.check()
        if m is not None:
            v = m.eval(z, model_completion=True)
            if c.implies(z == v):
                return v.as_long()
        raise Unsupported(f'a symbolic integer is used where a concrete one is needed: {z}')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported('float() of a symbolic integer')

    def __bool__(self):
        return ex().decide(self.z != 0)

    def _b(self, o, f, g):
        if isinstance(o, (SArr, SList)) or isinstance(o, _np.ndarray):
            return NotImplemented
        if is_intlike(o) or isinstance(o, SBool):
            return f(self.z, zint(o))
        if is_scalar(o):
            return g(num_term(self), num_term(o), is_real(o))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: mkint(a + b), lambda a, b, r: SNum(T.add(a, b), r))

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: mkint(a - b), lambda a, b, r: SNum(T.add(a, T.neg(b)), r))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: mkint(b - a), lambda a, b, r: SNum(T.add(b, T.neg(a)), r))

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return NotImplemented
        return self._b(o, lambda a, b: mkint(a * b), lambda a, b, r: SNum(T.mul(a, b), r))

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def _div(self, a, b):
        if not ctx().implies(b > 0):
            if ctx().implies(b < 0):
                return -(_zdiv(a, -b)) if False else _zdiv(-a, -b)
            raise Unsupported('floor division by a possibly non-positive symbolic integer')
        return _zdiv(a, b)

    def __floordiv__(self, o):
        return self._b(o, lambda a, b: mkint(self._div(a, b)), lambda a, b, r: _uns('floor division of reals'))

    def __rfloordiv__(self, o):
        return self._b(o, lambda a, b: mkint(self._div(b, a)), lambda a, b, r: _uns('floor division of reals'))

    def __mod__(self, o):
        return self._b(o, lambda a, b: mkint(a - b * self._div(a, b) if False else zmod(a, b)),
                       lambda a, b, r: _uns('mod of reals'))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._b(o, lambda a, b: mkint(zmod(b, a)), lambda a, b, r: _uns('mod of reals'))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self._b(o, lambda a, b: SNum(T.mul(T.IntT(a), T.inv(num_term(o))), True),
                       lambda a, b, r: SNum(T.mul(a, T.inv(b)), r))

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: SNum(T.mul(num_term(o), T.inv(T.IntT(a))), True),
                       lambda a, b, r: SNum(T.mul(b, T.inv(a)), r))

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if isinstance(o, SInt):
            raise Unsupported('symbolic exponent')
        return SNum(num_term(self), True) ** o

    def __rpow__(self, o):
        if o == -1:
            return mkint(z3.If(self.z % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        raise Unsupported('symbolic exponent')

    def _c(self, o, f, op=None):
        if isinstance(o, (SArr, SList)) or isinstance(o, _np.ndarray):
            return NotImplemented
        if is_intlike(o) or isinstance(o, SBool):
            return mkbool(f(self.z, zint(o)))
        if isinstance(o, (float, Fraction)) or isinstance(o, _np.floating):
            o = frac(o) if math.isfinite(o) else None
            if o is None:
                return NotImplemented
            return mkbool(f(self.z * o.denominator, z3.IntVal(o.numerator)))
        if isinstance(o, SNum):
            return cmp_num(SNum(num_term(self), True), o, op)
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, '<')

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, '<=')

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, '>')

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, '>=')

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b, '==')
        return False if r is NotImplemented and not hasattr(o, '__array_priority__') and not isinstance(o, _np.ndarray) else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b, '!=')
        return True if r is NotImplemented and not hasattr(o, '__array_priority__') and not isinstance(o, _np.ndarray) else r

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def __getitem__(self, k):
        if k is None or k is Ellipsis or k == ():
            return to_arr(self)[k]
        raise TypeError('symbolic integer is not subscriptable')


def _uns(s):
    raise Unsupported(s)


def _zdiv(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        # floor((k*A + r)/k) = A + floor(r/k)
        k = b.as_long()
        d, c = T.lin(a)
        q = {i: (e, f // k) for i, (e, f) in d.items() if f // k}
        r = {i: (e, f % k) for i, (e, f) in d.items() if f % k}
        if not r:
            return zsimp(T.from_lin(q, c // k))
        return zsimp(T.from_lin(q, c // k) + T.from_lin(r, c % k) / b)
    return a / b


def zmod(a, b):
    c = ctx()
    if not c.implies(b > 0):
        raise Unsupported('mod by a possibly non-positive symbolic integer')
    if not z3.is_int_value(b):
        # resolve the common cases so that no nonlinear mod remains
        if c.implies(z3.And(0 <= a, a < b)):
            return a
        if c.implies(z3.And(b <= a, a < 2 * b)):
            return a - b
        if c.implies(z3.And(-b <= a, a < 0)):
            return a + b
        if c.implies(z3.And(-b <= a, a < b)):
            return z3.If(a < 0, a + b, a)
        if c.implies(z3.And(0 <= a, a < 2 * b)):
            return z3.If(a >= b, a - b, a)
    return zsimp(a) % b


numbers.Integral.register(SInt)


class SBool(_Arr0):
    __slots__ = ('z',)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'SBool({self.z})'

    def __bool__(self):
        return ex().decide(self.z)

    def __and__(self, o):
        if isinstance(o, (SArr, _np.ndarray)):
            return NotImplemented
        return mkbool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SArr, _np.ndarray)):
            return NotImplemented
        return mkbool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __eq__(self, o):
        return mkbool(self.z == zbool(o))

    def __ne__(self, o):
        return mkbool(self.z != zbool(o))

    def _i(self):
        return mkint(zint(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (SArr, _np.ndarray)):
            return NotImplemented
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()


def canon(t):
    """canonical string of a term (used to identify data predicates)"""
    return keystr(T.tidy(T.nf(t, ctx()), ctx()))


def keystr(ms):
    """complete text of a normal form; summation variables renamed by position (same text => same value)"""
    return ' + '.join(sorted(_key_mono(m) for m in ms))


def _key_mono(m, depth=0):
    ren = [(v, z3.Int(f'%{depth}.{k}')) for k, (v, _, _) in enumerate(m.binders)]
    m = T.monos_subst([m], ren)[0] if ren else m

    def zs(e):
        return e.sexpr().replace('\n', ' ')

    def at(a):
        t = f'{a.kind}:{a.head}[{",".join(zs(e) for e in a.idx)}]^{a.exp}'
        if a.kind == 'f':
            t += '(' + '; '.join(' + '.join(sorted(_key_mono(x, depth + 1) for x in s)) for s in a.sub) + ')'
        elif a.kind == 'v':
            t += '(' + ' + '.join(sorted(_key_mono(x, depth + 1) for x in a.sub)) + ')'
        elif a.kind == 'o':
            vr = [(v, z3.Int(f'%{depth}o{k}')) for k, v in enumerate(a.aux[1])]
            t += f'<{",".join(zs(e) for e in a.aux[0])}>(' + ' + '.join(sorted(_key_mono(x, depth + 1) for x in T.monos_subst(a.sub, vr))) + ')'
        return t
    return (f'({m.c[0]},{m.c[1]})' + 'S' + ','.join(f'{zs(lo)}..{zs(hi)}' for _, lo, hi in m.binders)
            + 'G' + ','.join(sorted(zs(g) for g in m.guards)) + ' ' + ' '.join(sorted(at(a) for a in m.atoms)))


def cmp_num(a, b, op):
    """comparison of symbolic numbers: z3 reals are not used; data predicates become uninterpreted booleans"""
    if op in ('==', '!='):
        try:
            r = T.prove_eq(num_term(a), num_term(b), ctx())
        except Unsupported:
            raise
        if r[0] == 'proved':
            return op == '=='
        d = T.add(num_term(a), T.neg(num_term(b)))
        if is_real(a) and is_real(b):
            signs = ex().signs if hasattr(ex(), 'signs') else {}
            ms = T.tidy(T.nf(d, ctx()), ctx())
            sg = sign_of(ms, signs)
            if sg is not None and (sg[0] == 'pos' or sg[1] == 'neg'):
                return op == '!='
            p = linear(ms, signs) == 0
            return mkbool(p if op == '==' else z3.Not(p))
        s = canon(d)
        p = z3.Bool(f'pred[{s}]==0')
        return mkbool(p if op == '==' else z3.Not(p))
    signs = ex().signs if hasattr(ex(), 'signs') else {}
    d = T.add(num_term(a), T.neg(num_term(b)))
    ms = T.tidy(T.nf(d, ctx()), ctx())
    s = sign_of(ms, signs)
    if s is not None:
        lo, hi = s
        if op == '>' and lo == 'pos':
            return True
        if op == '>' and hi in ('neg', 'zero', 'nonpos'):
            return False
        if op == '<' and lo == 'neg':
            return True
        if op == '<' and hi in ('pos', 'zero', 'nonneg'):
            return False
        if op == '>=' and lo in ('pos', 'zero', 'nonneg'):
            return True
        if op == '>=' and lo == 'neg':
            return False
        if op == '<=' and lo in ('neg', 'zero', 'nonpos'):
            return True
        if op == '<=' and lo == 'pos':
            return False
    if is_abs_bound(ms, op):
        return op == '<'
    e = linear(ms, signs)
    return mkbool({'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[op])


def linear(ms, signs):
    """real part of a normal form as a linear expression of z3 over one real variable per distinct monomial"""
    out = z3.RealVal(0)
    for m in ms:
        if not m.atoms and not m.binders and not m.guards:
            out = out + z3.RealVal(m.c[0])
            continue
        for k, (c, tag) in enumerate(((m.c[0], 're'), (-m.c[1], 'im'))):
            if c == 0:
                continue
            one = T.Mono((1, 0), m.binders, m.guards, m.atoms)
            v = z3.Real(f'{tag}[{keystr([one])}]')
            if k == 0:
                sg = sign_of([one], signs)
                if sg is not None:
                    e = ex()
                    e.pc.append(v > 0 if sg[0] == 'pos' else v < 0)
                    e._ctx = None
                elif len(m.atoms) == 1 and m.atoms[0].kind == 'f' and m.atoms[0].head[0] == 'abs' and not m.guards and m.atoms[0].exp > 0:
                    e = ex()
                    e.pc.append(v >= 0)
                    e._ctx = None
            out = out + z3.RealVal(c) * v
    return out


def is_abs_bound(ms, op):
    """|x| < positive literal (or |x| >= it) with x provably 0: the reality checks in the code"""
    if op not in ('<', '>=') or len(ms) != 2:
        return False
    k = [m for m in ms if not m.atoms]
    a = [m for m in ms if m.atoms]
    if len(k) != 1 or len(a) != 1 or k[0].c[0] >= 0 or k[0].c[1] != 0 or k[0].binders or k[0].guards:
        return False
    m = a[0]
    if m.binders or m.guards or len(m.atoms) != 1 or m.atoms[0].kind != 'f' or m.atoms[0].head[0] != 'abs' or m.c[0] <= 0 or m.c[1] != 0:
        return False
    return m.atoms[0].exp == 1 and T.prove_zero(m.atoms[0].sub[0], ctx())[0] == 'proved'


def sign_of(ms, signs):
    if not ms:
        return 'zero', 'zero'
    out = set()
    for m in ms:
        if m.c[1] != 0 or m.binders or m.guards:
            return None
        s = 1 if m.c[0] > 0 else -1
        for a in m.atoms:
            if a.kind == 'e' and a.head[0] in signs:
                s *= signs[a.head[0]]
            elif a.kind == 'e' and a.head[0] == 'pi':
                pass
            else:
                return None
        out.add(s)
    if out == {1}:
        return 'pos', 'pos'
    if out == {-1}:
        return 'neg', 'neg'
    return None


class SNum(_Arr0):
    __slots__ = ('t', 'isreal')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t, real=False):
        self.t, self.isreal = t, bool(real)

    def __repr__(self):
        return 'SNum'

    def _b(self, o, f):
        if isinstance(o, (SArr, SList)):
            return NotImplemented
        if isinstance(o, _np.ndarray) and o.shape != ():
            o = from_np(o)
            real = self.isreal and o.kind != 'c'
            return o.map(lambda v: SNum(f(self.t, num_term(v)), real), 'f' if real else 'c')
        if not is_scalar(o) and not (isinstance(o, _np.ndarray) and o.shape == ()):
            return NotImplemented
        return SNum(f(self.t, num_term(o)), self.isreal and (is_real(o)))

    def __add__(self, o):
        return self._b(o, lambda a, b: T.add(a, b))

    def __radd__(self, o):
        return self._b(o, lambda a, b: T.add(b, a))

    def __sub__(self, o):
        return self._b(o, lambda a, b: T.add(a, T.neg(b)))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: T.add(b, T.neg(a)))

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return NotImplemented
        return self._b(o, lambda a, b: T.mul(a, b))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: T.mul(a, T.inv(b)))

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: T.mul(b, T.inv(a)))

    def __neg__(self):
        return SNum(T.neg(self.t), self.isreal)

    def __pos__(self):
        return self

    def __pow__(self, o):
        if isinstance(o, (float, _np.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, numbers.Integral) and not isinstance(o, SInt):
            o = int(o)
            t = T.ONE
            for _ in range(abs(o)):
                t = T.mul(t, self.t) if not isinstance(t, T.Const) or t.re != 1 or t.im != 0 else self.t
            if o < 0:
                t = T.inv(t)
            return SNum(t, self.isreal)
        if isinstance(o, (float, _np.floating)) and float(o) == 0.5:
            return SNum(T.Fn('sqrt', [self.t], self.isreal), self.isreal)
        return SNum(T.Fn('pow', [self.t, num_term(o)], self.isreal), self.isreal)

    def __rpow__(self, o):
        return SNum(T.Fn('pow', [num_term(o), self.t], self.isreal), self.isreal)

    def __abs__(self):
        return SNum(T.Fn('abs', [self.t], True), True)

    def conjugate(self):
        return SNum(T.conj(self.t), True) if self.isreal else SNum(T.conj(self.t), False)

    conj = conjugate

    @property
    def real(self):
        # NB: attribute used both as numpy's .real and as realness flag in _b; realness flag is `isreal`
        if self.isreal:
            return self
        return SNum(T.mul(T.Const(Fraction(1, 2)), T.add(self.t, T.conj(self.t))), True)

    @property
    def imag(self):
        if self.isreal:
            return SNum(T.ZERO, True)
        return SNum(T.mul(T.Const(0, Fraction(-1, 2)), T.add(self.t, T.neg(T.conj(self.t)))), True)

    def item(self):
        return self

    def __format__(self, spec):
        return '<sym>'

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic number')

    def __int__(self):
        raise Unsupported('int() of a symbolic number')

    def __bool__(self):
        return bool(cmp_num(self, 0, '!='))

    def __hash__(self):
        return id(self)

    def __lt__(self, o):
        return NotImplemented if isinstance(o, (SArr, _np.ndarray)) else cmp_num(self, o, '<')

    def __le__(self, o):
        return NotImplemented if isinstance(o, (SArr, _np.ndarray)) else cmp_num(self, o, '<=')

    def __gt__(self, o):
        return NotImplemented if isinstance(o, (SArr, _np.ndarray)) else cmp_num(self, o, '>')

    def __ge__(self, o):
        return NotImplemented if isinstance(o, (SArr, _np.ndarray)) else cmp_num(self, o, '>=')

    def __eq__(self, o):
        if isinstance(o, (SArr, _np.ndarray)):
            return NotImplemented
        if not is_scalar(o):
            return False
        return cmp_num(self, o, '==')

    def __ne__(self, o):
        if isinstance(o, (SArr, _np.ndarray)):
            return NotImplemented
        if not is_scalar(o):
            return True
        return cmp_num(self, o, '!=')

    def __getitem__(self, k):
        return to_arr(self)[k]

    def reshape(self, *s):
        return to_arr(self).reshape(*s)


def is_real(x):  # noqa: F811  (final definition)
    if isinstance(x, SNum):
        return x.isreal
    if isinstance(x, (SInt, SBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype.kind in 'fiub'
    return isinstance(x, (numbers.Real, _np.bool_, Fraction))


numbers.Real.register(SNum)


def ite(c, a, b):
    """value-level conditional (c: z3 bool)"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, SArr) or isinstance(b, SArr):
        a, b = to_arr(a), to_arr(b)
        return SArr.make(a.shape, lambda idx: ite(c, a.get(idx), b.get(idx)), join_kind(a.kind, b.kind))
    if isinstance(a, (bool, SBool, _np.bool_)) and isinstance(b, (bool, SBool, _np.bool_)):
        return mkbool(z3.If(c, zbool(a), zbool(b)))
    if (is_intlike(a)) and (is_intlike(b)):
        return mkint(z3.If(c, zint(a), zint(b)))
    return SNum(T.ite(c, num_term(a), num_term(b)), is_real(a) and is_real(b))


def subst_val(x, pairs):
    if isinstance(x, SInt):
        return mkint(z3.substitute(x.z, *pairs))
    if isinstance(x, SBool):
        return mkbool(z3.substitute(x.z, *pairs))
    if isinstance(x, SNum):
        return SNum(T.subst(x.t, pairs), x.isreal)
    if isinstance(x, SArr):
        sh = tuple(zsimp(z3.substitute(s, *pairs)) for s in x.shape_z())
        s = x.snapshot()

        def fn(idx):
            # evaluate at fresh variables, then substitute both
            fv = [fresh_int('q') for _ in idx]
            e = ex()
            n = e.push(*[z3.And(0 <= v, v < d) for v, d in zip(fv, s.shape_z())])
            try:
                val = s.get(fv)
            finally:
                e.pop(n)
            return subst_val(val, list(pairs) + list(zip(fv, [iv(zint(i)) if not z3.is_expr(i) else i for i in idx])))
        return SArr.make([mkint(d) for d in sh], fn, x.kind)
    if isinstance(x, tuple):
        return tuple(subst_val(v, pairs) for v in x)
    if isinstance(x, list):
        return [subst_val(v, pairs) for v in x]
    if isinstance(x, SList):
        return SList(mkint(z3.substitute(zint(x.n), *pairs)), lambda i: subst_val(x.fn(i), pairs))
    if isinstance(x, slice):
        return slice(*[subst_val(v, pairs) for v in (x.start, x.stop, x.step)])
    if isinstance(x, dict):
        return {subst_val(k, pairs): subst_val(v, pairs) for k, v in x.items()}
    if isinstance(x, str):
        if '\x00' not in x:
            return x
        return ''.join(p if isinstance(p, str) else SymStr.mark(subst_val(p[0], pairs), p[1]) for p in SymStr.fields(x))
    if x is None or isinstance(x, (numbers.Number, _np.generic, _np.ndarray, type, types.FunctionType, types.BuiltinFunctionType)):
        return x
    if type(x).__module__.startswith('engine.') and type(x).__name__ in ('Undef', 'Poison', 'SDtype'):
        return x
    raise Unsupported(f'a {type(x).__name__} in a sequence of symbolic length')


# ---------------------------------------------------------------------------------------------- arrays
def join_kind(a, b):
    o = 'bifc'
    return o[max(o.index(a), o.index(b))]


def kind_of(v):
    if isinstance(v, (bool, SBool, _np.bool_)):
        return 'b'
    if is_intlike(v):
        return 'i'
    return 'f' if is_real(v) else 'c'


def obligation(cond, what):
    """safety obligation (index in bounds, shapes agree): decided by forking, the failing side raises"""
    if not ex().decide(cond if z3.is_expr(cond) else z3.BoolVal(bool(cond))):
        raise IndexError(what)


_store_ctr = itertools.count(1)


class Store:
    __slots__ = ('shape', 'fn', 'writes', 'name', 'birth', 'aliases', 'stale')

    def __init__(self, shape, fn, name=None):
        self.shape, self.fn, self.writes, self.name = shape, fn, [], name
        self.birth = next(_store_ctr)
        self.aliases, self.stale = [], False

    def touch(self):
        for st in self.aliases:
            st.stale = True

    def read(self, idx, n=None):
        if self.stale:
            raise Unsupported('read of an array whose memory was written through a reshaped view')
        return self.read_from(self.writes if n is None else self.writes[:n], idx)

    def frozen(self):
        """the present contents, unaffected by later writes and by the rollback of loop iterations"""
        if self.stale:
            raise Unsupported('read of an array whose memory was written through a reshaped view')
        f = Store(self.shape, self.fn, self.name)
        f.writes = list(self.writes)
        f.birth = self.birth
        return f

    def read_from(self, ws, idx):
        res = []
        c = ctx()
        base = None
        loc = ex().push()
        try:
            for cond, val in reversed(ws):
                cc = z3.simplify(cond(idx))
                d = c.decide(cc)
                if d is False:
                    continue
                if d is True:
                    base = val(idx)
                    break
                ex().push(cc)
                m = len(ex().local)
                res.append((cc, val(idx)))
                ex().pop(m - 1)
                ex().push(z3.Not(cc))
                c = ctx()
            if base is None:
                base = self.fn(idx)
        finally:
            ex().pop(loc)
        for cc, v in reversed(res):
            base = ite(cc, v, base)
        return base


WRITE_LOG = []


class SArr:
    """symbolic array: a view on a store"""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, store, shape, axmap, kind, nw=None, ro=False):
        # axmap: for every store axis ('fix', z3 expr) or ('ax', view axis, start z3, step int)
        self.store, self._shape, self.axmap, self.kind, self.nw, self.ro = store, tuple(shape), tuple(axmap), kind, nw, ro

    # ---- construction
    @staticmethod
    def make(shape, fn, kind, name=None, ro=False):
        shape = tuple(mkint(iv(s) if not isinstance(s, SInt) else s.z) if not isinstance(s, int) else s for s in shape)
        st = Store(shape, fn, name)
        return SArr(st, shape, [('ax', i, z3.IntVal(0), 1) for i in range(len(shape))], kind, ro=ro)

    @property
    def shape(self):
        return self._shape

    def shape_z(self):
        return [zint(s) for s in self._shape]

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = s * r
        return r

    @property
    def dtype(self):
        return SDtype(self.kind)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self.map(lambda v: v.real if isinstance(v, SNum) else (v if is_real(v) else v.real), 'f' if self.kind == 'c' else self.kind)

    @property
    def imag(self):
        return self.map(lambda v: v.imag if isinstance(v, SNum) else (0 if isinstance(v, SInt) else v.imag), 'f')

    def __contains__(self, x):
        """x in 1-d integer array whose elements are start +- index (or of fixed length)"""
        if self.ndim == 1 and not isinstance(self.shape[0], int) and is_intlike(x):
            v = fresh_int('n')
            e = ex()
            n = zint(self.shape[0])
            m = e.push(z3.And(0 <= v, v < n))
            try:
                b = self.get([v])
            finally:
                e.pop(m)
            if is_intlike(b):
                d, c = T.lin(zsimp(zint(b)))
                co = [t[1] for t in d.values() if t[0].eq(v)]
                rest = T.from_lin({k: t for k, t in d.items() if not t[0].eq(v)}, c)
                if len(co) == 1 and abs(co[0]) == 1 and not T.occurs(rest, v):
                    at = (zint(x) - rest) * co[0]
                    return bool(SBool(zsimp(z3.And(0 <= at, at < n))))
            raise Unsupported('membership in an array of symbolic length')
        return any(bool(self[k] == x) for k in range(len(self)))

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        n = self._shape[0]
        if isinstance(n, int):
            return n
        return n.__index__()

    def __iter__(self):
        n = self._shape[0]
        if not isinstance(n, int):
            n = n.__index__()
        for i in range(n):
            yield self[i]

    def __bool__(self):
        if self.size == 1 if isinstance(self.size, int) else False:
            return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        if self._shape == ():
            v = self.item()
            return v.__index__() if isinstance(v, SInt) else int(v)
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __hash__(self):
        return id(self)

    # ---- element access
    def _sidx(self, idx):
        out = []
        for m in self.axmap:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                i = idx[m[1]]
                if z3.is_int_value(m[2]) and m[2].as_long() == 0 and m[3] == 1:
                    out.append(i)
                else:
                    out.append(zsimp(m[2] + m[3] * i))
        return out

    def get(self, idx):
        idx = [i if z3.is_expr(i) else iv(zint(i)) for i in idx]
        return self.store.read(self._sidx(idx), self.nw)

    def snapshot(self):
        if self.nw is not None:
            return self
        return SArr(self.store.frozen(), self._shape, self.axmap, self.kind, nw=len(self.store.writes), ro=True)

    def term(self, idx):
        return num_term(self.get(idx))

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if any(not (isinstance(s, int) and s == 1) for s in self._shape):
            obligation(z3.And(*[zint(s) == 1 for s in self._shape]), 'item() of array with more than one element')
        return self.get([0] * self.ndim)

    def map(self, f, kind=None):
        s = self.snapshot()
        return SArr.make(self._shape, lambda idx: f(s.get(idx)), kind or self.kind)

    def copy(self):
        return self.map(lambda v: v)

    def astype(self, dt, *a, **k):
        return self.map(lambda v: v, SDtype.kind_from(dt))

    def view(self, *a):
        return self

    def tolist(self):
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def fill(self, v):
        self[...] = v

    # ---- views
    def _view(self, key):
        """basic indexing -> SArr view (or None if fancy)"""
        if not isinstance(key, tuple):
            key = (key,)
        n_used = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n_used > self.ndim:
            raise IndexError('too many indices for array')
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_used)
            else:
                out.append(k)
        newshape, vmap = [], {}   # vmap: old view axis -> ('fix', e) | ('ax', newaxis, start, step)
        ax = 0
        for k in out:
            if k is None:
                newshape.append(1)
                continue
            d = self._shape[ax]
            if isinstance(k, slice):
                st, step, ln = norm_slice(k, d)
                vmap[ax] = ('ax', len(newshape), st, step)
                newshape.append(ln)
            else:
                e = zint(k)
                vmap[ax] = ('fix', norm_index(e, zint(d)))
            ax += 1
        axmap = []
        for m in self.axmap:
            if m[0] == 'fix':
                axmap.append(m)
            else:
                v = vmap[m[1]]
                if v[0] == 'fix':
                    axmap.append(('fix', zsimp(m[2] + m[3] * v[1])))
                else:
                    axmap.append(('ax', v[1], zsimp(m[2] + m[3] * v[2]), m[3] * v[3]))
        return SArr(self.store, newshape, axmap, self.kind, self.nw, self.ro)

    def __getitem__(self, key):
        if isinstance(key, list):
            key = _np.array(key) if not any(is_sym(k) for k in key) else to_arr(key)
        kk = key if isinstance(key, tuple) else (key,)
        kk = tuple(_np.array(k) if isinstance(k, list) and not any(is_sym(q) for q in k) else
                   (to_arr(k) if isinstance(k, list) else k) for k in kk)
        kk = tuple(k.item() if isinstance(k, SArr) and k.ndim == 0 else
                   (int(k) if isinstance(k, _np.ndarray) and k.shape == () and k.dtype.kind in 'iu' else k) for k in kk)
        if any(isinstance(k, (SArr, _np.ndarray)) for k in kk):
            return self._fancy(kk)
        for k in kk:
            if not (k is None or k is Ellipsis or isinstance(k, slice) or is_intlike(k)):
                if isinstance(k, (SNum, float)):
                    raise IndexError('only integers, slices, ellipsis, newaxis and integer arrays are valid indices')
                raise Unsupported(f'index of type {type(k)}')
        v = self._view(kk)
        if v.ndim == 0 and not any(k is Ellipsis for k in kk):
            return v.get([])
        return v

    def _fancy_norm(self, kk):
        n_used = 0
        for k in kk:
            if isinstance(k, (SArr, _np.ndarray)) and (k.kind if isinstance(k, SArr) else k.dtype.kind) == 'b':
                n_used += k.ndim
            elif k is not None and k is not Ellipsis:
                n_used += 1
        if not any(k is Ellipsis for k in kk):
            kk = kk + (Ellipsis,)
        out = []
        for k in kk:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n_used)
            elif isinstance(k, _np.ndarray) and k.dtype.kind == 'b':
                out += list(_np.nonzero(k))
            elif isinstance(k, SArr) and k.kind == 'b':
                raise Unsupported('boolean mask of symbolic contents')
            else:
                out.append(k)
        return out

    def _mask_view(self, kk):
        """boolean mask of symbolic contents -> (view with the mask axes kept, mask, number of axes behind)"""
        nm = [i for i, k in enumerate(kk) if isinstance(k, SArr) and k.kind == 'b']
        if not nm:
            return None
        if len(nm) > 1 or any(isinstance(k, (SArr, _np.ndarray)) and i != nm[0] for i, k in enumerate(kk)):
            raise Unsupported('boolean mask combined with other index arrays')
        q = nm[0]
        mask = kk[q].snapshot()
        m = mask.ndim
        if any(is_intlike(k) for k in kk):
            adv = [i for i, k in enumerate(kk) if is_intlike(k) or i == q]
            if adv != list(range(adv[0], adv[-1] + 1)):
                raise Unsupported('boolean mask separated from an integer index')
        key = kk[:q] + (slice(None),) * m + kk[q + 1:]
        v = self._view(key)
        # view axis of the first mask axis
        if any(k is Ellipsis for k in kk[q + 1:]) or not any(k is Ellipsis for k in kk[:q]):
            first = sum(0 if is_intlike(k) else 1 for k in kk[:q])
        else:
            first = v.ndim - sum(0 if is_intlike(k) else 1 for k in kk[q + 1:]) - m
        for i in range(m):
            obligation(zint(v.shape[first + i]) == zint(mask.shape[i]), 'boolean index did not match indexed array')
        return v, mask, v.ndim - first - m

    def _fancy(self, kk):
        mv = self._mask_view(kk)
        if mv is not None:
            return SMask(mv[0].snapshot(), mv[1], mv[2])
        out = self._fancy_norm(kk)
        # broadcast the advanced indices (ints count as advanced when mixed)
        adv = [(i, k) for i, k in enumerate(out) if k is not None and not isinstance(k, slice)]
        arrs = [to_arr(k) for _, k in adv]
        bshape = broadcast_shapes([a.shape for a in arrs])
        pos = [i for i, _ in adv]
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        bas = [broadcast_to(a.snapshot(), bshape) for a in arrs]
        # axis bookkeeping
        src_axis = []
        a = 0
        for k in out:
            if k is None:
                src_axis.append(None)
            else:
                src_axis.append(a)
                a += 1
        pieces = []  # list of ('b',) or ('s', i, start, step, len) or ('n',)
        shape = []
        done_b = False
        if not contiguous:
            pieces.append(('b',))
            shape += list(bshape)
            done_b = True
        for i, k in enumerate(out):
            if k is None:
                pieces.append(('n',))
                shape.append(1)
            elif isinstance(k, slice):
                st, step, ln = norm_slice(k, self._shape[src_axis[i]])
                pieces.append(('s', i, st, step))
                shape.append(ln)
            elif not done_b:
                pieces.append(('b',))
                shape += list(bshape)
                done_b = True
        nb = len(bshape)
        # bounds
        for (i, k), b in zip(adv, bas):
            d = zint(self._shape[src_axis[i]])
            gen = [fresh_int('g') for _ in bshape]
            e = ex()
            n = e.push(*[z3.And(0 <= v, v < zint(s)) for v, s in zip(gen, bshape)])
            try:
                z = zint(b.get(gen))
                okc = e.ctx().implies(z3.And(-d <= z, z < d))
            finally:
                e.pop(n)
            if not okc:
                if e.ctx().feasible(z3.And(*[z3.And(0 <= v, v < zint(s)) for v, s in zip(gen, bshape)],
                                           z3.Not(z3.And(-d <= z, z < d)))):
                    # fork on an existential witness: the out of bounds side raises
                    w = z3.And(*[z3.And(0 <= v, v < zint(s)) for v, s in zip(gen, bshape)],
                               z3.Not(z3.And(-d <= z, z < d)))
                    p = z3.Bool(f'oob!{next(T._ctr)}')
                    if e.decide(p):
                        e.pc.append(w)
                        e._ctx = None
                        if not e.ctx().feasible():
                            raise PathEnd()
                        raise IndexError('index array out of bounds')
        s = self.snapshot()

        def fn(idx):
            sidx = [None] * self.ndim
            p = 0
            for pc in pieces:
                if pc[0] == 'b':
                    bidx = idx[p:p + nb]
                    p += nb
                    for (i, k), b in zip(adv, bas):
                        d = zint(self._shape[src_axis[i]])
                        z = zint(b.get(bidx))
                        if not ctx().implies(z >= 0):
                            z = zsimp(z3.If(z < 0, z + d, z))
                        sidx[src_axis[i]] = z
                elif pc[0] == 's':
                    sidx[src_axis[pc[1]]] = zsimp(pc[2] + pc[3] * idx[p])
                    p += 1
                else:
                    p += 1
            return s.get(sidx)
        return SArr.make(shape, fn, self.kind)

    def __setitem__(self, key, val):
        if self.ro or self.nw is not None:
            raise Unsupported('write to a read-only symbolic view')
        kk = key if isinstance(key, tuple) else (key,)
        kk = tuple(_np.array(k) if isinstance(k, list) and not any(is_sym(q) for q in k) else
                   (to_arr(k) if isinstance(k, list) else k) for k in kk)
        kk = tuple(k.item() if isinstance(k, SArr) and k.ndim == 0 else
                   (int(k) if isinstance(k, _np.ndarray) and k.shape == () and k.dtype.kind in 'iu' else k) for k in kk)
        if any(isinstance(k, (SArr, _np.ndarray)) for k in kk):
            return self._fancy_set(kk, val)
        v = self._view(kk)
        v._assign(val)

    def _fancy_set(self, kk, val):
        mv = self._mask_view(kk)
        if mv is not None:
            v, mask, tail = mv
            m = mask.ndim
            first = v.ndim - tail - m
            if isinstance(val, SMask):
                if not same_mask(val.mask, mask) or val.tail != tail:
                    raise Unsupported('assignment between different masks')
                val = val.base
            elif not is_scalar(val):
                val = expand_mask_axis(to_arr(val), tail, m)
            v._assign(val, lambda vi: zbool(mask.get(vi[first:first + m])))
            return
        out = self._fancy_norm(kk)
        adv = [(i, k) for i, k in enumerate(out) if k is not None and not isinstance(k, slice)]
        if any(isinstance(k, SArr) for _, k in adv):
            raise Unsupported('write through a symbolic index array')
        bshape = _np.broadcast_shapes(*[_np.shape(k) for _, k in adv])
        if len(bshape) != 1:
            raise Unsupported('write through a multi dimensional index array')
        sv = to_arr(val)
        pos = [i for i, _ in adv]
        p0 = pos[0] if pos == list(range(pos[0], pos[-1] + 1)) else 0
        nslices = len(out) - len(adv)
        for j in range(bshape[0]):
            key = list(out)
            for i, k in adv:
                kb = _np.broadcast_to(k, bshape)
                key[i] = int(kb[j])
            if sv.ndim == 0:
                self[tuple(key)] = sv.item()
            else:
                full = nslices + 1
                axb = p0 - (full - sv.ndim)
                if axb < 0:
                    self[tuple(key)] = sv
                else:
                    sel = [slice(None)] * sv.ndim
                    sel[axb] = j if not (isinstance(sv.shape[axb], int) and sv.shape[axb] == 1) else 0
                    self[tuple(key)] = sv[tuple(sel)]

    def _assign(self, val, extra=None):
        """write val through the view"""
        val = to_arr(val)
        if val.store is self.store or True:
            val = val.snapshot()
        val = drop_leading(val, self.ndim)
        src = broadcast_to(val, self._shape, assign=True)
        kind = self.kind

        def vidx(idx):
            """store index -> (condition, view index)"""
            conds = []
            v = [z3.IntVal(0)] * self.ndim
            seen = {}
            for m, s, i in zip(self.axmap, self.store.shape, idx):
                if m[0] == 'fix':
                    conds.append(i == m[1])
                else:
                    step = m[3]
                    if step == 1:
                        e = i - m[2]
                    elif step == -1:
                        e = m[2] - i
                    else:
                        e = (i - m[2]) / step if step > 0 else (m[2] - i) / (-step)
                        conds.append(((i - m[2]) % abs(step)) == 0)
                    e = zsimp(e)
                    if m[1] in seen:
                        conds.append(seen[m[1]] == e)
                    else:
                        seen[m[1]] = e
                        ln = zint(self._shape[m[1]])
                        # full axis: no condition needed
                        if not (step == 1 and z3.is_int_value(m[2]) and m[2].as_long() == 0 and ln.eq(zint(s))):
                            conds.append(z3.And(0 <= e, e < ln))
                        v[m[1]] = e
            return z3.And(*conds) if conds else z3.BoolVal(True), v

        def cond(idx):
            c, v = vidx(idx)
            if extra is None:
                return c
            n = ex().push(c)
            try:
                if not ctx().feasible():
                    return z3.BoolVal(False)
                return z3.And(c, extra(v))
            finally:
                ex().pop(n)

        def value(idx):
            v = src.get(vidx(idx)[1])
            if kind in 'fi' and not is_real(v):
                return v  # numpy would warn and discard the imaginary part
            return v
        if kind in 'fi':
            # discard of the imaginary part
            if src.kind == 'c' and kind in 'fi':
                raise Unsupported('complex value written to a real array')
            if src.kind in 'cf' and kind == 'i':
                raise Unsupported('fractional value written to an integer array')  # numpy would truncate it
        w = (cond, value)
        self.store.writes.append(w)
        self.store.touch()
        for log in WRITE_LOG:
            log.append((self.store, len(self.store.writes) - 1))

    # ---- shape ops
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if len(axes) == 1 and axes[0] is None:
            axes = ()
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        inv = {a: i for i, a in enumerate(axes)}
        return SArr(self.store, [self._shape[a] for a in axes],
                    [m if m[0] == 'fix' else ('ax', inv[m[1]], m[2], m[3]) for m in self.axmap], self.kind, self.nw, self.ro)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr, _np.ndarray)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def flatten(self):
        return reshape(self, (-1,), copy=True)

    def ravel(self):
        return reshape(self, (-1,))

    def squeeze(self, axis=None):
        if axis is None:
            key = tuple(0 if isinstance(s, int) and s == 1 else slice(None) for s in self._shape)
        else:
            axis = [a % self.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
            key = tuple(0 if i in axis else slice(None) for i in range(self.ndim))
        return self._view(key)

    # ---- arithmetic
    def _bin(self, o, f, kind=None):
        if isinstance(o, (list, SList)):
            o = to_arr(o)
        if isinstance(o, _np.ndarray) or isinstance(o, SArr) or is_scalar(o):
            return elementwise(f, [self, o], kind)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: sdiv(a, b), 'f')

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: sdiv(b, a), 'f')

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: b % a)

    def __pow__(self, o):
        return self._bin(o, lambda a, b: a ** b)

    def __neg__(self):
        return self.map(lambda a: -a)

    def __pos__(self):
        return self.map(lambda a: a)

    def _bool(self, o, f):
        k = o.kind if isinstance(o, SArr) else o.dtype.kind if isinstance(o, _np.ndarray) else 'b' if isinstance(o, (bool, _np.bool_, SBool)) else None
        if self.kind != 'b' or k != 'b':
            raise Unsupported('bitwise operation on arrays that are not boolean')
        return self._bin(o, lambda x, y: mkbool(f(zbool(x), zbool(y))), 'b')

    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('bitwise operation on arrays that are not boolean')
        return self.map(lambda x: mkbool(z3.Not(zbool(x))), 'b')

    def __and__(self, o):
        return self._bool(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._bool(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bool(o, z3.Xor)

    __rxor__ = __xor__

    def __abs__(self):
        return self.map(abs, 'f' if self.kind == 'c' else self.kind)

    def __matmul__(self, o):
        from engine.npshim import matmul
        return matmul(self, o)

    def __rmatmul__(self, o):
        from engine.npshim import matmul
        return matmul(o, self)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b, 'b')

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b, 'b')

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b, 'b')

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b, 'b')

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b, 'b')

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b, 'b')

    def _inplace(self, o, f):
        r = f(self, o)
        if r is NotImplemented:
            return r
        if self.ro or self.nw is not None:
            return r
        if 'bifc'.index(r.kind) > 'bifc'.index(self.kind):
            raise TypeError(f"Cannot cast ufunc output from kind {r.kind} to {self.kind}")
        if r.ndim > self.ndim:
            raise ValueError('non-broadcastable output operand')
        self._assign(r)
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    def __ipow__(self, o):
        return self._inplace(o, lambda a, b: a ** b)

    def __iand__(self, o):
        return self._inplace(o, lambda a, b: a & b)

    def __ior__(self, o):
        return self._inplace(o, lambda a, b: a | b)

    # ---- reductions etc. (delegated)
    def conj(self):
        return self.map(lambda v: v.conjugate() if not isinstance(v, (int, float)) else v)

    conjugate = conj

    def sum(self, axis=None, **k):
        from engine.npshim import NP
        return NP.sum(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        from engine.npshim import NP
        return NP.mean(self, axis=axis, **k)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from engine.npshim import NP
        f = getattr(NP, name, None)
        if name in ('max', 'min', 'argmax', 'argmin', 'repeat', 'swapaxes', 'dot', 'cumsum', 'prod', 'take', 'all', 'any',
                    'trace', 'round', 'nonzero', 'diagonal', 'clip', 'ptp', 'var', 'argsort', 'std') and f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if hasattr(_np.ndarray, name):
            raise Unsupported(f'ndarray.{name}')
        if name in ('nbytes', 'flags', 'strides', 'flat', 'data', 'tobytes', 'sort'):
            raise Unsupported(f'ndarray.{name}')
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")


def sdiv(a, b):
    if isinstance(a, (SNum, SInt, SBool)) or isinstance(b, (SNum, SInt, SBool)):
        if isinstance(a, SBool):
            a = a._i()
        if isinstance(b, SBool):
            b = b._i()
        return a / b
    return SNum(T.mul(num_term(a), T.inv(num_term(b))), is_real(a) and is_real(b))


class SDtype:
    def __init__(self, kind):
        self.kind = kind

    @staticmethod
    def kind_from(dt):
        if isinstance(dt, SDtype):
            return dt.kind
        dt = getattr(dt, 'dga_builtin', dt)
        k = _np.dtype(dt).kind
        return 'i' if k == 'u' else k

    def __eq__(self, o):
        try:
            return self.kind == SDtype.kind_from(o)
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.kind)

    @property
    def name(self):
        return {'b': 'bool', 'i': 'int64', 'f': 'float64', 'c': 'complex128'}[self.kind]

    def __repr__(self):
        return f"dtype('{self.name}')"


def norm_index(e, d):
    """index with numpy wrap-around semantics; out of bounds forks into an IndexError path"""
    c = ctx()
    e = zsimp(e)
    if c.implies(z3.And(0 <= e, e < d)):
        return e
    if c.implies(z3.And(-d <= e, e < 0)):
        return zsimp(e + d)
    if not has_generic(e, d):
        obligation(z3.And(-d <= e, e < d), f'index {e} is out of bounds for axis with size {d}')
        if ex().decide(e >= 0):
            return e
        return zsimp(e + d)
    # generic loop index: in-bounds must be provable, or fork on a witness
    if not c.implies(z3.And(-d <= e, e < d)):
        oob_witness(z3.Not(z3.And(-d <= e, e < d)), f'index {e} is out of bounds for axis with size {d}')
    return zsimp(z3.If(e < 0, e + d, e))


def has_generic(*es):
    g = set()
    for ids, _ in ex().generic:
        g |= set(ids)
    return any(i in g for e in es for i in T.zvars(e))


def oob_witness(cond, what):
    """cond mentions generic variables: fork 'some generic instance is bad' (raises) / 'none is' (assumed)"""
    e = ex()
    p = z3.Bool(f'oob!{len(e.trail) if e.pos >= len(e.trail) else e.pos}!{what[:40]}')
    if e.pos < len(e.trail):
        v = e.trail[e.pos][0]
    else:
        v = True
        e.trail.append([True, False])
    e.pos += 1
    if v:
        # bad side: add local assumptions and the bad condition with the generic variables as witnesses
        e.pc.extend(e.local)
        e.pc.append(cond)
        e._ctx = None
        if not e.ctx().feasible():
            raise PathEnd()
        raise IndexError(what)
    # good side: for the generic instance the condition does not hold
    e.push(z3.Not(cond))
    return


def norm_slice(k, d):
    """slice, dim -> (start z3, step int, length int|SInt) with numpy clamping"""
    step = 1 if k.step is None else k.step
    if isinstance(step, SInt):
        step = step.__index__()
    step = int(step)
    D = zint(d)
    c = ctx()

    def clamp(x, lo, hi, default):
        if x is None:
            return default
        e = zsimp(zint(x))
        if c.implies(z3.And(e >= 0, e <= hi)):
            return e
        if c.implies(z3.And(e < 0, e + D >= lo)):
            return zsimp(e + D)
        gen = has_generic(e, D)
        if gen:
            e2 = z3.If(e < 0, e + D, e)
            return zsimp(z3.If(e2 < lo, lo, z3.If(e2 > hi, hi, e2)))
        if ex().decide(e < 0):
            e = zsimp(e + D)
            if ex().decide(e < lo):
                return lo
            return e
        if ex().decide(e > hi):
            return hi
        return e
    zero = z3.IntVal(0)
    if step > 0:
        st = clamp(k.start, zero, D, zero)
        en = clamp(k.stop, zero, D, D)
        c = ctx()
        if c.implies(en >= st):
            ln = en - st
        elif c.implies(en <= st):
            ln = zero
        elif has_generic(st, en):
            ln = z3.If(en > st, en - st, zero)
        else:
            ln = en - st if ex().decide(en > st) else zero
        if step != 1:
            ln = (ln + (step - 1)) / step
    else:
        m1 = z3.IntVal(-1)
        st = zsimp(D - 1) if k.start is None else clamp(k.start, m1, zsimp(D - 1), None)
        en = m1 if k.stop is None else clamp(k.stop, m1, zsimp(D - 1), None)
        c = ctx()
        if c.implies(st >= en):
            ln = st - en
        else:
            if has_generic(st, en):
                ln = z3.If(st > en, st - en, zero)
            else:
                ln = st - en if ex().decide(st > en) else zero
        if step != -1:
            ln = (ln + (-step - 1)) / (-step)
    return zsimp(st), step, mkint(ln)


class SList:
    """list of symbolic length (result of a comprehension over a symbolic range)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __len__(self):
        return self.n.__index__() if isinstance(self.n, SInt) else self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, step, ln = norm_slice(i, self.n)
            return SList(ln, lambda j: self.fn(zsimp(st + step * (j if z3.is_expr(j) else zint(j)))))
        e = norm_index(zint(i), zint(self.n))
        return self.fn(e)

    def __iter__(self):
        for i in range(len(self)):
            yield self.fn(z3.IntVal(i))

    def append(self, x):
        n, old = zint(self.n), self.fn

        def fn(i):
            i = i if z3.is_expr(i) else zint(i)
            c = ctx()
            if c.implies(i == n):
                return x
            if c.implies(i < n):
                return old(i)
            o = old(i)
            if is_scalar(x) and is_scalar(o):
                return x if ex().decide(i == n) else o
            a, b = to_arr(x), to_arr(o)
            if len(a.shape) != len(b.shape) or not all(_same_dim(p, q) for p, q in zip(a.shape, b.shape)):
                raise Unsupported('ragged symbolic list')
            return SArr.make(a.shape, lambda idx: a.get(idx) if ex().decide(i == n) else b.get(idx), a.kind if a.kind == b.kind else 'c')
        self.n, self.fn = mkint(zsimp(n + 1)), fn


def to_arr(x):
    if isinstance(x, SArr):
        return x
    if hasattr(type(x), 'dga_array'):
        return to_arr(x.dga_array)
    if isinstance(x, _np.ndarray):
        return from_np(x)
    if is_scalar(x):
        return SArr.make((), lambda idx: x, kind_of(x), ro=True)
    if hasattr(x, 'at') and hasattr(x, 'length'):
        x = SList(mkint(x.length()), x.at)
    if isinstance(x, SList):
        i = fresh_int('l')
        e = ex()
        n = e.push(z3.And(0 <= i, i < zint(x.n)))
        try:
            el = x.fn(i)
            el = to_arr(el) if not is_scalar(el) else el
        finally:
            e.pop(n)
        if is_scalar(el):
            return SArr.make((x.n,), lambda idx: x.fn(idx[0]), kind_of(el))
        sh = el.shape
        for s in sh:
            if isinstance(s, SInt) and T.occurs(s.z, i):
                s2 = ctx_const(s.z, i, zint(x.n))
                if s2 is None:
                    raise Unsupported('ragged symbolic list')
        sh = [mkint(ctx_const(zint(s), i, zint(x.n))) if isinstance(s, SInt) else s for s in sh]
        return SArr.make((x.n,) + tuple(sh), lambda idx: to_arr(x.fn(idx[0])).get(idx[1:]), el.kind)
    if isinstance(x, (list, tuple)):
        if not any(_has_sym(v) for v in x):
            return from_np(_np.array(x))
        els = [to_arr(v) for v in x]
        sh = els[0].shape
        for v in els[1:]:
            if len(v.shape) != len(sh):
                raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
            for a, b in zip(sh, v.shape):
                if not _same_dim(a, b):
                    obligation(zint(a) == zint(b), 'inhomogeneous shape')
        kind = els[0].kind
        for v in els[1:]:
            kind = join_kind(kind, v.kind)
        els = [v.snapshot() for v in els]

        def fn(idx):
            i = idx[0]
            if z3.is_int_value(i):
                return els[i.as_long()].get(idx[1:])
            r = els[-1].get(idx[1:])
            for k in range(len(els) - 2, -1, -1):
                d = ctx().decide(i == k)
                if d is True:
                    return els[k].get(idx[1:])
                if d is False:
                    continue
                r = ite(i == k, els[k].get(idx[1:]), r)
            return r
        return SArr.make((len(els),) + tuple(sh), fn, kind)
    raise Unsupported(f'array from {type(x)}')


def ctx_const(z, i, n):
    """value of z if independent of i in [0,n)"""
    z = zsimp(z)
    if not T.occurs(z, i):
        return z
    z0 = zsimp(z3.substitute(z, (i, z3.IntVal(0))))
    c = ctx().extend(z3.And(0 <= i, i < n))
    if c.implies(z == z0):
        return z0
    return None


def _has_sym(v):
    if is_sym(v):
        return True
    if isinstance(v, (list, tuple)):
        return any(_has_sym(x) for x in v)
    return False


def _same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().eq(zint(a), zint(b))


def from_np(a):
    if a.dtype == object:
        flat = [x for x in a.reshape(-1)]
        if any(not is_scalar(x) for x in flat):
            raise Unsupported('object array')
    kind = a.dtype.kind
    kind = {'u': 'i', 'O': 'c', 'i': 'i', 'f': 'f', 'c': 'c', 'b': 'b'}.get(kind)
    if kind is None:
        raise Unsupported(f'array of dtype {a.dtype}')
    a = a.copy()

    def fn(idx):
        return rec(a, idx)

    def rec(sub, idx):
        if not idx:
            v = sub[()]
            return v.item() if isinstance(v, _np.generic) else v
        i = idx[0]
        i = zsimp(i)
        if z3.is_int_value(i):
            return rec(sub[i.as_long()], idx[1:])
        if sub.size and (sub == sub.reshape(-1)[0]).all():
            v = sub.reshape(-1)[0]
            return v.item() if isinstance(v, _np.generic) else v
        if sub.shape[0] > 64:
            raise Unsupported('symbolic index into a large concrete array')
        r = None
        for k in range(sub.shape[0] - 1, -1, -1):
            d = ctx().decide(i == k)
            if d is True:
                return rec(sub[k], idx[1:])
            if d is False:
                continue
            v = rec(sub[k], idx[1:])
            r = v if r is None else ite(i == k, v, r)
        if r is None:
            raise PathEnd()
        return r
    return SArr.make(a.shape, fn, kind)


def broadcast_shapes(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        dims = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        cur = 1
        for d in dims:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
                continue
            if _same_dim(cur, d):
                continue
            if not isinstance(cur, int) or not isinstance(d, int):
                if ex().decide(zint(cur) == zint(d)):
                    continue
                if not isinstance(cur, int) and ex().decide(zint(cur) == 1):
                    cur = d
                    continue
                if not isinstance(d, int) and ex().decide(zint(d) == 1):
                    continue
            raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def broadcast_to(a, shape, assign=False):
    """read-only view of a (snapshot) with given shape"""
    k = len(shape) - len(a.shape)
    if k < 0:
        raise ValueError('could not broadcast input array')
    sel = []
    for i, d in enumerate(a.shape):
        tgt = shape[i + k]
        if isinstance(d, int) and d == 1 and not (isinstance(tgt, int) and tgt == 1):
            sel.append(True)
        elif _same_dim(d, tgt):
            sel.append(False)
        else:
            if (isinstance(d, SInt) or isinstance(tgt, SInt)) and ex().decide(zint(d) == zint(tgt)):
                sel.append(False)
            elif isinstance(d, SInt) and ex().decide(d.z == 1):
                sel.append(True)
            else:
                raise ValueError(f'could not broadcast input array from shape {a.shape} into shape {shape}')
    if k == 0 and not any(sel):
        return a
    zero = z3.IntVal(0)
    return SArr.make(shape, lambda idx: a.get([zero if s else idx[i + k] for i, s in enumerate(sel)]), a.kind)


def drop_leading(a, ndim):
    while a.ndim > ndim:
        if isinstance(a.shape[0], int) and a.shape[0] == 1 or isinstance(a.shape[0], SInt) and ex().decide(a.shape[0].z == 1):
            a = a._view((0,))
        else:
            raise ValueError('could not broadcast input array (too many dimensions)')
    return a


def same_mask(a, b):
    if a is b:
        return True
    if len(a.shape) != len(b.shape) or not all(_same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    fv = [fresh_int('k') for _ in a.shape]
    e = ex()
    n = e.push(*[z3.And(0 <= v, v < zint(d)) for v, d in zip(fv, a.shape)])
    try:
        return bool(e.ctx().implies(zbool(a.get(fv)) == zbool(b.get(fv))))
    finally:
        e.pop(n)


def expand_mask_axis(a, tail, m):
    """operand that is broadcast along the compressed axis of a mask selection"""
    k = a.ndim - 1 - tail
    if k < 0:
        return a
    if not (isinstance(a.shape[k], int) and a.shape[k] == 1):
        raise Unsupported('array of data dependent length')
    return a._view((slice(None),) * (k + 1) + (None,) * (m - 1))


class SMask:
    """a[..., mask, ...]: base keeps the mask axes, the selected entries are those where mask holds (row-major order)"""
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, base, mask, tail):
        self.base, self.mask, self.tail = base, mask, tail

    @property
    def ndim(self):
        return self.base.ndim - self.mask.ndim + 1

    @property
    def kind(self):
        return self.base.kind

    @property
    def dtype(self):
        return self.base.dtype

    def _map(self, f, kind=None):
        return SMask(self.base.map(f, kind), self.mask, self.tail)

    def _wrap(self, b):
        return SMask(b.snapshot(), self.mask, self.tail)

    def _bin(self, o, f, kind=None):
        if isinstance(o, SMask):
            if not same_mask(o.mask, self.mask) or o.tail != self.tail:
                raise Unsupported('operation between different mask selections')
            o = o.base
        elif not is_scalar(o):
            if not isinstance(o, (SArr, _np.ndarray, list)):
                return NotImplemented
            o = expand_mask_axis(to_arr(o), self.tail, self.mask.ndim)
        return SMask(elementwise(f, [self.base, o], kind), self.mask, self.tail)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: sdiv(a, b), 'f')

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: sdiv(b, a), 'f')

    def __pow__(self, o):
        return self._bin(o, lambda a, b: a ** b)

    def flatten(self):
        if self.ndim != 1:
            raise Unsupported('flattened mask selection with further axes')
        return self

    ravel = flatten

    def copy(self):
        return self

    def __neg__(self):
        return self._wrap(-self.base)

    def __abs__(self):
        return self._wrap(abs(self.base))

    def conj(self):
        return self._wrap(self.base.conj())

    conjugate = conj

    @property
    def real(self):
        return self._wrap(self.base.real)

    @property
    def imag(self):
        return self._wrap(self.base.imag)

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        return self._wrap(self.base.astype(dt))

    def flatten(self):
        if self.ndim != 1:
            raise Unsupported('flatten of a mask selection')
        return self

    ravel = flatten

    def reduce(self, axis, mean):
        if axis is None:
            if self.ndim != 1:
                raise Unsupported('reduction of a mask selection')
            axis = 0
        ax = int(axis) % self.ndim
        first = self.ndim - 1 - self.tail
        if ax != first:
            raise Unsupported('reduction of a mask selection along another axis')
        from engine.npshim import NP
        m = self.mask.ndim
        mk = self.mask._view((slice(None),) * m + (None,) * self.tail)
        x = elementwise(lambda c, v: ite(zbool(c), v, 0), [mk, self.base], 'i')
        x.kind = join_kind('i', self.base.kind)
        axes = tuple(range(first, first + m))
        r = NP.sum(x, axis=axes)
        if mean:
            cnt = NP.sum(elementwise(lambda c: ite(zbool(c), 1, 0), [self.mask], 'i'), axis=None)
            r = r / cnt
        return r

    def sum(self, axis=None):
        return self.reduce(axis, False)

    def mean(self, axis=None):
        return self.reduce(axis, True)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'{k} of a mask selection')

    def __len__(self):
        raise Unsupported('length of a mask selection')

    def __iter__(self):
        raise Unsupported('iteration over a mask selection')

    def __getitem__(self, k):
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            return self
        raise Unsupported('indexing of a mask selection')


def elementwise(f, args, kind=None):
    arrs = [to_arr(a).snapshot() for a in args]
    shape = broadcast_shapes([a.shape for a in arrs])
    bs = [broadcast_to(a, shape) for a in arrs]
    k = arrs[0].kind
    for a in arrs[1:]:
        k = join_kind(k, a.kind)
    if kind == 'b':
        k = 'b'
    elif kind is not None:
        k = join_kind(k, kind)
    if k == 'b' and kind is None:
        k = 'b'
    return SArr.make(shape, lambda idx: f(*[b.get(idx) for b in bs]), k)


def reshape(a, shape, copy=False):
    shape = list(shape)
    shape = [s.item() if isinstance(s, (_np.generic,)) else s for s in shape]
    zs = [zint(s) for s in shape]
    unk = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    old = list(a.shape)
    c = ctx()
    # try to match factor groups of old and new shape
    if unk:
        # determine the unknown by cancelling equal dims
        rem_old, rem_new = list(old), [s for i, s in enumerate(shape) if i != unk[0]]
        for s in list(rem_new):
            for o in list(rem_old):
                if _same_dim(s, o):
                    rem_old.remove_is(o) if hasattr(rem_old, 'remove_is') else _rm(rem_old, o)
                    _rm(rem_new, s)
                    break
        p = 1
        for o in rem_old:
            p = o * p
        qd = 1
        for s in rem_new:
            qd = s * qd
        if isinstance(qd, int) and qd == 1:
            u = p
        elif isinstance(p, int) and isinstance(qd, int):
            if p % qd:
                raise ValueError('cannot reshape array')
            u = p // qd
        else:
            pz, qz = zint(p), zint(qd)
            u = _exact_quot(pz, qz)
        shape[unk[0]] = u
    # equal leading and trailing axes stay as they are
    groups = []
    pre = 0
    while pre < min(len(old), len(shape)) and _same_dim(old[pre], shape[pre]):
        groups.append(([pre], [pre]))
        pre += 1
    post = 0
    while post < min(len(old), len(shape)) - pre and _same_dim(old[-1 - post], shape[-1 - post]):
        post += 1
        groups.append(([len(old) - post], [len(shape) - post]))
    full_old, full_shape = old, shape
    old, shape = old[:len(old) - post], shape[:len(shape) - post]
    # group matching
    i = j = pre
    po = pn = 1
    io = jn = 0
    while i < len(old) or j < len(shape):
        gi, gj = i, j
        po = pn = 1
        # absorb leading ones
        if i < len(old):
            po = old[i] * po if not isinstance(old[i], int) else po * old[i]
            i += 1
        if j < len(shape):
            pn = shape[j] * pn if not isinstance(shape[j], int) else pn * shape[j]
            j += 1
        guard = 0
        while not _same_dim(po, pn):
            guard += 1
            if guard > 40:
                raise Unsupported('reshape')
            # extend the smaller side
            small_old = None
            if i >= len(old) and j >= len(shape):
                obligation(zint(po) == zint(pn), f'cannot reshape array of shape {a.shape} into shape {shape}')
                break
            if i >= len(old):
                small_old = False
            elif j >= len(shape):
                small_old = True
            else:
                if isinstance(po, int) and po == 1:
                    small_old = True
                elif isinstance(pn, int) and pn == 1:
                    small_old = False
                else:
                    # which side is a 'factor' of the other
                    fo, fn_ = _factors(old[gi:i]), _factors(shape[gj:j])
                    small_old = len(fo) < len(fn_) or (len(fo) == len(fn_) and isinstance(po, int) and isinstance(pn, int) and po < pn)
                    if len(fo) == len(fn_) and not (isinstance(po, int) and isinstance(pn, int)):
                        small_old = len(old) - i >= len(shape) - j
            if small_old:
                po = old[i] * po
                i += 1
            else:
                pn = shape[j] * pn
                j += 1
        groups.append((list(range(gi, i)), list(range(gj, j))))
    s = a.snapshot()
    old, shape = full_old, full_shape
    nold = len(old)

    def fn(idx):
        out = [None] * nold
        for go, gn in groups:
            if len(go) == 1 and len(gn) == 1:
                out[go[0]] = idx[gn[0]]
                continue
            if not go:
                continue
            # linear offset
            off = z3.IntVal(0)
            for k in gn:
                off = off * zint(shape[k]) + idx[k]
            if len(go) == 1:
                out[go[0]] = zsimp(off) if gn else z3.IntVal(0)
                continue
            off = zsimp(off)
            unravel(off, go, old, out)
        return s.get(out)

    def unravel(off, go, old, out):
        for n, k in enumerate(go):
            rest = 1
            for kk in go[n + 1:]:
                rest = old[kk] * rest
            if isinstance(rest, int) and rest == 1:
                out[k] = off
                off = z3.IntVal(0)
                continue
            r = zint(rest)
            qv, rv = divmod_sym(off, r)
            out[k], off = qv, rv
    if a.ro or a.nw is not None:
        return SArr.make(shape, fn, a.kind, ro=not copy)
    r = SArr.make(shape, fn, a.kind)
    if not copy:
        # one of the two may be written, the other must not be read after that
        r.store.aliases.append(a.store)
        a.store.aliases.append(r.store)
    return r


def _factors(dims):
    return [d for d in dims if not (isinstance(d, int) and d == 1)]


def _rm(lst, x):
    for k, y in enumerate(lst):
        if y is x or (isinstance(x, int) and isinstance(y, int) and x == y):
            del lst[k]
            return


def _exact_quot(p, q):
    # p == q * u ; try syntactic division of a product
    ps = list(p.children()) if p.decl().kind() == z3.Z3_OP_MUL else [p]
    qs = list(q.children()) if q.decl().kind() == z3.Z3_OP_MUL else [q]
    for x in list(qs):
        for y in list(ps):
            if x.eq(y):
                ps.remove(y)
                qs.remove(x)
                break
    if qs:
        if all(z3.is_int_value(x) for x in qs):
            d = 1
            for x in qs:
                d *= x.as_long()
            pr = z3.IntVal(1)
            for y in ps:
                pr = pr * y
            return mkint(zsimp(pr) / d)
        raise Unsupported('reshape with a symbolic quotient')
    r = z3.IntVal(1)
    for y in ps:
        r = r * y
    return mkint(r)


def divmod_sym(off, r):
    """off = q*r + rem with r > 0 ; exploit the shape q0*r + rem0 produced by ravel"""
    if z3.is_int_value(r):
        return zsimp(off / r), zsimp(off % r)
    c = ctx()
    # look for off == a*r + b syntactically
    e = z3.simplify(off, som=True)
    terms = list(e.children()) if e.decl().kind() == z3.Z3_OP_ADD else [e]
    rf = list(r.children()) if r.decl().kind() == z3.Z3_OP_MUL else [r]
    qs, rest = [], []
    for t in terms:
        fs = list(t.children()) if t.decl().kind() == z3.Z3_OP_MUL else [t]
        fs2 = list(fs)
        ok = True
        for x in rf:
            for y in fs2:
                if x.eq(y):
                    fs2.remove(y)
                    break
            else:
                ok = False
                break
        if ok:
            p = z3.IntVal(1)
            for y in fs2:
                p = p * y
            qs.append(p)
        else:
            rest.append(t)
    qv = zsimp(sum(qs, z3.IntVal(0)))
    rv = zsimp(sum(rest, z3.IntVal(0)))
    if c.implies(z3.And(0 <= rv, rv < r)):
        return qv, rv
    if c.implies(z3.And(0 <= off, off < r)):
        return z3.IntVal(0), off
    return zsimp(off / r), zsimp(off % r)


def recombine(e):
    """quotient times divisor plus remainder put together again: e without quotients and remainders if they cancel"""
    memo, c = {}, ctx()

    def go(x):
        if not z3.is_app(x) or not x.num_args():
            return x
        r = memo.get(x.get_id())
        if r is None:
            a = [go(y) for y in x.children()]
            k = x.decl().kind()
            if k == z3.Z3_OP_MOD and not z3.is_int_value(a[1]) and c.implies(a[1] > 0):
                r = a[0] - a[1] * (z3.simplify(a[0], som=True) / z3.simplify(a[1], som=True))
            elif k == z3.Z3_OP_IDIV and not z3.is_int_value(a[1]):
                r = z3.simplify(a[0], som=True) / z3.simplify(a[1], som=True)
            else:
                r = x.decl()(*a)
            memo[x.get_id()] = r
        return r
    if not divides(e):
        return e
    r = z3.simplify(go(e), som=True)
    return e if divides(r) else zsimp(r)


def divides(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(x.arg(1)):
            return True
        st += x.children()
    return False


def undivide(e):
    """quotients and remainders by symbolic numbers, taken apart again after a substitution (raveled index / extent)"""
    found, seen, st = False, set(), [e]
    while st and not found:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            found = x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(x.arg(1))
            st += x.children()
    if not found:
        return e
    memo = {}

    def go(x):
        if not z3.is_app(x) or not x.num_args():
            return x
        r = memo.get(x.get_id())
        if r is None:
            a = [go(y) for y in x.children()]
            k = x.decl().kind()
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(a[1]):
                r = divmod_sym(zsimp(a[0]), a[1])[0 if k == z3.Z3_OP_IDIV else 1]
            else:
                r = x.decl()(*a)
            memo[x.get_id()] = r
        return r
    return go(e)


class SymStr(str):
    """marker for formatted symbolic integers (file/dataset names)"""
    table = {}

    @staticmethod
    def mark(x, spec):
        k = f'\x00{len(SymStr.table)}:{spec}\x00'
        SymStr.table[k] = (x, spec)
        return k

    @staticmethod
    def text(s):
        """canonical form of a string with formatted integers: equal values give equal text"""
        import re

        def one(m):
            x, spec = SymStr.table[m.group(0)]
            return f'<{zsimp(x.z).sexpr()}:{spec}>'
        return re.sub('\x00[0-9]+:[^\x00]*\x00', one, s)

    @staticmethod
    def fields(s):
        """list of the literal parts and the (integer, format) parts of a string"""
        import re
        return [SymStr.table[x] if x.startswith('\x00') else x for x in re.split('(\x00[0-9]+:[^\x00]*\x00)', s) if x]
