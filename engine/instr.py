"""Loads /repo/src/dga/*.py on every run as instrumented copies: same statements, loops and comprehensions made
re-executable for one generic iteration, builtins and numpy replaced by symbolic-aware stand-ins."""
import ast
import builtins
import os
import sys
import types

import numpy as _np
import z3

from engine import npshim
from engine import sym as S
from engine import terms as T
from engine.npshim import NP
from engine.sym import SArr, SBool, SInt, SList, SNum, SubExplorer, ex, mkint, zint
from engine.terms import Unsupported, fresh_int, zsimp

_store_ctr = S._store_ctr

REPO_SRC = os.environ.get('DGA_SRC', '/repo/src')


# ------------------------------------------------------------------------------------------------- AST pass
class _Has(ast.NodeVisitor):
    def __init__(self, breaks=False):
        self.bad = False
        self.breaks = breaks      # breaks out of the loop itself are allowed
        self.found = False
        self.depth = 0

    def visit_Return(self, n):
        self.bad = True

    def visit_Yield(self, n):
        self.bad = True

    visit_YieldFrom = visit_Yield
    visit_Await = visit_Yield
    visit_Global = visit_Yield
    visit_Nonlocal = visit_Yield
    visit_Delete = visit_Yield
    visit_NamedExpr = visit_Yield

    def visit_Break(self, n):
        if self.depth == 0:
            self.found = True
            if not self.breaks:
                self.bad = True

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    def visit_While(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    def visit_FunctionDef(self, n):
        pass

    def visit_Lambda(self, n):
        pass

    def visit_ClassDef(self, n):
        self.bad = True


class _Continue(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_For(self, n):
        return n

    visit_While = visit_For
    visit_FunctionDef = visit_For
    visit_Lambda = visit_For


class _Break(_Continue):
    def visit_Break(self, n):
        return ast.copy_location(ast.Return(value=ast.Constant('break')), n)


def stored_names(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)
            if n.name.startswith('__dga_b'):        # an inner loop, already rewritten: what it assigns is declared nonlocal
                for x in n.body:
                    if isinstance(x, ast.Nonlocal):
                        out.extend(k for k in x.names if k not in out)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split('.')[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and n.target.id not in out:
                out.append(n.target.id)
            self.generic_visit(n)
    for x in nodes:
        V().visit(x)
    return out


MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'update', 'setdefault', 'clear', 'sort', 'reverse', 'add', 'discard', 'fill')


def mutated_names(nodes):
    """names of objects that the statements change in place"""
    out = set()
    for x in nodes:
        for y in ast.walk(x):
            t = None
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUTATORS:
                t = y.func.value
            elif isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, (ast.Store, ast.Del)):
                t = y.value
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            if isinstance(t, ast.Name):
                out.add(t.id)
    return tuple(sorted(out))


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.names = []
        self.k = 0

    def visit_FunctionDef(self, n):
        self.names.append(n.name)
        self.fn.append({'decl': [], 'ok': True, 'globals': set()})
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.fn[-1]['ok'] = False
        n.body = self._stmts(n.body)
        info = self.fn.pop()
        self.names.pop()
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        if info['decl']:
            params = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
            names = [x for x in dict.fromkeys(info['decl']) if x not in params]
            if names:
                d = ast.parse('if False: ' + ' = '.join(names) + ' = None').body[0]
                pos = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)) else 0
                n.body.insert(pos, d)
        return n

    visit_AsyncFunctionDef = None

    def visit_ClassDef(self, n):
        self.fn.append(None)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        h = _Has()
        for s in n.body:
            h.visit(s)
        infn = bool(self.fn) and self.fn[-1] is not None and self.fn[-1]['ok']
        if h.bad and infn and not n.orelse and isinstance(n.target, (ast.Name, ast.Tuple)):
            h2 = _Has(breaks=True)
            for s in n.body:
                h2.visit(s)
            if not h2.bad:
                return self._loop(n, n.iter, n.target)
        if h.bad or n.orelse or not infn or not isinstance(n.target, (ast.Name, ast.Tuple)):
            n.body = self._stmts(n.body)
            n.orelse = self._stmts(n.orelse)
            n.iter = ast.Call(ast.Name('__dga_iter__', ast.Load()), [n.iter], [])
            return n
        k = self.k
        self.k += 1
        n.body = self._stmts(n.body)
        body = [_Continue().visit(s) for s in n.body]
        names = stored_names([ast.Assign([n.target], ast.Constant(None))] + n.body)
        names = [x for x in names if not x.startswith('__dga_b')]
        self.fn[-1]['decl'] += names
        item = f'__dga_item{k}'
        fdef = ast.FunctionDef(
            name=f'__dga_b{k}',
            args=ast.arguments(posonlyargs=[], args=[ast.arg(item)], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=([ast.Nonlocal(names)] if names else []) +
                 [ast.Assign([n.target], ast.Name(item, ast.Load()))] + body,
            decorator_list=[])
        fdef.type_params = []
        call = ast.Expr(ast.Call(ast.Name('__dga_for__', ast.Load()),
                                 [n.iter, ast.Name(f'__dga_b{k}', ast.Load()),
                                  ast.Constant(tuple(names))], []))
        for x in (fdef, call):
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return [fdef, call]

    def visit_While(self, n):
        h = _Has(breaks=True)
        for s in n.body:
            h.visit(s)
        infn = bool(self.fn) and self.fn[-1] is not None and self.fn[-1]['ok']
        named = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n.test))
        if h.bad or n.orelse or not infn or named:
            n.test = self.visit(n.test)
            n.body = self._stmts(n.body)
            n.orelse = self._stmts(n.orelse)
            return n
        test = ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), self.visit(n.test))
        return self._loop(n, test, None)

    def _loop(self, n, head, target):
        """loops with data-dependent exit: the body as a function that returns 'break' to leave the loop"""
        mutated = mutated_names(n.body)
        k = self.k
        self.k += 1
        n.body = self._stmts(n.body)
        body = [_Break().visit(s) for s in n.body]
        names = stored_names(([ast.Assign([target], ast.Constant(None))] if target is not None else []) + n.body)
        names = [x for x in names if not x.startswith('__dga_b')]
        self.fn[-1]['decl'] += names
        item = f'__dga_item{k}'
        first = [ast.Assign([target], ast.Name(item, ast.Load()))] if target is not None else []
        fdef = ast.FunctionDef(
            name=f'__dga_b{k}',
            args=ast.arguments(posonlyargs=[], args=[ast.arg(item)], kwonlyargs=[], kw_defaults=[], defaults=[ast.Constant(None)]),
            body=([ast.Nonlocal(names)] if names else []) + first + body, decorator_list=[])
        fdef.type_params = []
        call = ast.Expr(ast.Call(ast.Name('__dga_loop__', ast.Load()),
                                 [ast.Constant('while' if target is None else 'for'), head, ast.Name(f'__dga_b{k}', ast.Load()),
                                  ast.Constant(tuple(names)), ast.Name('__name__', ast.Load()), ast.Constant('.'.join(self.names)),
                                  ast.Constant(mutated)], []))
        for x in (fdef, call):
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return [fdef, call]

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs or n.generators[0].is_async:
            return n
        g = n.generators[0]
        for x in ast.walk(n.elt):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)):
                return n
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[],
                                           defaults=[]), n.elt)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            inner = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(e.id) for e in g.target.elts],
                                             kwonlyargs=[], kw_defaults=[], defaults=[]), n.elt)
            lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('__dga_x')], kwonlyargs=[], kw_defaults=[],
                                           defaults=[]),
                             ast.Call(inner, [ast.Starred(ast.Name('__dga_x', ast.Load()), ast.Load())], []))
        else:
            return n
        r = ast.Call(ast.Name('__dga_comp__', ast.Load()), [g.iter, lam], [])
        ast.copy_location(r, n)
        ast.fix_missing_locations(r)
        return r

    def visit_ExceptHandler(self, n):
        # the interpreter's own control flow (ends of paths, unsupported operations) passes through
        self.generic_visit(n)
        if n.type is None or isinstance(n.type, ast.Name) and n.type.id == 'BaseException':
            n.type = ast.copy_location(ast.Tuple([ast.copy_location(ast.Name(x, ast.Load()), n)
                                                  for x in ('Exception', 'SystemExit', 'KeyboardInterrupt')], ast.Load()), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        return n


# ------------------------------------------------------------------------------------------------- symbolic iteration
class SRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        s, e = zint(start), zint(stop)
        d = zsimp((e - s + (step - 1)) / step if step > 0 else (s - e + (-step - 1)) / (-step)) if abs(step) != 1 else \
            zsimp((e - s) * step)
        c = S.ctx()
        if c.implies(d >= 0):
            self.n = d
        elif c.implies(d <= 0):
            self.n = z3.IntVal(0)
        elif S.has_generic(d):
            self.n = z3.If(d >= 0, d, z3.IntVal(0))
        else:
            self.n = d if ex().decide(d >= 0) else z3.IntVal(0)

    def at(self, i):
        return mkint(zint(self.start) + self.step * i)

    def length(self):
        return self.n

    def __len__(self):
        return mkint(self.n).__index__()

    def __iter__(self):
        n = mkint(self.n).__index__()
        return iter([self.at(z3.IntVal(i)) for i in range(n)])


class SMapIter:
    """iteration object described by length and item function"""

    def __init__(self, n, at):
        self._n, self.at = n, at

    def length(self):
        return self._n

    def __iter__(self):
        n = mkint(self._n).__index__()
        return iter([self.at(z3.IntVal(i)) for i in range(n)])


def sym_iter(it):
    """-> iteration object with symbolic length, or None if the iterable is concrete"""
    if isinstance(it, SRange):
        n = z3.simplify(it.n)
        if z3.is_int_value(n):
            return None
        return it
    if isinstance(it, SMapIter):
        return it if not z3.is_int_value(zsimp(it._n)) else None
    if isinstance(it, SArr):
        if isinstance(it.shape[0], int):
            return None
        s = it.snapshot()
        return SMapIter(zint(it.shape[0]), lambda i: s[mkint(i)] if s.ndim > 1 else s.get([i]))
    if isinstance(it, SList):
        if isinstance(it.n, int):
            return None
        return SMapIter(zint(it.n), lambda i: it.fn(i))
    return None


def dga_range(*a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        (start, stop), step = a, 1
    else:
        start, stop, step = a
    vals = []
    for x in (start, stop):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.item()
        if isinstance(x, (float, SNum)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        vals.append(x)
    start, stop = vals
    if isinstance(step, SInt):
        step = step.__index__()
    if isinstance(start, SInt) or isinstance(stop, SInt):
        return SRange(start, stop, int(step))
    return builtins.range(start, stop, step)


def dga_map(f, *its):
    if any(sym_iter(i) is not None for i in its):
        z = dga_zip(*its)
        return SMapIter(z.length(), lambda i: f(*z.at(i)))
    return builtins.map(f, *its)


def dga_divmod(a, b):
    return a // b, a % b


def dga_enumerate(it, start=0):
    s = sym_iter(it)
    if s is None:
        return builtins.enumerate(it, start)
    return SMapIter(s.length(), lambda i: (mkint(i + zint(start)), s.at(i)))


def dga_zip(*its, **k):
    ss = [sym_iter(i) for i in its]
    if all(s is None for s in ss):
        return builtins.zip(*its, **k)
    n = None
    ats = []
    for i, s in zip(its, ss):
        if s is None:
            arr = i if isinstance(i, (list, tuple, SArr, _np.ndarray)) else list(i)
            raise Unsupported('zip of symbolic and concrete lengths')
        if n is None:
            n = s.length()
        elif not S.ctx().eq(n, s.length()):
            m = s.length()
            n = m if ex().decide(m < n) else n
        ats.append(s.at)
    return SMapIter(n, lambda i: tuple(a(i) for a in ats))


def dga_iter(it):
    s = sym_iter(it)
    if s is None:
        return it
    raise Unsupported('loop with early exit over a symbolic range')


def run_generic(thunk, gvars, rng):
    """execute thunk for a generic iteration; branches on the generic variables are explored and returned separately.
    -> list of (guard, result, log) ; writes to arrays that existed before are rolled back"""
    e = ex()
    sub = SubExplorer()
    mark = next(_store_ctr)
    out = []
    n0 = len(e.generic)
    while True:
        sub.start()
        n = e.push(*rng)
        e.generic.append(([v.get_id() for v in gvars], sub))
        log = []
        S.WRITE_LOG.append(log)
        try:
            r = thunk()
            e._ctx = None
            feasible = e.ctx().feasible()
        finally:
            S.WRITE_LOG.pop()
            del e.generic[n0:]
            e.pop(n)
        g = z3.And(*sub.pc) if sub.pc else z3.BoolVal(True)
        log = [(st, k) for st, k in log if st.birth < mark]
        for st, k in reversed(log):
            del st.writes[k:]
        if feasible:
            out.append((g, r, log))
        if not sub.next():
            break
    return out


def dga_comp(it, f):
    s = sym_iter(it)
    if s is None:
        return [f(x) for x in it]
    n = zsimp(s.length())
    v = fresh_int('i')
    rng = z3.And(0 <= v, v < n)
    if not ex().ctx().feasible(n > 0):
        return []

    def thunk():
        r = f(s.at(v))
        if isinstance(r, (SArr, _np.ndarray)):
            r = S.to_arr(r).snapshot()
        return r
    paths = run_generic(thunk, [v], [rng])
    if any(log for _, _, log in paths):
        raise Unsupported('comprehension with side effects')
    val = paths[-1][1]
    for g, r, _ in reversed(paths[:-1]):
        val = merge_vals(g, r, val)
    return SList(mkint(n), lambda i: inst(val, v, i, rng))


def merge_vals(g, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_vals(g, x, y) for x, y in zip(a, b))
    if isinstance(a, (SArr, _np.ndarray)) or isinstance(b, (SArr, _np.ndarray)):
        A, B = S.to_arr(a), S.to_arr(b)
        if len(A.shape) != len(B.shape):
            raise Unsupported('merge of arrays of different rank')
        sh = []
        for x, y in zip(A.shape, B.shape):
            sh.append(x if S._same_dim(x, y) else mkint(z3.If(g, zint(x), zint(y))))
        return SArr.make(sh, lambda idx: S.ite(g, A.get(idx), B.get(idx)), S.join_kind(A.kind, B.kind))
    if S.is_scalar(a) and S.is_scalar(b):
        return S.ite(g, a, b)
    if a is b or (isinstance(a, (str, type(None))) and a == b):
        return a
    raise Unsupported('merge of loop results')


def inst(val, v, i, rng):
    i = i if z3.is_expr(i) else zint(i)
    if isinstance(val, tuple):
        return tuple(inst(x, v, i, rng) for x in val)
    if isinstance(val, list):
        return [inst(x, v, i, rng) for x in val]
    if isinstance(val, SArr):
        sh = [mkint(z3.substitute(zint(s), (v, i))) for s in val.shape]
        s0 = val

        def fn(idx):
            fv = [fresh_int('q') for _ in idx]
            e = ex()
            n = e.push(rng, *[z3.And(0 <= w, w < zint(d)) for w, d in zip(fv, s0.shape)])
            try:
                x = s0.get(fv)
            finally:
                e.pop(n)
            return settle(S.subst_val(x, [(v, i)] + list(zip(fv, idx))))
        return SArr.make(sh, fn, val.kind)
    return settle(S.subst_val(val, [(v, i)]))


def settle(x):
    if isinstance(x, SNum):
        return SNum(T.map_z(x.t, S.undivide), x.isreal)
    return x


class Undef:
    pass


def cells_of(body):
    out = {}
    for name, c in zip(body.__code__.co_freevars, body.__closure__ or ()):
        out[name] = c
    return out


def cget(c):
    try:
        return c.cell_contents
    except ValueError:
        return Undef


def cset(c, v):
    if v is Undef:
        try:
            del c.cell_contents
        except ValueError:
            pass
    else:
        c.cell_contents = v


def dga_for(it, body, names):
    s = sym_iter(it)
    if s is None:
        for x in it:
            body(x)
        return
    n = zsimp(s.length())
    e = ex()
    if not e.ctx().feasible(n > 0):
        return
    cells = cells_of(body)
    names = [x for x in names if x in cells]
    before = {k: cget(c) for k, c in cells.items()}
    lists = {k: list(v) for k, v in before.items() if isinstance(v, list)}

    def restore():
        for k, c in cells.items():
            cset(c, before[k])
            if k in lists:
                before[k][:] = lists[k]
    v = fresh_int('i')
    rng = z3.And(0 <= v, v < n)
    item_at = s.at

    # ---- pass 1: find what is modified
    def thunk1():
        restore()
        body(item_at(v))
        return {k: cget(cells[k]) for k in cells}
    paths = run_generic(thunk1, [v], [rng])
    pre = PreStores(before)
    written = []
    carried = set()
    for g, loc, log in paths:
        for st, _ in log:
            if st not in written:
                written.append(st)
        for k in names:
            if loc[k] is not before[k]:
                carried.add(k)
        for k in lists:
            if k not in carried and (len(loc[k]) != len(lists[k]) if isinstance(loc[k], list) else True):
                carried.add(k)
    restore()
    grown = {}
    # a number that becomes an array in the first iteration (acc = 0; acc += array): treated as a constant array
    grew = {}
    for k in carried:
        if S.is_scalar(before[k]) and e.ctx().decide(n > 0) is True and all(isinstance(loc[k], SArr) and loc[k].shape for _, loc, _ in paths):
            sh = paths[-1][1][k].shape
            if any(z3.is_expr(d) and v.get_id() in S_free(d) for d in sh):
                continue
            val1 = paths[-1][1][k]
            for g, loc, _ in reversed(paths[:-1]):
                val1 = merge_vals(g, loc[k], val1)
            grew[k] = (before[k], val1)
            b = before[k]
            before[k] = SArr.make(sh, lambda idx, b=b: SNum(S.num_term(b), S.is_real(b)), 'c')
    # ---- pass 2: placeholders for carried numeric variables and for written pre-existing arrays
    tag = next(T._ctr)
    ph = {}
    for k in carried:
        b = before[k]
        if S.is_scalar(b):
            ph[k] = (f'ρ{tag}:{k}', b)
    written_pre = [st for st in written if pre.has(st)]
    hookmap = {id(st): f'μ{tag}:{i}' for i, st in enumerate(written_pre)}
    def thunk2():
        restore()
        for k, (nm, b) in ph.items():
            cells[k].cell_contents = SNum(T.Elem(nm, (), real=S.is_real(b)), S.is_real(b))
        for k in carried:
            if isinstance(before[k], SArr) and k not in ph and not S.is_scalar(before[k]):
                b = before[k]
                nm = f'ρ{tag}:{k}'
                ph_arr[k] = nm
                cells[k].cell_contents = SArr.make(b.shape, lambda idx, nm=nm, b=b: SNum(T.Elem(nm, idx), b.kind != 'c'), b.kind)
        lst0 = {k: len(before[k]) for k in lists}
        body(item_at(v))
        loc = {k: cget(cells[k]) for k in cells}
        app = {}
        for k in lists:
            if isinstance(loc[k], list) and loc[k] is before[k]:
                if len(loc[k]) > lst0[k]:
                    app[k] = loc[k][lst0[k]:]
        # evaluate the writes at generic locations while the hook is active
        wr = []
        return loc, app
    ph_arr = {}
    paths = run_generic2(thunk2, [v], [rng], written_pre, hookmap)
    restore()
    # ---- summarise lists
    for k in lists:
        if any(k in app for _, (loc, app), _ in paths):
            if not all(k in app and len(app[k]) == 1 for _, (loc, app), _ in paths):
                raise Unsupported('conditional append in a symbolic loop')
            val = paths[-1][1][1][k][0]
            for g, (loc, app), _ in reversed(paths[:-1]):
                val = merge_vals(g, app[k][0], val)
            check_no_ph(val, tag, v, rng)
            if lists[k]:
                raise Unsupported('append to a non-empty list in a symbolic loop')
            sl = SList(mkint(n), (lambda val: lambda i: inst(val, v, i, rng))(val))
            grown[k] = sl
    # ---- summarise scalars / rebound arrays
    newvals = {}
    for k in carried:
        if k in grown:
            continue
        val = paths[-1][1][0][k]
        for g, (loc, app), _ in reversed(paths[:-1]):
            val = merge_vals(g, loc[k], val)
        newvals[k] = summarise_var(k, val, before[k], ph, ph_arr, tag, v, n, rng)
        if k in grew:
            first_iteration_agrees(val, ph_arr[k], *grew[k], v, rng)
    # ---- summarise array writes
    for st in written_pre:
        summarise_store(st, paths, hookmap[id(st)], v, n, rng, tag)
    for k, x in newvals.items():
        cset(cells[k], x)
    for k, x in grown.items():
        cset(cells[k], x)


LOOPS = {}          # (module, function) -> (variables, arbitrary state, invariant), supplied by the contract that is being checked


def dga_loop(kind, head, body, names, module, func, mutated=()):
    """while / for-with-break: by the invariant the contract supplies, otherwise iteration by iteration"""
    spec = LOOPS.get((module.replace('dga.', '', 1), func.split('.')[-1]))
    if spec is None:
        if kind == 'while':
            while head():
                if body(None) == 'break':
                    return
        else:
            for x in dga_iter(head):
                if body(x) == 'break':
                    return
        return
    E, vars_, havoc, inv = spec
    cells = cells_of(body)
    from engine.env import Missing
    if any(v not in cells or v not in names and v not in mutated for v in vars_):
        raise Missing(f'loop variables of {func}')
    if any(v in cells and v not in vars_ and v not in names for v in mutated):
        raise Missing(f'objects changed in the loop of {func}')
    spec[0].loops_used.add(func)

    def state():
        return {v: cget(cells[v]) for v in vars_}

    def check(when):
        for label, c in inv(state()):
            E.invariant(f'{func}: {label} ({when})', c)
    check('on entry')
    for v in names:
        if v in cells and v not in vars_:
            cset(cells[v], Poison(v))
    for v, x in havoc(state()).items():
        cset(cells[v], x)
    for _, c in inv(state()):
        E.assume(c)
    if kind == 'while':
        if not head():
            return
        item = None
    else:
        s = sym_iter(head)
        if s is None:
            seq = list(head)
            if not seq:
                return
            s = SMapIter(z3.IntVal(len(seq)), None)
            at = None if len(seq) > 1 else (lambda i: seq[0])
        else:
            at = s.at
        i = z3.Int(f'iteration of {func}')
        n = zsimp(s.length())
        if not ex().decide(z3.And(i >= 0, i < n)):
            return              # the iterations are used up
        item = at(i) if at else Poison('loop item')
    if body(item) == 'break':
        return
    check('preserved')
    raise S.PathEnd()


def S_free(d):
    out, todo = set(), [d]
    while todo:
        x = todo.pop()
        out.add(x.get_id())
        todo += x.children()
    return out


def first_iteration_agrees(val, nm, b, val1, v, rng):
    """the iteration started from the number b gives what it gives when started from the constant array b"""
    e = ex()
    fv = [fresh_int('q') for _ in val1.shape]
    m = e.push(rng, *[z3.And(0 <= w, w < zint(d)) for w, d in zip(fv, val1.shape)])
    try:
        t = replace_elem(S.num_term(S.to_arr(val).get(fv)), nm, lambda idx, cj: S.num_term(b))
        d = T.add(t, T.neg(S.num_term(val1.get(fv))))
        if T.prove_zero(T.nf(d, e.ctx()), e.ctx())[0] != 'proved':
            raise Unsupported('a number becomes an array inside a loop')
    finally:
        e.pop(m)


def run_generic2(thunk, gvars, rng, stores, names):
    """as run_generic; the arrays in `stores` hold arbitrary contents (placeholders) at the start of the iteration, and the
    writes of the iteration are returned"""
    e = ex()
    sub = SubExplorer()
    out = []
    n0 = len(e.generic)
    base = [(st.fn, st.writes) for st in stores]
    while True:
        sub.start()
        n = e.push(*rng)
        e.generic.append(([v.get_id() for v in gvars], sub))
        log = []
        S.WRITE_LOG.append(log)
        mark = next(_store_ctr)
        for st in stores:
            st.fn = (lambda mu: lambda ix: SNum(T.Elem(mu, ix)))(names[id(st)])
            st.writes = []
        try:
            r = thunk()
            e._ctx = None
            feasible = e.ctx().feasible()
            ws = {id(st): st.writes for st in stores if st.writes}
        finally:
            for st, (fn, w) in zip(stores, base):
                st.fn, st.writes = fn, w
            S.WRITE_LOG.pop()
            del e.generic[n0:]
            e.pop(n)
        if any(st.birth < mark and id(st) not in names for st, _ in log):
            raise Unsupported('array written only in some iterations')
        g = z3.And(*sub.pc) if sub.pc else z3.BoolVal(True)
        if feasible:
            out.append((g, r, ws))
        if not sub.next():
            break
    return out


class PreStores:
    """stores that existed before the loop = every store except those created inside; identified by creation order"""

    def __init__(self, before):
        self.mark = next(_store_ctr)

    def has(self, st):
        return st.birth < self.mark


def term_names(t, acc):
    if isinstance(t, T.Elem):
        acc.add(t.name)
    elif isinstance(t, (T.Add, T.Mul)):
        for x in t.ts:
            term_names(x, acc)
    elif isinstance(t, T.Inv):
        term_names(t.t, acc)
    elif isinstance(t, T.Ite):
        term_names(t.a, acc)
        term_names(t.b, acc)
    elif isinstance(t, T.Sum):
        term_names(t.body, acc)
    elif isinstance(t, T.Fn):
        for x in t.args:
            term_names(x, acc)
    elif isinstance(t, T.Opq):
        term_names(t.body, acc)
    return acc


def check_no_ph(val, tag, v, rng):
    if isinstance(val, (tuple, list)):
        for x in val:
            check_no_ph(x, tag, v, rng)
        return
    if isinstance(val, SNum):
        if any(n.startswith(f'ρ{tag}:') or n.startswith(f'μ{tag}:') for n in term_names(val.t, set())):
            raise Unsupported('loop-carried dependency')
    if isinstance(val, SArr):
        fv = [fresh_int('q') for _ in val.shape]
        e = ex()
        n = e.push(rng, *[z3.And(0 <= w, w < zint(d)) for w, d in zip(fv, val.shape)])
        try:
            x = val.get(fv)
        finally:
            e.pop(n)
        check_no_ph(x, tag, v, rng)


def replace_elem(t, name, repl):
    """replace Elem(name, idx) by repl(idx, cj)"""
    go = lambda x: replace_elem(x, name, repl)
    if isinstance(t, T.Elem):
        return repl(t.idx, t.cj) if t.name == name else t
    if isinstance(t, T.Add):
        return T.Add([go(x) for x in t.ts])
    if isinstance(t, T.Mul):
        return T.Mul([go(x) for x in t.ts])
    if isinstance(t, T.Inv):
        return T.Inv(go(t.t))
    if isinstance(t, T.Ite):
        return T.Ite(t.c, go(t.a), go(t.b))
    if isinstance(t, T.Sum):
        return T.Sum(t.v, t.lo, t.hi, go(t.body))
    if isinstance(t, T.Fn):
        return T.Fn(t.name, [go(x) for x in t.args], t.real, t.cj)
    if isinstance(t, T.Opq):
        return T.Opq(t.name, t.shape, t.vs, go(t.body), t.idx, t.cj, t.real)
    return t


def summarise_var(k, val, b, ph, ph_arr, tag, v, n, rng):
    e = ex()
    if k in ph:
        nm, base = ph[k]
        if not S.is_scalar(val):
            check_no_ph(val, tag, v, rng)
            return inst(val, v, zsimp(n - 1), rng)
        t = S.num_term(val)
        names = term_names(t, set())
        other = [x for x in names if (x.startswith(f'ρ{tag}:') or x.startswith(f'μ{tag}:')) and x != nm]
        if other:
            raise Unsupported('coupled loop-carried variables')
        if nm not in names:
            # overwritten in every iteration: value of the last one (or unchanged if there was none)
            last = inst(val, v, zsimp(n - 1), rng)
            return S.ite(n > 0, last, base) if e.ctx().decide(n > 0) is not True else last
        rho = T.Elem(nm, (), real=S.is_real(base))
        d = T.add(t, T.neg(rho))
        f = replace_elem(d, nm, lambda idx, cj: T.ZERO)
        c2 = e.ctx().extend(rng)
        r = T.prove_eq(d, f, c2)
        if r[0] != 'proved':
            # product accumulation is not supported
            raise Unsupported('loop-carried variable is not of the form acc + f(i)')
        w = fresh_int('s')
        f = T.subst(f, [(v, w)])
        return SNum(T.add(S.num_term(base), T.Sum(w, z3.IntVal(0), n, f)), S.is_real(base) and S.is_real(val))
    if k in ph_arr and isinstance(b, SArr):
        nm = ph_arr[k]
        val = S.to_arr(val)
        if len(val.shape) != len(b.shape):
            raise Unsupported('loop changes the rank of an array')
        fv = [fresh_int('q') for _ in b.shape]
        m = e.push(rng, *[z3.And(0 <= w, w < zint(d)) for w, d in zip(fv, b.shape)])
        try:
            t = S.num_term(val.get(fv))
            names = term_names(t, set())
            if any((x.startswith(f'ρ{tag}:') or x.startswith(f'μ{tag}:')) and x != nm for x in names):
                raise Unsupported('coupled loop-carried variables')
            if nm not in names:
                last = inst(val, v, zsimp(n - 1), rng)
                if e.ctx().decide(n > 0) is True:
                    return last
                raise Unsupported('array rebound in a possibly empty loop')
            f = replace_elem(t, nm, lambda idx, cj: T.ZERO)
            d = T.add(t, T.neg(T.Elem(nm, fv, real=b.kind != 'c')), T.neg(f))
            if T.prove_zero(T.nf(d, e.ctx()), e.ctx())[0] != 'proved':
                raise Unsupported('loop-carried array is not of the form acc + f(i)')
        finally:
            e.pop(m)
        b0 = b.snapshot()

        def fn(idx):
            w = fresh_int('s')
            ff = T.subst(f, [(v, w)] + list(zip(fv, idx)))
            base = b0.get(idx)
            return SNum(T.add(S.num_term(base), T.Sum(w, z3.IntVal(0), n, ff)), b.kind != 'c')
        return SArr.make(b.shape, fn, S.join_kind(b.kind, val.kind))
    # newly defined or non-numeric
    try:
        check_no_ph(val, tag, v, rng)
    except Unsupported:
        return Poison(k)    # a temporary that depends on earlier iterations: only an error if it is used after the loop
    if S.is_sym(val) or isinstance(val, tuple):
        return inst(val, v, zsimp(n - 1), rng)
    if callable(val) or isinstance(val, (str, type(None), int, float, complex, _np.ndarray)):
        return val
    if val is Undef:
        return Undef
    return Poison(k)


class Poison:
    def __init__(self, k):
        self.__dict__['k'] = k

    def __getattr__(self, a):
        raise Unsupported(f'use of loop variable {self.k} after a symbolic loop')


def _poison(self, *a, **k):
    raise Unsupported(f'use of loop variable {self.k} after a symbolic loop')


for _d in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow matmul rmatmul neg pos abs invert and rand '
           'or ror xor eq ne lt le gt ge getitem setitem len iter bool index int float complex call contains hash iadd isub imul '
           'itruediv str repr').split():
    setattr(Poison, f'__{_d}__', _poison)


def summarise_store(st, paths, mu, v, n, rng, tag):
    """turn the writes of the generic iteration into one quantified write of the store"""
    e = ex()
    fv = [fresh_int('q') for _ in st.shape]
    boxes = [z3.And(0 <= w, w < zint(d)) for w, d in zip(fv, st.shape)]
    cells = []   # (region z3 bool over v,fv ; term)
    for g, _, ws in paths:
        lst = ws.get(id(st), [])
        if not lst:
            continue
        # value after the iteration at location fv, region = union of the writes
        m = e.push(rng, *boxes, g)
        try:
            conds = [z3.simplify(c(fv)) for c, _ in lst]
            reg = z3.simplify(z3.Or(*conds))
            if not e.ctx().feasible(reg):
                continue
            e.push(reg)
            tmp = S.Store(st.shape, lambda ix: SNum(T.Elem(mu, ix)))
            val = tmp.read_from(lst, fv)
        finally:
            e.pop(m)
        cells.append((z3.simplify(z3.And(g, reg)), val))
    if not cells:
        return
    # accumulate pattern?
    m = e.push(rng, *boxes)
    try:
        accum = True
        terms = []
        anymu = False
        for reg, val in cells:
            t = S.num_term(val)
            names = term_names(t, set())
            if any((x.startswith(f'ρ{tag}:') or (x.startswith(f'μ{tag}:') and x != mu)) for x in names):
                raise Unsupported('coupled loop-carried arrays')
            if mu in names:
                anymu = True
                f = replace_elem(t, mu, lambda idx, cj: T.ZERO)
                c2 = e.ctx().extend(reg)
                d = T.add(t, T.neg(T.Elem(mu, fv)), T.neg(f))
                dn = T.nf(d, c2)
                if T.prove_zero(dn, c2)[0] != 'proved':
                    accum = False
                terms.append((reg, f))
            else:
                accum = False
                terms.append((reg, t))
        disjoint = solve_disjoint(cells, v, fv, n, rng, boxes)
    finally:
        e.pop(m)
    base_writes = list(st.writes)
    basefn = S.Store(st.shape, st.fn)
    basefn.writes = base_writes

    def base_at(idx):
        return basefn.read_from(base_writes, idx)
    if accum and anymu:
        def cond(idx):
            return z3.BoolVal(True)

        def value(idx):
            t = S.num_term(base_at(idx))
            for reg, f in terms:
                w = fresh_int('s')
                pr = [(v, w)] + list(zip(fv, idx))
                t = T.add(t, T.Sum(w, z3.IntVal(0), n, T.ite(z3.simplify(z3.substitute(reg, *pr)), T.subst(f, pr), T.ZERO)))
            return SNum(t, False)
        st.writes.append((cond, value))
        st.touch()
        log_write(st)
        return
    if anymu and not disjoint:
        raise Unsupported('loop-carried array update')
    if disjoint:
        for (reg, val), sol in zip(cells, disjoint):
            # v = sol(fv)
            def cond(idx, reg=reg, sol=sol):
                pr = list(zip(fv, idx))
                s2 = z3.substitute(sol, *pr)
                return z3.simplify(z3.And(0 <= s2, s2 < n, z3.substitute(reg, (v, s2), *pr)))

            def value(idx, val=val, sol=sol):
                pr = list(zip(fv, idx))
                s2 = zsimp(z3.substitute(sol, *pr))
                x = S.subst_val(val, [(v, s2)] + pr)
                if anymu and isinstance(x, SNum):
                    x = SNum(replace_elem(x.t, mu, lambda ix, cj: _cj(S.num_term(base_at(list(ix))), cj)), x.isreal)
                return x
            if anymu:
                # reads of the array must refer to the location written by the same iteration only
                t = S.num_term(val)
                ok = []

                def chk(ix, cj):
                    ok.append(all(e.ctx().extend(rng, *boxes, reg).eq(a, b) for a, b in zip(ix, fv)))
                    return T.ZERO
                replace_elem(t, mu, chk)
                if not all(ok):
                    raise Unsupported('loop reads other elements of the array it writes')
            st.writes.append((cond, value))
            st.touch()
            log_write(st)
        return
    # last iteration wins if region independent of v
    for reg, val in cells:
        if T.occurs(reg, v):
            raise Unsupported('overlapping writes in a symbolic loop')
    for reg, val in cells:
        last = zsimp(n - 1)

        def cond(idx, reg=reg):
            return z3.simplify(z3.And(n > 0, z3.substitute(reg, *zip(fv, idx))))

        def value(idx, val=val):
            return S.subst_val(val, [(v, last)] + list(zip(fv, idx)))
        st.writes.append((cond, value))
        st.touch()
        log_write(st)


def _cj(t, cj):
    return T.conj(t) if cj else t


def log_write(st):
    for log in S.WRITE_LOG:
        log.append((st, len(st.writes) - 1))


def conj_parts(g):
    return T._split_and(g)


def equations(b):
    """integer equations occurring in a condition"""
    if z3.is_eq(b) and z3.is_int(b.arg(0)):
        yield b
    elif z3.is_and(b) or z3.is_or(b) or z3.is_not(b):
        for x in b.children():
            yield from equations(x)


def solve_disjoint(cells, v, fv, n, rng, boxes):
    """for each region solve v as a function of the location; regions of different iterations must be disjoint"""
    sols = []
    for reg, _ in cells:
        sol = None
        c = S.ctx().extend(rng, *boxes, reg)
        for p in equations(reg):
            if T.occurs(p, v):
                s = T.solve_for(v, p.arg(0) - p.arg(1))
                if s is not None and c.implies(v == s):
                    sol = s
                    break
        if sol is None:
            return None
        sols.append(sol)
    # different cells in different iterations must not overlap at the same location unless they are the same iteration
    for i in range(len(cells)):
        for j in range(len(cells)):
            if i == j:
                continue
            w = fresh_int('w')
            ri, rj = cells[i][0], z3.substitute(cells[j][0], (v, w))
            c = S.ctx().extend(rng, *boxes, 0 <= w, w < n)
            if c.feasible(z3.And(ri, rj, v != w)):
                return None
            if i < j and c.feasible(z3.And(ri, z3.substitute(rj, (w, v)))):
                return None
    return sols


# ------------------------------------------------------------------------------------------------- builtins
def dga_len(x):
    if isinstance(x, SArr):
        if not x.shape:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, SList):
        return x.n
    if isinstance(x, SRange):
        return mkint(x.n)
    return builtins.len(x)


def dga_min(*a, **k):
    if k:
        return builtins.min(*a, **k)
    x = a[0] if len(a) == 1 else a
    if npshim.has_sym(x if isinstance(x, (list, tuple)) else [x]):
        return npshim._minmax(list(x), None, True)
    return builtins.min(*a)


def dga_max(*a, **k):
    if k:
        return builtins.max(*a, **k)
    x = a[0] if len(a) == 1 else a
    if npshim.has_sym(x if isinstance(x, (list, tuple)) else [x]):
        return npshim._minmax(list(x), None, False)
    return builtins.max(*a)


def dga_abs(x):
    return builtins.abs(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or isinstance(x, SInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.item()
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return x._i()
        if isinstance(x, SNum):
            if isinstance(x.t, T.IntT):
                return mkint(x.t.z)
            r = trunc(x)
            if r is not None:
                return r
            raise Unsupported('int() of a symbolic number')
        return builtins.int(x, *a)


def trunc(x):
    """int(x) for x = integer/constant"""
    t = x.t
    if isinstance(t, T.Mul) and len(t.ts) == 2:
        a, b = t.ts
        if isinstance(a, T.Const) and isinstance(b, T.IntT):
            a, b = b, a
        if isinstance(a, T.IntT) and isinstance(b, T.Const) and b.im == 0:
            num, den = a.z * b.re.numerator, b.re.denominator
            if S.ctx().implies(num >= 0):
                return mkint(num / den)
            return mkint(z3.If(num >= 0, num / den, -((-num) / den)))
    return None


class dga_int(metaclass=_IntMeta):
    dga_builtin = builtins.int
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, SNum) and x.isreal)

    def __call__(cls, x=0.0):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.item()
        if isinstance(x, SNum):
            return x
        if isinstance(x, SInt):
            return SNum(T.IntT(x.z), True)
        return builtins.float(x)


class dga_float(metaclass=_FloatMeta):
    dga_builtin = builtins.float
    pass


class _CplxMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.complex) or isinstance(x, SNum)

    def __call__(cls, *a):
        if any(S.is_sym(x) for x in a):
            return SNum(T.add(S.num_term(a[0]), T.mul(T.I_, S.num_term(a[1])) if len(a) > 1 else T.ZERO))
        return builtins.complex(*a)


class dga_complex(metaclass=_CplxMeta):
    dga_builtin = builtins.complex
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SBool))

    def __call__(cls, x=False):
        return builtins.bool(x)


_TYPEMAP = {dga_int: builtins.int, dga_float: builtins.float, dga_complex: builtins.complex}


def dga_sum(it, start=0):
    s = sym_iter(it)
    if s is None:
        r = start
        for x in it:
            r = r + x
        return r
    a = S.to_arr(it) if not isinstance(it, (SRange, SMapIter)) else S.to_arr(SList(mkint(s.length()), s.at))
    return NP.sum(a, axis=0) + start


def dga_round(x, *a):
    if S.is_sym(x):
        raise Unsupported('round')
    return builtins.round(x, *a)


def dga_list(x=()):
    if isinstance(x, (SRange, SMapIter)):
        return SList(mkint(x.length()), x.at)
    if isinstance(x, SList):
        return x
    return builtins.list(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)

    def __call__(cls, x=()):
        return dga_list(x)


class dga_listT(metaclass=_ListMeta):
    pass


def dga_isinstance(x, t):
    if isinstance(t, tuple):
        return any(dga_isinstance(x, y) for y in t)
    return builtins.isinstance(x, t)


def fix_dtype(f):
    def g(*a, **k):
        a = [(_TYPEMAP.get(x, x) if isinstance(x, type) else x) for x in a]
        k = {q: (_TYPEMAP.get(x, x) if isinstance(x, type) else x) for q, x in k.items()}
        return f(*a, **k)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


class NPProxy(types.ModuleType):
    """numpy shim that maps the shadowed builtin types back before use as dtype"""

    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, k):
        x = getattr(NP, k)
        if callable(x) and not isinstance(x, type) and isinstance(x, types.FunctionType):
            return fix_dtype(x)
        return x


NPP = NPProxy()


def make_builtins():
    d = dict(vars(builtins))
    d.update({'len': dga_len, 'range': dga_range, 'enumerate': dga_enumerate, 'zip': dga_zip, 'map': dga_map, 'divmod': dga_divmod, 'min': dga_min,
              'max': dga_max, 'sum': dga_sum, 'int': dga_int, 'float': dga_float, 'complex': dga_complex,
              'isinstance': dga_isinstance, '__dga_for__': dga_for, '__dga_loop__': dga_loop, '__dga_comp__': dga_comp, '__dga_iter__': dga_iter,
              'list': dga_listT, 'print': lambda *a, **k: None})
    return d


# ------------------------------------------------------------------------------------------------- module loading
class Loader:
    def __init__(self, src=None, stubs=None):
        self.src = src or REPO_SRC
        self.mods = {}
        self.stubs = stubs or {}
        self.sources = {}
        self.builtins = make_builtins()
        self.builtins['__import__'] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in self.stubs:
            return self.stubs[name]
        if name == 'numpy' or name.startswith('numpy.'):
            return NPP
        if name == 'dga' or name.startswith('dga.'):
            if name == 'dga':
                pkg = types.ModuleType('dga')
                for f in (fromlist or ()):
                    setattr(pkg, f, self.load(f))
                return pkg
            m = self.load(name[4:])
            if fromlist:
                return m
            pkg = types.ModuleType('dga')
            setattr(pkg, name[4:].split('.')[0], m)
            return pkg
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if 'dga.' + name in self.stubs:
            return self.stubs['dga.' + name]
        path = os.path.join(self.src, 'dga', name + '.py')
        with open(path) as f:
            text = f.read()
        self.sources[name] = text
        tree = ast.parse(text, path)
        tree = Instr().visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType('dga.' + name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        return m
