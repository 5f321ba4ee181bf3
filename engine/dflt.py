"""Concrete evaluations: arguments a contract gives explicitly are left out in every second evaluation when they equal the
default recorded for that parameter (engine/defaults.json), so that the contracts also hold for calls relying on defaults."""
import ast
import functools
import inspect
import json
import os
import sys
import types

REC = {k: {p: ast.literal_eval(v) for p, v in d.items()}
       for k, d in json.load(open(os.path.join(os.path.dirname(__file__), 'defaults.json'))).items()}
DROP = [False]
CONTRACTS = os.sep + 'contracts' + os.sep


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def wrap(f, rec):
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return f
    if any(p.kind in (p.VAR_POSITIONAL, p.POSITIONAL_ONLY) for p in sig.parameters.values()):
        return f
    rec = {p: v for p, v in rec.items() if p in sig.parameters and sig.parameters[p].default is not inspect.Parameter.empty}
    if not rec:
        return f

    @functools.wraps(f)
    def g(*a, **k):
        if DROP[0] and CONTRACTS in sys._getframe(1).f_code.co_filename:
            try:
                b = sig.bind(*a, **k).arguments
            except TypeError:
                return f(*a, **k)
            gone = [p for p, v in b.items() if p in rec and equal(v, rec[p])]
            if gone:
                extra = [p.name for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
                pos, kw, cut = [], {}, False
                for n, p in enumerate(b):
                    if p in gone:
                        cut = True
                    elif p in extra:
                        kw.update(b[p])
                    elif cut or n >= len(a):
                        kw[p] = b[p]
                    else:
                        pos.append(b[p])
                return f(*pos, **kw)
        return f(*a, **k)
    return g


def multi(f, rec):
    def g(*a, **k):
        if DROP[0]:
            k = {p: v for p, v in k.items() if not (p in rec and equal(v, rec[p]))}
        return f(*a, **k)
    return g


_done = {}


def attribute(m, name, val):
    """what a contract gets for module.name"""
    mod = m.__name__.split('.')[-1]
    if getattr(val, '__module__', None) != m.__name__:
        return val
    key = (mod, name, id(val))
    if key in _done:
        return _done[key][1]
    r = val
    if isinstance(val, types.FunctionType) and f'{mod}.{name}' in REC:
        r = wrap(val, REC[f'{mod}.{name}'])
    elif isinstance(val, type):
        for q, x in list(vars(val).items()):
            if f'{mod}.{name}.{q}' in REC and isinstance(x, types.FunctionType) and not hasattr(x, '__wrapped__'):
                setattr(val, q, wrap(x, REC[f'{mod}.{name}.{q}']))
    elif type(val).__module__.startswith('multimethod'):
        regs = [k for k in REC if k.startswith(f'{mod}.{name}_') or k == f'{mod}.{name}']
        ps = {}
        for k in regs:
            for p, v in REC[k].items():
                ps.setdefault(p, []).append(v)
        r = multi(val, {p: v[0] for p, v in ps.items() if all(equal(x, v[0]) for x in v)})
    _done[key] = (val, r)
    return r
