"""contract registry"""
REG = {}


class Contract:
    def __init__(self, prop, fn, name, funcs, sym, bounded, reps, stubs, budget, heavy):
        self.prop, self.fn, self.name, self.funcs, self.sym = prop, fn, name, funcs, sym
        self.bounded, self.reps, self.stubs, self.budget, self.heavy = bounded, reps, stubs, budget, heavy


def contract(prop, funcs, sym=True, bounded='', reps=30, stubs=None, budget=60, heavy=False):
    """prop: property id; funcs: functions of /repo under contract; sym=False: bounded stand-in (reason in `bounded`)"""
    def deco(fn):
        c = Contract(prop, fn, fn.__name__, funcs if isinstance(funcs, (list, tuple)) else [funcs], sym, bounded, reps,
                     stubs, budget, heavy)
        assert c.name not in [x.name for x in REG.get(prop, [])], c.name
        REG.setdefault(prop, []).append(c)
        return fn
    return deco
