"""Units: one specification harness each, run both on symbolic and on concrete values (no z3 import here)."""
UNITS = {}


class Unit(object):
    def __init__(self, prop, name, fn, budget, unroll, bounded, must_reach, cases, sym, conc, targets, exhaustive):
        self.prop, self.name, self.fn = prop, prop + '.' + name, fn
        self.budget, self.unroll, self.bounded = budget, unroll, bounded
        self.must_reach, self.cases, self.sym, self.conc = must_reach, cases, sym, conc
        self.targets = targets
        self.exhaustive = exhaustive


def unit(prop, name, budget=60.0, unroll=3, bounded=None, reach=(), cases=400, sym=True, conc=True, targets=(),
         exhaustive=False):
    def deco(fn):
        u = Unit(prop, name, fn, budget, unroll, bounded, list(reach), cases, sym, conc, list(targets), exhaustive)
        if u.name in UNITS:
            raise ValueError('duplicate unit ' + u.name)
        UNITS[u.name] = u
        return fn
    return deco


class Outcome(object):
    """result of calling the code: value, or the exception it raised"""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def raised(self):
        return self.exc is not None

    def raised_a(self, *types):
        return self.exc is not None and isinstance(self.exc, types)
