"""Symbolic values and path exploration.

Everything here is quantifier-free: linear integer arithmetic, booleans and uninterpreted functions.
Numbers are z3 integers with a static power-of-two denominator; byte strings and non-negative integers of
any width are *bit closures* (functions from a bit position to a z3 boolean).
"""
import time

import z3

INT, BOOL = z3.IntSort(), z3.BoolSort()


class Unsupported(BaseException):
    """The code left the subset the engine models (never a verdict about the code)."""


class PathEnd(BaseException):
    """This path is finished (infeasible, cut at a loop back edge, ...)."""


class EngineTimeout(BaseException):
    pass


# --------------------------------------------------------------------------------------------------------------
# paths

class Path(object):
    """One execution of a unit: decisions, path condition, fresh names."""

    def __init__(self, run):
        self.run = run
        self.solver = z3.Solver()
        self.solver.set('rlimit', run.feas_rlimit)
        self.solver.set('random_seed', 7)
        self.names = {}
        self.strips = {}
        self.families = {}         # integer term -> its bits
        self.known = {}            # conditions decided on this path
        self.decisions = 0
        self.dead = False

    # -- naming
    def fresh(self, base, sort=INT):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return z3.Const('%s!%d' % (base, n) if n else base, sort)

    def freshname(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    # -- constraints
    def add(self, c):
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            return
        if c is False:
            c = z3.BoolVal(False)
        self.solver.add(c)

    def assume(self, c):
        c = zb(c)
        if z3.is_true(c):
            return
        self.solver.add(c)
        if self.check_sat() == z3.unsat:
            self.end()

    def check_sat(self, *extra):
        self.run.tick()
        self.run.solver_calls += 1
        t0 = time.time()
        try:
            return self._check(extra)
        finally:
            t = time.time() - t0
            self.run.d['feas_time'] += t
            if t > self.run.d['slowest']:
                self.run.d['slowest'] = t

    def _check(self, extra):
        if extra:
            self.solver.push()
            try:
                self.solver.add(*extra)
                return self.solver.check()
            finally:
                self.solver.pop()
        return self.solver.check()

    def end(self):
        self.dead = True
        raise PathEnd()

    def prove(self, c):
        """True when the path condition entails c (used to choose representations, never a verdict)."""
        c = zb(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        hit = self.known.get(k)
        if hit is not None:
            return hit[1]
        r = self.check_sat(z3.Not(c)) == z3.unsat
        if r:
            self.known[k] = (c, True)
        return r

    # -- decisions: every alternative is explored by a forked process
    def take(self, n):
        """explore n alternatives; returns the one this process continues with"""
        if self.dead:
            raise PathEnd()
        self.decisions += 1
        if self.decisions > self.run.max_forks:
            raise Unsupported('too many decisions on one path')
        for i in range(n - 1, 0, -1):
            if self.run.fork():
                return i
        return 0

    def decide(self, options, label=''):
        """options: z3 conditions, exhaustive under the path condition. Returns the index chosen."""
        if self.dead:
            raise PathEnd()
        self.run.tick()
        feas = []
        for i, o in enumerate(options):
            if len(options) == 2 and i == 1 and not feas:
                feas.append(i)          # the first is impossible and the options are exhaustive
                break
            if self.check_sat(o) != z3.unsat:
                feas.append(i)
        if not feas:
            self.end()
        ch = feas[self.take(len(feas))] if len(feas) > 1 else feas[0]
        if len(feas) > 1:
            self.add(options[ch])
        return ch

    def branch(self, c):
        c = zb(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        hit = self.known.get(k)
        if hit is not None:
            return hit[1]
        r = self.decide([c, z3.Not(c)]) == 0
        self.known[k] = (c, r)
        return r

    def flip(self, label=''):
        """Unconstrained two-way choice (both sides explored)."""
        return self.take(2)

    def pick(self, n, label=''):
        return self.take(n)

    def concretize(self, term, limit=70):
        """Fork over the feasible integer values of term."""
        t = z3.simplify(term) if not isinstance(term, int) else term
        if isinstance(t, int):
            return t
        if z3.is_int_value(t):
            return t.as_long()
        if self.dead:
            raise PathEnd()
        vals = []
        self.solver.push()
        try:
            while True:
                self.run.tick()
                r = self.solver.check()
                if r == z3.unsat:
                    break
                if r != z3.sat or len(vals) >= limit:
                    raise Unsupported('cannot enumerate the values of %s' % (str(t)[:80],))
                v = self.solver.model().eval(t, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(t != v)
        finally:
            self.solver.pop()
        if not vals:
            self.end()
        vals.sort()
        v = vals[self.take(len(vals))] if len(vals) > 1 else vals[0]
        self.add(t == v)
        return v

    def concretize_small(self, term, bound):
        """Bounded stand-in: fork over 0..bound, cut the rest (marks the path's run as bounded)."""
        t = z3.simplify(term) if not isinstance(term, int) else term
        if isinstance(t, int):
            return t
        if z3.is_int_value(t):
            return t.as_long()
        if not self.prove(z3.And(t >= 0, t <= bound)):
            self.run.mark_bounded('length unrolled to at most %d' % bound)
            self.assume(t <= bound)
        return self.concretize(t)


_current = [None]


def P():
    p = _current[0]
    if p is None:
        raise RuntimeError('no active path')
    return p


def active():
    return _current[0] is not None


# --------------------------------------------------------------------------------------------------------------
# helpers over z3 terms or python values

def zb(c):
    if isinstance(c, SBool):
        return c.c
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_true(c) or z3.is_false(c):
        return c
    return c


def isz(x):
    return isinstance(x, z3.ExprRef)


def And(*a):
    out = []
    for x in a:
        if isinstance(x, SBool):
            x = x.c
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if isinstance(x, SBool):
            x = x.c
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(a):
    if isinstance(a, SBool):
        a = a.c
    return (not a) if isinstance(a, bool) else z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if isinstance(c, SBool):
        c = c.c
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else z3.Not(c)
    if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
        if a is True:
            return z3.Or(c, b)
        if a is False:
            return z3.And(z3.Not(c), b)
        if b is True:
            return z3.Or(z3.Not(c), a)
        if b is False:
            return z3.And(c, a)
    return z3.If(c, a, b)


def Iff(a, b):
    if isinstance(a, SBool):
        a = a.c
    if isinstance(b, SBool):
        b = b.c
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


_lits = {}


def lit(t):
    """z3 int -> python int when it is a literal."""
    if isinstance(t, int):
        return t
    k = t.get_id()
    hit = _lits.get(k)
    if hit is not None:
        return hit[1]
    if z3.is_int_value(t):
        r = t.as_long()
    else:
        s = z3.simplify(t)
        r = s.as_long() if z3.is_int_value(s) else s
    _lits[k] = (t, r)
    if isz(r):
        _lits[r.get_id()] = (r, r)
    return r


def zdiv(a, k):
    if isinstance(a, int):
        return a // k
    return lit(a / k)          # z3 integer division: floor for positive k


def zmod(a, k):
    if isinstance(a, int):
        return a % k
    return lit(a % k)


def zmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return lit(z3.If(a <= b, a, b))


def zmax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return lit(z3.If(a >= b, a, b))


# --------------------------------------------------------------------------------------------------------------
# booleans

class SBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return P().branch(self.c)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(Iff(self.c, o.c if isinstance(o, SBool) else o))
        return mknum(self.num()) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(Not(r))

    def __hash__(self):
        raise Unsupported('hash of a symbolic bool')

    def __repr__(self):
        return '<symbool>'

    def num(self):
        return z3.If(self.c, z3.IntVal(1), z3.IntVal(0))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __and__(self, o):
        return mkbool(And(self, o)) if isinstance(o, (bool, SBool)) else mknum(self.num()) & o

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(Or(self, o)) if isinstance(o, (bool, SBool)) else mknum(self.num()) | o

    __ror__ = __or__

    def _n(self):
        return mknum(self.num())

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __lshift__(self, o):
        return as_big(self) << o

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o


_bools = {}


def mkbool(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, SBool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    k = c.get_id()
    hit = _bools.get(k)
    if hit is None:
        s = z3.simplify(c)
        hit = _bools[k] = (c, True if z3.is_true(s) else False if z3.is_false(s) else SBool(c))
    return hit[1]


# --------------------------------------------------------------------------------------------------------------
# numbers: n / 2**d

class SNum(object):
    __slots__ = ('n', 'd', 'fl')

    def __init__(self, n, d=0, fl=False):
        self.n, self.d, self.fl = n, d, fl

    def __repr__(self):
        return '<sym%s>' % ('float' if self.fl else 'int')

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __index__(self):
        if self.fl:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return P().concretize(self.n)

    def __int__(self):
        return P().concretize(trunc(self).n if isinstance(trunc(self), SNum) else trunc(self))

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __bool__(self):
        return P().branch(self.n != 0)

    # arithmetic
    def __add__(self, o):
        return arith(self, o, 'add')

    def __radd__(self, o):
        return arith(o, self, 'add')

    def __sub__(self, o):
        return arith(self, o, 'sub')

    def __rsub__(self, o):
        return arith(o, self, 'sub')

    def __mul__(self, o):
        return arith(self, o, 'mul')

    def __rmul__(self, o):
        return arith(o, self, 'mul')

    def __truediv__(self, o):
        return arith(self, o, 'truediv')

    def __rtruediv__(self, o):
        return arith(o, self, 'truediv')

    def __floordiv__(self, o):
        return arith(self, o, 'floordiv')

    def __rfloordiv__(self, o):
        return arith(o, self, 'floordiv')

    def __mod__(self, o):
        return arith(self, o, 'mod')

    def __rmod__(self, o):
        return arith(o, self, 'mod')

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mknum(-self.n, self.d, self.fl)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if P().branch(self.n < 0) else self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('power')

    def __rpow__(self, o):
        if o == 2 and not self.fl and self.d == 0:
            return 1 << self
        raise Unsupported('power')

    # comparisons
    def __lt__(self, o):
        return compare(self, o, 'lt')

    def __le__(self, o):
        return compare(self, o, 'le')

    def __gt__(self, o):
        return compare(self, o, 'gt')

    def __ge__(self, o):
        return compare(self, o, 'ge')

    def __eq__(self, o):
        return compare(self, o, 'eq') if is_numlike(o) else NotImplemented

    def __ne__(self, o):
        return compare(self, o, 'ne') if is_numlike(o) else NotImplemented

    # bit operations (integers)
    def _int_only(self):
        if self.fl or self.d:
            raise TypeError("unsupported operand type(s) for bit operation: 'float'")

    def __lshift__(self, k):
        self._int_only()
        if isinstance(k, int):
            if k < 0:
                raise ValueError('negative shift count')
            return self * (1 << k)
        return as_big(self) << k

    def __rlshift__(self, o):
        self._int_only()
        if isinstance(o, int):
            if P().branch(self.n < 0):
                raise ValueError('negative shift count')
            if o == 1:
                return SBig(lambda i, s=self.n: i == s if isz(i) or isz(s) else i == s, self.n + 1, lo=self.n, pow2=self.n)
            if o == 0:
                return 0
            return const_big(o) << self
        return NotImplemented

    def __rshift__(self, k):
        self._int_only()
        if isinstance(k, int):
            if k < 0:
                raise ValueError('negative shift count')
            return mknum(zdiv(self.n, 1 << k))
        return as_big(self) >> k

    def __rrshift__(self, o):
        self._int_only()
        if isinstance(o, int) and o >= 0:
            return const_big(o) >> self
        raise Unsupported('shift of a negative constant')

    def __and__(self, o):
        self._int_only()
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mknum(zmod(self.n, o + 1))
        if isinstance(o, int) and o >= 0:
            # two's complement: only the low bits matter
            w = o.bit_length()
            low = num_bits(zmod(self.n, 1 << w), w)
            return low & o
        return as_big(self) & o

    __rand__ = __and__

    def __or__(self, o):
        self._int_only()
        if isinstance(o, int) and o == 0:
            return self
        return as_big(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        self._int_only()
        return as_big(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        self._int_only()
        return mknum(-self.n - 1)

    def bit_length(self):
        self._int_only()
        p = P()
        # some width w with 2**(w-1) <= |n| < 2**w; only bounded widths are enumerated
        m = lit(z3.If(self.n < 0, -self.n, self.n))
        for w in range(0, 65):
            if p.branch(m < (1 << w)):
                return w
        raise Unsupported('bit_length of an unbounded symbolic number')

    def is_integer(self):
        return mkbool(zmod(self.n, 1 << self.d) == 0) if self.d else True

    def to_bytes(self, length, byteorder='big', signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


def mknum(n, d=0, fl=False):
    """Normalised number: python int/float when literal."""
    n = lit(n)
    if isinstance(n, int):
        if d == 0 and not fl:
            return n
        if d == 0:
            return float(n)
        return n / float(1 << d) if fl else (n / float(1 << d))
    return SNum(n, d, fl or d > 0)


def split(x):
    """number -> (numerator, log2 denominator, is_float)"""
    if isinstance(x, SNum):
        return x.n, x.d, x.fl
    if isinstance(x, bool):
        return int(x), 0, False
    if isinstance(x, int):
        return x, 0, False
    if isinstance(x, float):
        a, b = x.as_integer_ratio()
        return a, b.bit_length() - 1, True
    if isinstance(x, SBig):
        return x.z(), 0, False
    if isinstance(x, SBool):
        return x.num(), 0, False
    return None


def is_numlike(x):
    return isinstance(x, (int, float, SNum, SBig, SBool)) and not isinstance(x, SInv)


def arith(a, b, op):
    # big-integer friendly cases first
    if isinstance(a, SBig) or isinstance(b, SBig):
        r = big_arith(a, b, op)
        if r is not None:
            return r
    sa, sb = split(a), split(b)
    if sa is None or sb is None:
        return NotImplemented
    (n1, d1, f1), (n2, d2, f2) = sa, sb
    fl = f1 or f2
    if op in ('add', 'sub'):
        d = max(d1, d2)
        x = n1 if d1 == d else n1 * (1 << (d - d1))
        y = n2 if d2 == d else n2 * (1 << (d - d2))
        return mknum(x + y if op == 'add' else x - y, d, fl)
    if op == 'mul':
        if not isz(n1):
            n1, d1, n2, d2 = n2, d2, n1, d1
        # n2 literal power of two cancels the denominator
        if not isz(n2):
            while d1 > 0 and n2 % 2 == 0 and n2 != 0:
                n2 //= 2
                d1 -= 1
            return mknum(n1 * n2, d1 + d2, fl)
        return mknum(n1 * n2, d1 + d2, fl)
    if op == 'truediv':
        if isz(n2):
            raise Unsupported('division by a symbolic number')
        if n2 == 0:
            raise ZeroDivisionError('division by zero')
        if n2 < 0 or (n2 & (n2 - 1)):
            raise Unsupported('division by a number that is not a power of two')
        # (n1/2^d1) / (n2/2^d2) = n1*2^d2 / 2^(d1+k)
        k = n2.bit_length() - 1
        d = d1 + k - d2
        if d < 0:
            n1 = n1 * (1 << -d)
            d = 0
        return mknum(n1, d, True)
    if op in ('floordiv', 'mod'):
        d = max(d1, d2)
        x = n1 if d1 == d else n1 * (1 << (d - d1))
        y = n2 if d2 == d else n2 * (1 << (d - d2))
        if isz(y):
            p = P()
            if p.branch(y == 0):
                raise ZeroDivisionError('division by zero')
            if p.branch(y < 0):
                raise Unsupported('division by a negative symbolic number')
            return mknum(x / y, 0, fl) if op == 'floordiv' else mknum(x % y, d, fl)
        if y == 0:
            raise ZeroDivisionError('division by zero')
        if y < 0:
            if op == 'floordiv':
                return mknum(zdiv(-x if isz(x) else -x, -y), 0, fl)
            raise Unsupported('mod by a negative number')
        if not isz(x):
            x = z3.IntVal(x)
        if op == 'floordiv':
            return mknum(zdiv(x, y), 0, fl)
        return mknum(zmod(x, y), d, fl)
    raise Unsupported(op)


def compare(a, b, op):
    if isinstance(a, SBig) or isinstance(b, SBig):
        r = big_compare(a, b, op)
        if r is not None:
            return r
    sa, sb = split(a), split(b)
    if sa is None or sb is None:
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    (n1, d1, _), (n2, d2, _) = sa, sb
    d = max(d1, d2)
    x = n1 if d1 == d else n1 * (1 << (d - d1))
    y = n2 if d2 == d else n2 * (1 << (d - d2))
    c = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
         'eq': lambda: x == y, 'ne': lambda: x != y}[op]()
    return mkbool(c)


def trunc(x):
    """int(x)"""
    if not isinstance(x, SNum):
        if isinstance(x, SBool):
            return mknum(x.num())
        return x if isinstance(x, SBig) else int(x)
    if x.d == 0:
        return mknum(x.n)
    if P().prove(x.n >= 0):
        return mknum(zdiv(x.n, 1 << x.d))
    return mknum(z3.If(x.n >= 0, x.n / (1 << x.d), -((-x.n) / (1 << x.d))))


def floor(x):
    if not isinstance(x, SNum):
        return x
    return mknum(zdiv(x.n, 1 << x.d)) if x.d else mknum(x.n)


def ceil(x):
    if not isinstance(x, SNum):
        return x
    return mknum(-zdiv(-x.n, 1 << x.d)) if x.d else mknum(x.n)


# --------------------------------------------------------------------------------------------------------------
# non-negative integers of any width, as bit closures

def memo(f):
    """bit closures are pure: evaluate each position once"""
    if getattr(f, 'memoised', False):
        return f
    cache = {}

    def g(i):
        k = i if isinstance(i, int) else -2 - i.get_id()
        hit = cache.get(k)
        if hit is None:
            hit = cache[k] = (i, f(i))
        return hit[1]
    g.memoised = True
    return g


class SBig(object):
    """A non-negative integer: f(i) is bit i (i >= 0), and f(i) is false for i >= w."""
    __slots__ = ('f', 'w', 'lo', 'pow2', 'mask', 'exact', '_z')

    def __init__(self, f, w, lo=0, pow2=None, mask=None, exact=False):
        self.f, self.w, self.lo, self.pow2, self.mask, self.exact = memo(f), w, lo, pow2, mask, exact
        self._z = None

    def bit(self, i):
        return self.f(i)

    def __repr__(self):
        return '<symint>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def width(self):
        w = lit(self.w)
        if not isinstance(w, int):
            raise Unsupported('integer of unknown width used as a number')
        return w

    def z(self):
        if self._z is None:
            w = self.width()
            if w > 80:
                raise Unsupported('wide integer used as a number')
            terms = []
            const = 0
            bits = [self.f(i) for i in range(w)]
            n = whole_of(bits)
            if n is not None:
                self._z = n
                return n
            for i in range(w):
                b = bits[i]
                if b is True or (isz(b) and z3.is_true(b)):
                    const += 1 << i
                elif b is False or (isz(b) and z3.is_false(b)):
                    pass
                else:
                    terms.append(z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)))
            if not terms:
                self._z = z3.IntVal(const)
            else:
                self._z = P().fresh('whole')
                P().add(self._z == z3.Sum(*([z3.IntVal(const)] + terms)))
                remember_bits(self._z, lambda i: self.f(i) if i < w else False, w + 1)
        return self._z

    def num(self):
        return mknum(self.z())

    def __index__(self):
        return P().concretize(self.z(), 260)

    __int__ = __index__

    def __bool__(self):
        if self.exact:
            return P().branch(self.w > 0)
        return P().branch(Or(*[self.f(i) for i in range(self.width())]))

    def bit_length(self):
        if self.exact:
            return mknum(self.w)
        w = self.width()
        r = z3.IntVal(0)
        for i in range(w):
            r = If(self.f(i), z3.IntVal(i + 1), r)
        return mknum(r)

    def to_bytes(self, length, byteorder='big', signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    # arithmetic
    def __add__(self, o):
        return arith(self, o, 'add')

    def __radd__(self, o):
        return arith(o, self, 'add')

    def __sub__(self, o):
        return arith(self, o, 'sub')

    def __rsub__(self, o):
        return arith(o, self, 'sub')

    def __mul__(self, o):
        return arith(self, o, 'mul')

    def __rmul__(self, o):
        return arith(o, self, 'mul')

    def __truediv__(self, o):
        return arith(self, o, 'truediv')

    def __floordiv__(self, o):
        return arith(self, o, 'floordiv')

    def __rfloordiv__(self, o):
        return arith(o, self, 'floordiv')

    def __mod__(self, o):
        return arith(self, o, 'mod')

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mknum(-self.z())

    def __pos__(self):
        return self

    def __abs__(self):
        return self

    def __lt__(self, o):
        return compare(self, o, 'lt')

    def __le__(self, o):
        return compare(self, o, 'le')

    def __gt__(self, o):
        return compare(self, o, 'gt')

    def __ge__(self, o):
        return compare(self, o, 'ge')

    def __eq__(self, o):
        return compare(self, o, 'eq') if is_numlike(o) else NotImplemented

    def __ne__(self, o):
        return compare(self, o, 'ne') if is_numlike(o) else NotImplemented

    # bits
    def __lshift__(self, k):
        k = nonneg_amount(k)
        if isinstance(k, int) and k == 0:
            return self
        f = self.f
        return SBig(lambda i: And(i >= k, guarded(f, i, k)), self.w + k, lo=self.lo + k,
                    pow2=None if self.pow2 is None else self.pow2 + k)

    def __rlshift__(self, o):
        return mknum(self.z()).__rlshift__(o)

    def __rshift__(self, k):
        k = nonneg_amount(k)
        if isinstance(k, int) and k == 0:
            return self
        f = self.f
        w = zmax(self.w - k, 0)
        return SBig(lambda i: f(i + k), w, exact=self.exact)

    def __rrshift__(self, o):
        return mknum(self.z()).__rrshift__(o)

    def __and__(self, o):
        f = self.f
        if isinstance(o, SInv):
            g = o.b.f
            return SBig(lambda i: And(f(i), Not(g(i))), self.w)
        if isinstance(o, int):
            if o < 0:
                m = ~o
                cb = const_big(m)
                return SBig(lambda i: And(f(i), Not(cb.f(i))), self.w)
            cb = const_big(o)
            return SBig(lambda i: And(f(i), cb.f(i)), minw(self.w, cb.w) if isinstance(self.w, int) else cb.w)
        if isinstance(o, (SBig, SNum, SBool)):
            g = as_big(o)
            gf = g.f
            return SBig(lambda i: And(f(i), gf(i)), minw(self.w, g.w) if isinstance(self.w, int) == isinstance(g.w, int)
                        else self.w if isinstance(self.w, int) else g.w)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        if isinstance(o, int) and o < 0:
            raise Unsupported('or with a negative constant')
        if isinstance(o, (int, SBig, SNum, SBool)):
            f, g = self.f, as_big(o)
            gf = g.f
            return SBig(lambda i: Or(f(i), gf(i)), maxw(self.w, g.w), lo=minw(self.lo, g.lo))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (int, SBig, SNum, SBool)):
            f, g = self.f, as_big(o)
            gf = g.f
            return SBig(lambda i: Not(Iff(f(i), gf(i))), maxw(self.w, g.w))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return SInv(self)

    @property
    def real(self):
        return self


class SInv(object):
    """~x for a non-negative x: only useful as a mask."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __and__(self, o):
        if isinstance(o, SBig):
            return o & self
        if isinstance(o, (int, SNum, SBool)):
            return as_big(o) & self
        return NotImplemented

    __rand__ = __and__

    def __invert__(self):
        return self.b

    def __hash__(self):
        raise Unsupported('hash')


def guarded(f, i, k):
    """f(i - k) where only i >= k matters"""
    if isinstance(i, int) and isinstance(k, int):
        return f(i - k) if i >= k else False
    return f(lit(i - k))


def minw(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return zmin(a, b)


def maxw(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return zmax(a, b)


def nonneg_amount(k):
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int):
        if k < 0:
            raise ValueError('negative shift count')
        return k
    if isinstance(k, SBig):
        k = k.num()
        if isinstance(k, int):
            return k
    if isinstance(k, SNum):
        if k.fl or k.d:
            raise TypeError('unsupported operand type(s) for shift')
        if P().branch(k.n < 0):
            raise ValueError('negative shift count')
        return k.n
    raise TypeError('bad shift amount')


def const_big(c):
    assert c >= 0
    w = c.bit_length()
    if c and (c & (c + 1)) == 0:
        return SBig(lambda i: (i < w), w, mask=w)
    bits = [i for i in range(w) if (c >> i) & 1]
    lo = bits[0] if bits else 0
    # contiguous run?
    if bits and bits == list(range(bits[0], bits[-1] + 1)):
        a, b = bits[0], bits[-1]
        return SBig(lambda i: And(i >= a, i <= b), w, lo=lo, pow2=a if a == b else None)

    def f(i):
        if isinstance(i, int):
            return bool((c >> i) & 1)
        return Or(*[i == b for b in bits]) if bits else False
    return SBig(f, w, lo=lo)


def family(n, w):
    """booleans b_0..b_(w-1): the two's complement bits of the integer term n when it has w bits (fresh
    constants with one linear definition, shared by everything that looks at the bits of n)"""
    p = P()
    k = n.get_id()
    hit = p.families.get(k)
    if hit is not None:
        return hit[1]
    if w <= 8:
        bits = [lit(zmod(zdiv(n, 1 << i), 2)) == 1 for i in range(w)]
        p.families[k] = (n, bits)
        return bits
    for m, old in list(p.families.values()):
        if len(old) > 8 and p.prove(m == n):
            p.families[k] = (n, old)
            return old
    bits = [p.fresh('bit', BOOL) for i in range(w)]
    define(n, bits, w)
    p.families[k] = (n, bits)
    return bits


def whole_of(bits):
    """the known integer whose lowest bits these are, when it has no others"""
    if not bits or not isz(bits[-1]):
        return None
    p = P()
    for n, known in list(p.families.values()):
        if len(known) >= len(bits) and isz(known[0]) and all(isz(a) and a.eq(b) for a, b in zip(bits, known)):
            if p.prove(z3.And(n >= 0, n < (1 << len(bits)))):
                return n
    return None


def define(n, bits, w):
    """an integer in range is the sum of its bits"""
    total = z3.Sum(*[z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bits)])
    P().add(z3.Implies(z3.And(n >= -(1 << (w - 1)), n < (1 << w)), n + z3.If(n < 0, z3.IntVal(1 << w), z3.IntVal(0)) == total))


def remember_bits(n, f, w):
    """the integer term n was built from the bits f(0..w-1), two's complement"""
    if isz(n):
        P().families.setdefault(n.get_id(), (n, [zb(f(i)) for i in range(w)]))


def twos_bits(n, w):
    """closure over the w two's complement bits of the integer term n"""
    if isinstance(n, int):
        m = n % (1 << w)
        return lambda i: bool((m >> i) & 1) if isinstance(i, int) else fill_any(m, w, i)
    if w == 0:
        return lambda i: False

    def at(i):
        bits = family(n, w)
        return bits[i] if i < len(bits) else n < 0

    def f(i):
        if isinstance(i, int):
            return at(i) if 0 <= i < w else False
        r = False
        for j in range(w):
            r = If(i == j, at(j), r)
        return r
    return f


def fill_any(m, w, i):
    bits = [b for b in range(w) if (m >> b) & 1]
    return Or(*[i == b for b in bits]) if bits else False


def num_bits(n, w):
    """bit closure of the integer term 0 <= n < 2**w, w literal"""
    b = SBig(twos_bits(n, w), w)
    b._z = n if isz(n) else z3.IntVal(n)
    return b


def as_big(x):
    if isinstance(x, SBig):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        if x < 0:
            raise Unsupported('bit view of a negative number')
        return const_big(x)
    if isinstance(x, SBool):
        c = x.c
        return SBig(lambda i: And(i == 0, c), 1)
    if isinstance(x, SNum):
        if x.fl or x.d:
            raise TypeError('bit operation on a float')
        p = P()
        if not p.prove(x.n >= 0):
            raise Unsupported('bit view of a possibly negative number')
        for w in (8, 16, 32, 64):
            if p.prove(x.n < (1 << w)):
                return num_bits(x.n, w)
        raise Unsupported('bit view of an unbounded number')
    raise TypeError('not an integer')


def big_arith(a, b, op):
    """Structure-preserving cases; None means: go through linear arithmetic."""
    if op == 'add':
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, SBool) or isinstance(b, SBool) or isinstance(a, (int, SBig)) and isinstance(b, (int, SBig)):
            if (isinstance(a, int) and a < 0) or (isinstance(b, int) and b < 0):
                return None
            x, y = as_big(a), as_big(b)
            p = P()
            if p.prove(Or(x.w <= y.lo, y.w <= x.lo)):
                xf, yf = x.f, y.f
                return SBig(lambda i: Or(xf(i), yf(i)), maxw(x.w, y.w), lo=minw(x.lo, y.lo))
        return None
    if op == 'sub':
        if isinstance(b, int) and b == 1 and isinstance(a, SBig) and a.pow2 is not None:
            s = a.pow2
            return SBig(lambda i: i < s, s, mask=s)
        if isinstance(b, int) and b == 0:
            return a
        return None
    if op == 'mul':
        if isinstance(a, int) and isinstance(b, SBig):
            a, b = b, a
        if isinstance(b, int) and b > 0 and (b & (b - 1)) == 0 and isinstance(a, SBig):
            return a << (b.bit_length() - 1)
        if isinstance(b, SBig) and b.pow2 is not None:
            return as_big(a) << mknum(b.pow2)
        if isinstance(a, SBig) and a.pow2 is not None:
            return as_big(b) << mknum(a.pow2)
        return None
    if op in ('floordiv', 'mod'):
        if isinstance(b, int) and b > 0 and (b & (b - 1)) == 0 and isinstance(a, SBig):
            k = b.bit_length() - 1
            return (a >> k) if op == 'floordiv' else (a & (b - 1))
        if isinstance(b, SBig) and b.pow2 is not None:
            a = as_big(a)
            return (a >> mknum(b.pow2)) if op == 'floordiv' else (a & (b - 1))
        return None
    return None


def big_compare(a, b, op):
    if isinstance(b, SBig) and not isinstance(a, SBig):
        a, b = b, a
        op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
    # a is SBig
    if isinstance(b, float) and b == int(b):
        b = int(b)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, int):
        if b < 0:
            return {'lt': False, 'le': False, 'gt': True, 'ge': True, 'eq': False, 'ne': True}[op]
        if op == 'gt':
            return mkbool(Not(zb(big_compare(a, b + 1, 'lt'))))
        if op == 'ge':
            return mkbool(Not(zb(big_compare(a, b, 'lt'))))
        if op == 'le':
            return big_compare(a, b + 1, 'lt')
        if op == 'lt':
            if b == 0:
                return False
            if a.exact and b == 1:
                return mkbool(a.w == 0)
            if (b & (b - 1)) == 0:
                k = b.bit_length() - 1
                if a.exact:
                    return mkbool(a.w <= k)
                w = lit(a.w)
                if isinstance(w, int):
                    return mkbool(Not(Or(*[a.f(i) for i in range(k, w)])))
                if P().prove(a.w <= k):
                    return True
                raise Unsupported('comparison of an integer of unknown width')
            return None
        if op in ('eq', 'ne'):
            if a.exact and b == 0:
                c = a.w == 0
            else:
                w = lit(a.w)
                if not isinstance(w, int):
                    raise Unsupported('equality of an integer of unknown width')
                if b.bit_length() > w:
                    c = False
                else:
                    c = And(*[Iff(a.f(i), bool((b >> i) & 1)) for i in range(w)])
            return mkbool(c if op == 'eq' else Not(c))
    if isinstance(b, SBig):
        if op in ('eq', 'ne'):
            if a is b:
                return op == 'eq'
            wa, wb = lit(a.w), lit(b.w)
            if isinstance(wa, int) and isinstance(wb, int):
                c = And(*[Iff(a.f(i), b.f(i)) for i in range(max(wa, wb))])
                return mkbool(c if op == 'eq' else Not(c))
            raise Unsupported('equality of integers of unknown width')
        if a.pow2 is not None and b.pow2 is not None:
            x, y = a.pow2, b.pow2
            return mkbool({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[op]())
    if not is_numlike(b):
        return True if op == 'ne' else False if op == 'eq' else NotImplemented
    return None


def bit_of_num(x, i):
    """bit i of a non-negative python/symbolic integer (spec side)"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        if isinstance(i, int):
            return bool((x >> i) & 1)
        if x < 0:
            raise Unsupported('bit of a negative number')
        return const_big(x).f(i)
    return as_big(x).f(i)


# --------------------------------------------------------------------------------------------------------------
# byte strings: ropes of segments

class Seg(object):
    """length (int or z3 Int, in bytes) and bit(p), p relative bit position; ident: structural identity or None"""
    __slots__ = ('n', 'bit', 'tag')

    def __init__(self, n, bit, tag=None):
        self.n, self.bit, self.tag = n, memo(bit), tag


def const_seg(data):
    data = bytes(data)

    def bit(p):
        if isinstance(p, int):
            return bool((data[p // 8] >> (p % 8)) & 1)
        if not any(data):
            return False
        if len(data) <= 64:
            return Or(*[p == 8 * j + b for j in range(len(data)) for b in range(8) if (data[j] >> b) & 1])
        raise Unsupported('symbolic index into a long constant')
    return Seg(len(data), bit, ('const', data))


def zero_seg(n):
    return Seg(n, lambda p: False, ('zero',))


def seg_total(segs):
    t = 0
    for s in segs:
        t = t + s.n
    return lit(t) if isz(t) else t


class SBytes(object):
    """bytes / bytearray of known or unknown length"""
    _serial = [0]

    def __init__(self, segs, kind='bytes'):
        self.segs = [s for s in segs if not (isinstance(s.n, int) and s.n == 0)]
        self.kind = kind
        SBytes._serial[0] += 1
        self.serial = SBytes._serial[0]

    # -- observers
    def blen(self):
        return seg_total(self.segs)

    def bit(self, p):
        segs = self.segs
        if not segs:
            return False
        if len(segs) == 1:
            return segs[0].bit(p)
        off = 0
        parts = []
        for s in segs:
            parts.append((off, s))
            off = lit(off + 8 * s.n) if isz(off) or isz(s.n) else off + 8 * s.n
        if isinstance(p, int):
            # literal position: try to pick directly
            for (o, s) in parts:
                if isinstance(o, int) and isinstance(s.n, int):
                    if o <= p < o + 8 * s.n:
                        return s.bit(p - o)
                else:
                    break
        r = parts[-1][1].bit(_sub(p, parts[-1][0]))
        for idx in range(len(parts) - 2, -1, -1):
            o_next = parts[idx + 1][0]
            r = If(_lt(p, o_next), parts[idx][1].bit(_sub(p, parts[idx][0])), r)
        return r

    def byte(self, j):
        """the integer at byte index j (no bounds check)"""
        return self._mkbyte(_mul8(j))

    def _mkbyte(self, base):
        snap = SBytes(self.segs, 'bytes')

        def f(i):
            if isinstance(i, int):
                if i >= 8:
                    return False
                return snap.bit(lit(base + i) if isz(base) else base + i)
            return And(i < 8, snap.bit(lit(base + i)))
        b = SBig(f, 8)
        if isinstance(base, int) and len(self.segs) and all(s.tag and s.tag[0] in ('const',) for s in self.segs):
            return sum((1 << i) for i in range(8) if f(i) is True)
        return b

    def concrete(self):
        if all(s.tag is not None and s.tag[0] == 'const' for s in self.segs):
            return b''.join(s.tag[1] for s in self.segs)
        if all(isinstance(s.n, int) and s.tag is not None and s.tag[0] in ('const', 'zero') for s in self.segs):
            return b''.join(s.tag[1] if s.tag[0] == 'const' else bytes(s.n) for s in self.segs)
        return None

    def snapshot(self, kind=None):
        return SBytes(list(self.segs), kind or self.kind)

    def __repr__(self):
        return '<sym%s>' % self.kind

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        if self.kind == 'bytearray':
            raise TypeError("unhashable type: 'bytearray'")
        raise Unsupported('hash of symbolic bytes')

    def __len__(self):
        n = self.blen()
        if isinstance(n, int):
            return n
        return P().concretize_small(n, P().run.unroll)

    def __bool__(self):
        n = self.blen()
        return (n > 0) if isinstance(n, int) else P().branch(n > 0)

    def _index(self, i):
        """normalise an index, raising IndexError on the out-of-range path"""
        i = index_value(i)
        n = self.blen()
        p = P()
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise IndexError('index out of range')
            return i
        neg = i < 0 if isinstance(i, int) else p.branch(i < 0)
        if neg:
            i = lit(i + n)
        ok = And(0 <= i if not isinstance(i, int) else i >= 0, i < n)
        if not p.branch(ok):
            raise IndexError('%s index out of range' % self.kind)
        return i

    def _bounds(self, sl):
        """slice -> (start, stop) clipped like python, step 1 only"""
        n = self.blen()
        return slice_bounds(sl, n)

    def __getitem__(self, key):
        if isinstance(key, slice):
            a, b = self._bounds(key)
            return SBytes(self.cut(a, b), self.kind)
        return self.byte(self._index(key))

    def cut(self, a, b):
        """segments of bytes [a, b)"""
        if isinstance(a, int) and isinstance(b, int) and a >= b:
            return []
        n = self.blen()
        if same(a, 0) and same(b, n):
            return list(self.segs)
        p = P()
        # structural cut when the boundaries fall on segment boundaries or inside segments provably
        out = []
        if len(self.segs) > 1:
            off = 0
            res = []
            ok = True
            started = False
            for s in self.segs:
                end = _add(off, s.n)
                if p.prove(zle(end, a)):
                    pass
                elif p.prove(zle(b, off)):
                    pass
                elif p.prove(And(zle(a, off), zle(end, b))):
                    res.append(s)
                else:
                    # partially inside: need max/min of the bounds
                    lo = off if p.prove(zle(a, off)) else (a if p.prove(zle(off, a)) else None)
                    hi = end if p.prove(zle(end, b)) else (b if p.prove(zle(b, end)) else None)
                    if lo is None or hi is None:
                        ok = False
                        break
                    res.append(subseg(s, _sub(lo, off), _sub(hi, lo)))
                off = end
            if ok:
                return res
            snap = SBytes(list(self.segs), 'bytes')
            return [Seg(_sub(b, a), lambda q: snap.bit(_add(q, _mul8(a))))]
        if not self.segs:
            return []
        return [subseg(self.segs[0], a, _sub(b, a))]

    # -- mutation (bytearray)
    def _mut(self):
        if self.kind != 'bytearray':
            raise TypeError("'bytes' object does not support item assignment")
        from . import rt
        rt.note(self, 'data')

    def __setitem__(self, key, value):
        self._mut()
        if isinstance(key, slice):
            a, b = self._bounds(key)
            v = to_sbytes(value, 'bytes')
            b = zmax(a, b) if not P().prove(zle(a, b)) else b
            self.segs = self.cut(0, a) + list(v.segs) + self.cut(b, self.blen())
            return
        i = self._index(key)
        vf = byte_value(value)
        n = self.blen()
        snap = SBytes(self.segs, 'bytes')
        base = _mul8(i)
        bit = lambda p: If(And(_le(base, p), _lt(p, _add(base, 8))), vf(_sub(p, base)) if not (isinstance(p, int) and isinstance(base, int) and p < base) else False, snap.bit(p))
        # keep structure when there is one segment
        self.segs = [Seg(n, bit)]

    def __delitem__(self, key):
        self._mut()
        if isinstance(key, slice):
            a, b = self._bounds(key)
            b = zmax(a, b) if not P().prove(zle(a, b)) else b
            self.segs = self.cut(0, a) + self.cut(b, self.blen())
            return
        i = self._index(key)
        self.segs = self.cut(0, i) + self.cut(_add(i, 1), self.blen())

    def append(self, v):
        self._mut()
        vf = byte_value(v)
        self.segs = self.segs + [Seg(1, vf)]

    def extend(self, other):
        self._mut()
        self.segs = self.segs + list(to_sbytes(other, 'bytes').segs)

    def insert(self, i, v):
        self._mut()
        n = self.blen()
        a, _ = slice_bounds(slice(i, None), n)
        vf = byte_value(v)
        self.segs = self.cut(0, a) + [Seg(1, vf)] + self.cut(a, n)

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def clear(self):
        self._mut()
        self.segs = []

    def copy(self):
        return self.snapshot()

    def reverse(self):
        raise Unsupported('bytearray.reverse')

    # -- operators
    def __add__(self, o):
        if isinstance(o, (SBytes, bytes, bytearray)):
            return SBytes(self.segs + list(to_sbytes(o).segs), self.kind)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SBytes(list(to_sbytes(o).segs) + self.segs, 'bytearray' if isinstance(o, bytearray) else 'bytes')
        return NotImplemented

    def __iadd__(self, o):
        if not isinstance(o, (SBytes, bytes, bytearray)):
            if self.kind == 'bytearray':
                raise TypeError("can't concat to bytearray")
            return NotImplemented
        if self.kind == 'bytearray':
            self.extend(o)
            return self
        return self + o

    def __mul__(self, k):
        return repeat_bytes(self, k)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (SBytes, bytes, bytearray)):
            return False
        o = to_sbytes(o)
        if o.segs == self.segs:
            return True
        return mkbool(bytes_equal(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(Not(r))

    def __contains__(self, x):
        raise Unsupported('membership in symbolic bytes')

    def __iter__(self):
        n = P().concretize_small(self.blen(), P().run.unroll)
        for j in range(n):
            yield self.byte(j)

    # -- string methods used by codecs
    def _pad_char(self, c, kind):
        if isinstance(c, str) or (not isinstance(c, (bytes, bytearray, SBytes))):
            raise TypeError("%s() argument 2 must be a byte string of length 1, not %s" % (kind, type(c).__name__))
        if isinstance(c, SBytes):
            n = c.blen()
            if not isinstance(n, int):
                raise Unsupported('padding of unknown length')
            if n != 1:
                raise TypeError('padding must be one byte')
            return c.byte(0)
        if len(c) != 1:
            raise TypeError("%s() argument 2 must be a byte string of length 1" % kind)
        return c[0]

    def _pad(self, width, c, mode):
        ch = self._pad_char(c, mode)
        w = index_value(width)
        n = self.blen()
        p = P()
        if p.branch(zle(w, n)):
            return SBytes(list(self.segs), self.kind)
        total = lit(w - n) if isz(w) or isz(n) else w - n
        if mode == 'ljust':
            l, r = 0, total
        elif mode == 'rjust':
            l, r = total, 0
        else:
            # CPython: left = pad // 2 + (pad & width & 1)
            odd = And(Not(Iff(zmod(total, 2) == 0, True)), Not(Iff(zmod(w, 2) == 0, True)))
            l = _add(zdiv(total, 2), If(odd, 1, 0) if not isinstance(odd, bool) else (1 if odd else 0))
            r = _sub(total, l)
        return SBytes([fill_seg(l, ch)] + self.segs + [fill_seg(r, ch)], self.kind)

    def ljust(self, w, c=b' '):
        return self._pad(w, c, 'ljust')

    def rjust(self, w, c=b' '):
        return self._pad(w, c, 'rjust')

    def center(self, w, c=b' '):
        return self._pad(w, c, 'center')

    def _strip(self, chars, left, right):
        return strip_bytes(self, chars, left, right)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def decode(self, encoding='utf-8', errors='strict'):
        from . import trusted
        return trusted.decode(self, encoding)

    def tobytes(self):
        return self.snapshot('bytes')

    def join(self, it):
        raise Unsupported('bytes.join')

    def find(self, *a):
        raise Unsupported('bytes.find')

    index = count = startswith = endswith = replace = split = find


def _sub(a, b):
    return (a - b) if isinstance(a, int) and isinstance(b, int) else lit(a - b)


def _add(a, b):
    return (a + b) if isinstance(a, int) and isinstance(b, int) else lit(a + b)


def _mul8(a):
    return 8 * a if isinstance(a, int) else lit(8 * a)


def _lt(a, b):
    return a < b


def _le(a, b):
    return a <= b


def zle(a, b):
    return a <= b


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        d = lit(a - b)
        return isinstance(d, int) and d == 0
    return a.eq(b) or (isinstance(lit(a - b), int) and lit(a - b) == 0)


def subseg(s, a, n):
    if same(a, 0) and same(n, s.n):
        return s
    if s.tag is not None and s.tag[0] == 'const' and isinstance(a, int) and isinstance(n, int):
        return const_seg(s.tag[1][a:a + n])
    if s.tag is not None and s.tag[0] == 'zero':
        return zero_seg(n)
    if s.tag is not None and s.tag[0] == 'fill':
        return fill_seg(n, s.tag[1])
    bit = s.bit
    off = _mul8(a)
    tag = None
    if s.tag is not None and s.tag[0] == 'base':
        tag = ('base', s.tag[1], _add(s.tag[2], a))
    elif s.tag is not None and s.tag[0] in ('cat',):
        tag = None
    return Seg(n, lambda p: bit(_add(p, off)), tag)


def fill_seg(n, ch):
    if isinstance(ch, int):
        if ch == 0:
            return zero_seg(n)
        return Seg(n, lambda p: fill_bit(ch, p), ('fill', ch))
    return Seg(n, lambda p: ch.f(zmod(p, 8)), ('fill', ch))


def fill_bit(ch, p):
    if isinstance(p, int):
        return bool((ch >> (p % 8)) & 1)
    m = zmod(p, 8)
    if isinstance(m, int):
        return bool((ch >> m) & 1)
    return Or(*[m == b for b in range(8) if (ch >> b) & 1])


def index_value(i):
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, int):
        return i
    if isinstance(i, SBig):
        return lit(i.z())
    if isinstance(i, SNum):
        if i.fl or i.d:
            raise TypeError('indices must be integers or slices, not float')
        return i.n
    if isinstance(i, SBool):
        return i.num()
    if isinstance(i, float):
        raise TypeError('indices must be integers or slices, not float')
    if hasattr(i, '__index__'):
        return i.__index__()
    raise TypeError('indices must be integers')


def slice_bounds(sl, n):
    if sl.step not in (None, 1):
        raise Unsupported('slice step')
    p = P()

    def norm(v, default):
        if v is None:
            return default
        try:
            v = index_value(v)
        except TypeError:
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return min(max(v, 0), n)
        neg = v < 0 if isinstance(v, int) else p.branch(v < 0)
        if neg:
            v = lit(v + n)
            if p.branch(v < 0 if isz(v) else z3.BoolVal(v < 0)):
                return 0
            return v
        if p.branch(zb(v > n)):
            return n
        return v
    a = norm(sl.start, 0)
    b = norm(sl.stop, n)
    if not p.prove(zb(a <= b)):
        if p.branch(zb(a > b)):
            b = a
    return a, b


def byte_value(v):
    """value -> bit function, checking 0 <= v < 256 like bytearray does"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        if not 0 <= v < 256:
            raise ValueError('byte must be in range(0, 256)')
        return lambda p: fill_bit1(v, p)
    if isinstance(v, SNum):
        if v.fl or v.d:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not P().branch(z3.And(v.n >= 0, v.n < 256)):
            raise ValueError('byte must be in range(0, 256)')
        return num_bits(v.n, 8).f
    if isinstance(v, SBool):
        return as_big(v).f
    if isinstance(v, SBig):
        w = lit(v.w)
        p = P()
        if not (isinstance(w, int) and w <= 8):
            if not p.prove(zb(v.w <= 8)):
                if isinstance(w, int):
                    if p.branch(Or(*[v.f(i) for i in range(8, w)])):
                        raise ValueError('byte must be in range(0, 256)')
                elif v.exact:
                    if p.branch(v.w > 8):
                        raise ValueError('byte must be in range(0, 256)')
                else:
                    raise Unsupported('byte of unknown width')
        return v.f
    if isinstance(v, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(v, (bytes, str, SBytes)) or v is None:
        raise TypeError('an integer is required')
    raise TypeError('%s object cannot be interpreted as an integer' % type(v).__name__)


def fill_bit1(v, p):
    if isinstance(p, int):
        return bool((v >> p) & 1)
    bits = [b for b in range(8) if (v >> b) & 1]
    return Or(*[p == b for b in bits]) if bits else False


def to_sbytes(v, kind=None):
    if isinstance(v, SBytes):
        return v.snapshot(kind or v.kind)
    if isinstance(v, (bytes, bytearray)):
        return SBytes([const_seg(v)], kind or ('bytearray' if isinstance(v, bytearray) else 'bytes'))
    if isinstance(v, memoryview):
        return to_sbytes(bytes(v), kind)
    from . import rt
    return rt.bytes_from_iterable(v, kind or 'bytes')


def repeat_bytes(b, k):
    k = index_value(k)
    n = b.blen()
    p = P()
    if isinstance(k, int):
        return SBytes(b.segs * max(0, k), b.kind)
    if p.branch(k <= 0):
        return SBytes([], b.kind)
    if isinstance(n, int) and n == 1:
        return SBytes([fill_seg(k, b.byte(0))], b.kind)
    if isinstance(n, int) and n == 0:
        return SBytes([], b.kind)
    raise Unsupported('repetition of a symbolic string')


def bytes_equal(a, b):
    """equality as a decision: only for lengths that are (provably) small literals on one side"""
    na, nb = a.blen(), b.blen()
    if a.segs and len(a.segs) == len(b.segs) and all(x is y for x, y in zip(a.segs, b.segs)):
        return True
    if isinstance(na, int) or isinstance(nb, int):
        n = na if isinstance(na, int) else nb
        if n <= 64:
            leq = And(na == nb)
            return And(leq, *[Iff(a.bit(p), b.bit(p)) for p in range(8 * n)])
    raise Unsupported('equality of byte strings of unknown length')


def strip_bytes(b, chars, left, right):
    p = P()
    if isinstance(chars, str) or not (chars is None or isinstance(chars, (bytes, bytearray, SBytes))):
        raise TypeError("a bytes-like object is required, not '%s'" % type(chars).__name__)
    if chars is None:
        chars = b' \t\n\r\x0b\x0c'
    if isinstance(chars, SBytes):
        n = chars.blen()
        if not isinstance(n, int):
            raise Unsupported('strip set of unknown size')
        cs = [chars.byte(j) for j in range(n)]
    else:
        cs = list(chars)

    def member(src, j):
        byte = src.byte(j)
        return Or(*[zb(byte == c) for c in cs]) if cs else False
    if not cs:
        return b.snapshot()
    src = b.snapshot('bytes')
    # stripping is a function: the same string is stripped once
    key = tuple(id(s) for s in src.segs) + (bytes(cs) if all(isinstance(c, int) for c in cs) else None, left, right)
    hit = p.strips.get(key)
    if hit is not None and key[len(src.segs)] is not None:
        return SBytes(hit[1].cut(hit[2], hit[3]), b.kind)
    # filler at the ends: all of it goes, or nothing past it does
    segs = list(src.segs)
    ldone, rdone = not left, not right

    def filler(s):
        tag = s.tag
        if tag is None or tag[0] not in ('zero', 'fill') or not all(isinstance(c, int) for c in cs):
            return None
        c = 0 if tag[0] == 'zero' else tag[1]
        return c if isinstance(c, int) else None
    for end in (0, -1):
        while segs and not (ldone if end == 0 else rdone):
            c = filler(segs[end])
            if c is None:
                break
            if c not in cs and not p.branch(zb(segs[end].n == 0)):
                if end == 0:
                    ldone = True
                else:
                    rdone = True
                break
            del segs[end]
    src = SBytes(segs, 'bytes')
    n = src.blen()
    if left and not ldone and p.prove(Or(n == 0, Not(member(src, 0)))):
        ldone = True
    if right and not rdone and p.prove(Or(n == 0, Not(member(src, _sub(n, 1))))):
        rdone = True
    left, right = not ldone, not rdone
    lo, hi = 0, n
    if left:
        lo = p.fresh('strip_lo')
        p.add(z3.And(lo >= 0, lo <= n))
        p.assume(Or(lo == n, Not(member(src, lo))))
        rt_forall(src, lambda j: Implies(And(j >= 0, j < lo), member(src, j)))
    if right:
        hi = p.fresh('strip_hi')
        p.add(z3.And(hi >= lo, hi <= n))
        p.assume(Or(hi == lo, Not(member(src, _sub(hi, 1)))))
        rt_forall(src, lambda j: Implies(And(j >= hi, j < n), member(src, j)))
    from . import rt
    for t in (0, lo, _sub(hi, 1), _sub(_sub(hi, lo), 1)):
        rt.index_term(t)
    p.strips[key] = (src.segs, src, lo, hi)
    return SBytes(src.cut(lo, hi), b.kind)


def rt_forall(dom, fn):
    """Register a universally quantified fact over integers; instantiated at every index term of interest."""
    from . import rt
    rt.forall_fact(fn)


def int_to_bytes(x, length, byteorder, signed):
    """int.to_bytes (contract: two's complement, OverflowError when it does not fit)"""
    p = P()
    length = index_value(length)
    if isinstance(x, SBig) and not signed:
        w = lit(x.w)
        if isinstance(length, int):
            if isinstance(w, int):
                over = Or(*[x.f(i) for i in range(8 * length, w)])
                if p.branch(zb(over)):
                    raise OverflowError('int too big to convert')
            elif x.exact:
                if p.branch(x.w > 8 * length):
                    raise OverflowError('int too big to convert')
            else:
                raise Unsupported('to_bytes of unknown width')
        elif x.exact:
            if p.branch(x.w > 8 * length):
                raise OverflowError('int too big to convert')
        elif isinstance(w, int):
            raise Unsupported('to_bytes of symbolic length')
        f = x.f
        if byteorder == 'little':
            return SBytes([Seg(length, f)], 'bytes')
        n = length
        return SBytes([Seg(length, lambda q: f(_add(8 * (n - 1 - zdiv(q, 8)), zmod(q, 8))))], 'bytes')
    if not isinstance(length, int):
        raise Unsupported('to_bytes of symbolic length')
    n = x.z() if isinstance(x, SBig) else x.n if isinstance(x, SNum) else x
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    if length == 0:
        lo = hi = 0
    if not p.branch(zb(And(n >= lo, n <= hi))):
        raise OverflowError('int too big to convert')
    return int_bytes(n, length, byteorder)


def int_bytes(n, length, byteorder):
    """two's complement bytes of the integer term n (in range), literal length"""
    n = lit(n)
    f = twos_bits(n, 8 * length)
    if byteorder == 'little':
        return SBytes([Seg(length, f, ('intle', n, length))], 'bytes')

    def g(q):
        if isinstance(q, int):
            return f(8 * (length - 1 - q // 8) + q % 8)
        return f(lit(8 * (length - 1 - zdiv(q, 8)) + zmod(q, 8)))
    return SBytes([Seg(length, g, ('intbe', n, length))], 'bytes')


def scaled(x, d):
    """numerator of x over 2**d"""
    n, dx, _ = split(x)
    if dx > d:
        raise Unsupported('sum of mixed scales')
    return n * (1 << (d - dx))
