"""Run-time support for the rewritten modules: builtins on symbolic values, lists of unknown length, loops cut by
invariants, frame checks."""
import builtins
import copy
import functools
import io
import itertools
import math
import operator
import sys
import z3

from . import sym
from .sym import (SNum, SBig, SBool, SBytes, SInv, Seg, Unsupported, PathEnd, P, active, mknum, mkbool, lit, isz, zb,
                  And, Or, Not, If, Iff, Implies, index_value, zmin, zmax, zdiv, zmod, _add, _sub)

SYM = (SNum, SBig, SBool, SBytes, SInv)


# --------------------------------------------------------------------------------------------------------------
# per-path state (reset by the explorer)

class State(object):
    def __init__(self):
        self.frames = []          # open frame checks
        self.births = {}          # id -> (serial, object)
        self.constructing = []
        self.forall = []          # quantified facts
        self.forall2 = []
        self.infact = 0
        self.terms = []           # index terms of interest
        self.psums = []
        self.ghost = {}
        self.pure = 0
        self.draws = []
        self.inv_depth = 0


S = State()


def reset():
    global S
    S = State()


def serial():
    SBytes._serial[0] += 1
    return SBytes._serial[0]


class Frame(object):
    def __init__(self, pure=False):
        self.serial = serial()
        self.writes = []
        self.pure = pure


def birth_of(obj):
    s = getattr(obj, 'serial', None)
    if isinstance(obj, (SBytes, ListBase, SStream, Dict)):
        return s
    b = S.births.get(id(obj))
    return b[0] if b else 0


def note(obj, attr):
    """A heap write, for the frame checks."""
    if not active():
        return
    if attr == '[]' and (isinstance(obj, (SBytes, ListBase)) or type(obj).__module__.startswith('infi.')):
        return                  # they record their own writes
    if obj is not None and S.constructing and id(obj) not in S.births and type(obj) is S.constructing[-1]:
        S.births[id(obj)] = (serial(), obj)
    for f in S.frames:
        if obj is not None and birth_of(obj) > f.serial:
            continue
        if f.pure:
            raise Unsupported('heap write in a repeated evaluation (%s of %s)' % (attr, type(obj).__name__))
        f.writes.append((obj, attr))


# --------------------------------------------------------------------------------------------------------------
# quantified facts, instantiated at index terms

def instance(fn, *a):
    S.infact += 1
    try:
        P().add(zb(fn(*a)))
    finally:
        S.infact -= 1


def forall_fact(fn):
    S.forall.append(fn)
    for t in list(S.terms):
        instance(fn, t)


def forall_fact2(fn):
    """a fact about every pair of indices"""
    S.forall2.append(fn)
    for t in list(S.terms):
        for u in list(S.terms):
            instance(fn, t, u)


def index_term(t):
    if isinstance(t, int):
        t = z3.IntVal(t)
    for u in S.terms:
        if u.eq(t):
            return
    S.terms.append(t)
    for fn in list(S.forall):
        instance(fn, t)
    for fn in list(S.forall2):
        for u in list(S.terms):
            instance(fn, t, u)
            if u is not t:
                instance(fn, u, t)


def candidates():
    """indices met so far, also taken back through the permutations and filters the code applied"""
    out = list(S.terms)
    for t in list(S.terms):
        if S.ghost.get('maps'):
            for _, fwd in reversed(S.ghost['maps']):
                t = fwd(t)
            out.append(t)
    return out


def arity(fn):
    return fn.__code__.co_argcount - len(fn.__defaults__ or ())


class PSum(object):
    """Prefix sums of a non-negative sequence: at(k) = f(0) + ... + f(k-1), as numerators over 2**d."""

    def __init__(self, f, d, n=None, nonneg=True, name='P'):
        self.f, self.d, self.n, self.nonneg = f, d, n, nonneg
        self.fn = z3.Function(P().freshname(name), sym.INT, sym.INT)
        self.terms = []
        self.stepped = []
        P().add(self.fn(z3.IntVal(0)) == 0)
        self.at(0)
        S.psums.append(self)

    def at(self, k):
        k = lit(k) if isz(k) else k
        t = z3.IntVal(k) if isinstance(k, int) else k
        if any(t.eq(u) for u in self.terms):
            return lit_or(self.fn(t), k)
        p = P()
        if self.nonneg:
            for u in self.terms:
                p.add(z3.Implies(z3.And(u <= t), self.fn(u) <= self.fn(t)))
                p.add(z3.Implies(z3.And(t <= u), self.fn(t) <= self.fn(u)))
        self.terms.append(t)
        for u in list(self.terms):
            if u is t:
                continue
            if same_int(_sub(k, 1), u):
                self.step(u)
            elif same_int(_add(k, 1), u):
                self.step(t)
        return lit_or(self.fn(t), k)

    def step(self, j):
        """P(j+1) = P(j) + f(j) for 0 <= j < n"""
        t = z3.IntVal(j) if isinstance(j, int) else j
        if any(t.eq(u) for u in self.stepped):
            return
        self.stepped.append(t)
        p = P()
        nxt = lit(t + 1)
        nxt = z3.IntVal(nxt) if isinstance(nxt, int) else nxt
        ok = And(t >= 0, True if self.n is None else t < self.n)
        v = self.f(lit(t))
        p.add(z3.Implies(zb(ok), self.fn(nxt) == self.fn(t) + v))
        if not any(nxt.eq(u) for u in self.terms):
            self.at(nxt)
        if not any(t.eq(u) for u in self.terms):
            self.at(t)

    def num(self, k, fl=None):
        return mknum(self.at(k), self.d, self.d > 0 if fl is None else fl)


def prefix_sums(f, d, n):
    """the prefix sums of f; a sequence known to be the same gives the same sums"""
    p = P()
    for known in S.psums:
        if known.d == d and known.n is not None and same_int(known.n, n):
            jj = p.fresh('sumext')
            with pure():
                a, b = f(jj), known.f(jj)
            if p.prove(z3.Implies(z3.And(jj >= 0, zb(jj < n)), zb(a == b))):
                return known
    return PSum(f, d, n=n, nonneg=True)


def lit_or(e, k):
    if isinstance(k, int) and k == 0:
        return 0
    return e


def same_int(a, b):
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    if a.eq(b):
        return True
    d = lit(a - b)
    return isinstance(d, int) and d == 0


class Disjoint(object):
    """ranges of which no two share a bit: owner(p) is the index of the range that contains the bit p, or -1. Such a
    function exists exactly if no two ranges share a bit."""

    def __init__(self, seq):
        self.seq = seq
        self.fn = z3.Function(P().freshname('range_of'), sym.INT, sym.INT)
        self.known = []

    def ends(self, j):
        r = self.seq.elem(j)
        return sym.scaled(r.start, 3), sym.scaled(r.stop, 3)

    def inside(self, j, p):
        a, b = self.ends(j)
        return And(0 <= j, j < self.seq.length(), a <= p, p < b)

    def at(self, p):
        t = z3.IntVal(p) if isinstance(p, int) else p
        o = self.fn(t)
        if any(t.eq(u) for u in self.known):
            return o
        self.known.append(t)
        P().add(zb(sym.Or(o == -1, self.inside(o, t))))
        index_term(o)
        forall_fact(lambda j: sym.Implies(self.inside(j, t), o == j))
        return o


def range_scale(seq):
    """(scale, float?) of the endpoints of a list of ranges"""
    d, fl = 0, False
    for q in seq.parts:
        for r in (q.conc if q.conc is not None else [q.elem(P().fresh('probe'))]):
            for x in (r.start, r.stop):
                if x is not None:
                    _, dx, f = sym.split(x)
                    d, fl = max(d, dx), fl or f
    return d, fl


class Walk(object):
    """the bits of a list of ranges, one after another: at(q) is the position of the q-th"""

    def __init__(self, seq):
        self.seq, self.n = seq, seq.length()
        d = range_scale(seq)[0]
        self.ps = prefix_sums(lambda j: 0 if seq.elem(j).stop is None else sym.scaled(seq.elem(j).stop - seq.elem(j).start, d), d, self.n)
        self.unit = 1 << (3 - d)
        self.fn = z3.Function(P().freshname('walk'), sym.INT, sym.INT)
        self.known = []

    def before(self, k):
        """number of bits of the first k ranges"""
        v = self.ps.at(k)
        return v * self.unit

    def start(self, j):
        return sym.scaled(self.seq.elem(j).start, 3)

    def piece(self, q):
        """the range the q-th bit lies in"""
        t = z3.IntVal(q) if isinstance(q, int) else q
        o = self.fn(t)
        if any(t.eq(u) for u in self.known):
            return o
        self.known.append(t)
        def inside(j):
            self.ps.step(j)
            return And(0 <= j, j < self.n, self.before(j) <= t, t < self.before(_add(j, 1)))
        index_term(o)
        P().add(zb(sym.Implies(And(0 <= t, t < self.before(self.n)), inside(o))))
        forall_fact(lambda j: sym.Implies(inside(j), o == j))
        return o

    def at(self, q):
        o = self.piece(q)
        return lit(_add(self.start(o), _sub(q, self.before(o))))


def disjoint(ranges):
    seq = toseq(ranges)
    known = S.ghost.setdefault('disjoint', [])
    for s, d in known:
        if s is seq or (len(s.parts) == 1 and len(seq.parts) == 1 and s.parts[0] is seq.parts[0]):
            return d
    d = Disjoint(seq)
    known.append((seq, d))

    def apart(i, j):
        (a, b), (c, e) = d.ends(i), d.ends(j)
        n = seq.length()
        return sym.Implies(And(0 <= i, i < n, 0 <= j, j < n, sym.Not(i == j)), sym.Or(b <= c, e <= a, b <= a, e <= c))
    forall_fact2(apart)
    return d


def known_disjoint(seq):
    for s, d in S.ghost.get('disjoint', []):
        if s is seq or (len(s.parts) == 1 and len(seq.parts) == 1 and s.parts[0] is seq.parts[0]):
            return d
    return None


# --------------------------------------------------------------------------------------------------------------
# sequences

class Part(object):
    """n elements; elem(j) for 0 <= j < n. conc: the python list when everything is known"""

    def __init__(self, n, elem, conc=None):
        self.n, self._elem, self.conc = n, elem, conc
        self.cache = []

    def elem(self, j):
        if self.conc is not None and isinstance(j, int):
            return self.conc[j]
        if self.conc is not None and len(self.conc) == 1:
            return self.conc[0]
        if self.conc is not None:
            return self.conc[P().concretize(j)]
        t = z3.IntVal(j) if isinstance(j, int) else j
        for u, v in self.cache:
            if u.eq(t):
                return v
        v = self._elem(lit(t))
        self.cache.append((t, v))
        return v


def conc_part(items):
    items = builtins.list(items)
    return Part(len(items), None, items)


class Seq(object):
    """immutable sequence view: parts"""

    def __init__(self, parts):
        self.parts = parts

    def length(self):
        t = 0
        for p in self.parts:
            t = t + p.n
        return lit(t) if isz(t) else t

    def concrete(self):
        return all(p.conc is not None for p in self.parts)

    def items(self):
        return [x for p in self.parts for x in p.conc]

    def elem(self, j):
        parts = self.parts
        if len(parts) == 1:
            return parts[0].elem(j)
        off = 0
        p = P()
        for i, q in enumerate(parts):
            end = _add(off, q.n)
            if i == len(parts) - 1:
                return q.elem(_sub(j, off))
            c = j < end
            if (c if isinstance(c, bool) else p.branch(c)):
                return q.elem(_sub(j, off))
            off = end
        raise IndexError

    def __iter__(self):
        if self.concrete():
            for x in self.items():
                yield x
            return
        n = P().concretize_small(self.length(), P().run.unroll)
        for j in builtins.range(n):
            yield self.elem(j)


class ListBase(object):
    """list, possibly with parts of unknown length"""

    def __init__(self, iterable=()):
        self.serial = serial()
        self._parts = toseq(iterable).parts if iterable != () else []
        self._parts = [p if p.conc is None else conc_part(p.conc) for p in self._parts]

    @property
    def seq(self):
        return Seq(self._parts)

    @classmethod
    def of(cls, parts):
        o = cls.__new__(cls)
        o.serial = serial()
        o._parts = builtins.list(parts)
        return o

    def length(self):
        return self.seq.length()

    def is_concrete(self):
        return self.seq.concrete()

    def items_(self):
        return self.seq.items()

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        return P().concretize_small(n, P().run.unroll)

    def __bool__(self):
        n = self.length()
        return n > 0 if isinstance(n, int) else P().branch(n > 0)

    def __iter__(self):
        return iter(self.seq)

    def __repr__(self):
        if self.is_concrete():
            return repr(self.items_())
        return '<symlist>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    __hash__ = None

    def _index(self, i):
        i = index_value(i)
        n = self.length()
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise IndexError('list index out of range')
            return i
        p = P()
        if (i < 0) if isinstance(i, int) else p.branch(i < 0):
            i = lit(i + n)
        if not p.branch(zb(And(i >= 0, i < n))):
            raise IndexError('list index out of range')
        return i

    def __getitem__(self, key):
        if isinstance(key, slice):
            if self.is_concrete() and all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
                return List(self.items_()[key])
            a, b = sym.slice_bounds(key, self.length())
            return List.of(self.cutparts(a, b))
        i = self._index(key)
        if not self.is_concrete():
            index_term(i)
        return self.seq.elem(i)

    def cutparts(self, a, b):
        if len(self._parts) == 1 and self._parts[0].conc is None:
            q = self._parts[0]
            return [Part(_sub(b, a), lambda j: q.elem(_add(j, a)))]
        s = Seq(builtins.list(self._parts))
        return [Part(_sub(b, a), lambda j: s.elem(_add(j, a)))]

    def _mut(self):
        note(self, 'data')

    def __setitem__(self, key, value):
        self._mut()
        if isinstance(key, slice):
            if not self.is_concrete():
                raise Unsupported('slice assignment to a list of unknown length')
            l = self.items_()
            l[key] = builtins.list(iter_(value))
            self._parts = [conc_part(l)]
            return
        i = self._index(key)
        if self.is_concrete() and isinstance(i, int):
            l = self.items_()
            l[i] = value
            self._parts = [conc_part(l)]
            return
        raise Unsupported('item assignment in a list of unknown length')

    def __delitem__(self, key):
        self._mut()
        if not self.is_concrete():
            raise Unsupported('deletion in a list of unknown length')
        l = self.items_()
        del l[key]
        self._parts = [conc_part(l)]

    def append(self, x):
        self._mut()
        if self._parts and self._parts[-1].conc is not None:
            self._parts[-1].conc.append(x)
            self._parts[-1].n += 1
        else:
            self._parts.append(conc_part([x]))

    def extend(self, other):
        self._mut()
        for q in toseq(other).parts:
            self._parts.append(q if q.conc is None else conc_part(q.conc))
        self._merge()

    def _merge(self):
        out = []
        for q in self._parts:
            if out and out[-1].conc is not None and q.conc is not None:
                out[-1] = conc_part(out[-1].conc + q.conc)
            elif q.conc is not None and not q.conc:
                continue
            else:
                out.append(q)
        self._parts = out

    def insert(self, i, x):
        self._mut()
        if self.is_concrete():
            l = self.items_()
            l.insert(i, x)
            self._parts = [conc_part(l)]
            return
        if isinstance(i, int) and i == 0:
            self._parts = [conc_part([x])] + self._parts
            return
        raise Unsupported('insertion into a list of unknown length')

    def pop(self, i=-1):
        self._mut()
        if not self.is_concrete():
            raise Unsupported('pop from a list of unknown length')
        l = self.items_()
        r = l.pop(i)
        self._parts = [conc_part(l)]
        return r

    def clear(self):
        self._mut()
        self._parts = []

    def remove(self, x):
        i = self.index(x)
        del self[i]

    def index(self, x):
        for i, y in enumerate(self):
            if y is x or y == x:
                return i
        raise ValueError('not in list')

    def count(self, x):
        return sum(1 for y in self if y is x or y == x)

    def reverse(self):
        self._mut()
        l = self.items_() if self.is_concrete() else None
        if l is None:
            self._parts = reversed_seq(self.seq).parts
        else:
            l.reverse()
            self._parts = [conc_part(l)]

    def sort(self, key=None, reverse=False):
        self._mut()
        self._parts = s_sorted(self, key=key, reverse=reverse)._parts

    def copy(self):
        return List.of([q if q.conc is None else conc_part(q.conc) for q in self._parts])

    def __contains__(self, x):
        for y in self:
            if y is x or y == x:
                return True
        return False

    def __add__(self, other):
        if not isinstance(other, (ListBase, builtins.list)):
            return NotImplemented
        if type(self).__add__ is List.__add__ and type(other) is not type(self) and getattr(type(other), '__radd__', List.__radd__) is not List.__radd__:
            return NotImplemented       # list has no number protocol: the other's own goes first
        r = List()
        r.extend(self)
        r.extend(other)
        return r

    def __radd__(self, other):
        if type(self).__radd__ is not List.__radd__:
            raise AttributeError("'super' object has no attribute '__radd__'")      # as of a list
        if not isinstance(other, (ListBase, builtins.list)):
            return NotImplemented
        r = List()
        r.extend(other)
        r.extend(self)
        return r

    def __iadd__(self, other):
        self.extend(other)
        return self

    def __mul__(self, k):
        if isinstance(k, int) and self.is_concrete():
            return List(self.items_() * k)
        k = index_value(k)
        if self.is_concrete() and len(self.items_()) == 1:
            x = self.items_()[0]
            if P().branch(zb(k <= 0)):
                return List()
            return List.of([Part(k, lambda j: x)])
        raise Unsupported('list repetition')

    __rmul__ = __mul__

    def __eq__(self, other):
        if not isinstance(other, (ListBase, builtins.list)):
            return NotImplemented
        a, b = builtins.list(self), builtins.list(other)
        return len(a) == len(b) and all(x is y or bool(x == y) for x, y in zip(a, b))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        return builtins.list(self) < builtins.list(other)

    def __reversed__(self):
        return reversed_seq(self.seq)


class List(ListBase):
    pass


class GenSeq(Seq):
    """result of a generator function or generator expression"""
    _it = None

    def __next__(self):
        if self._it is None:
            self._it = iter(self)
        return next(self._it)


class SRange(Seq):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if isinstance(step, int) and step > 0:
            n = zmax(zdiv(_sub(stop, start) + (step - 1) if isinstance(_sub(stop, start), int) else lit(_sub(stop, start) + (step - 1)), step), 0)
        elif isinstance(step, int) and step < 0:
            d = _sub(start, stop)
            n = zmax(zdiv(d + (-step - 1) if isinstance(d, int) else lit(d + (-step - 1)), -step), 0)
        else:
            raise Unsupported('range with a symbolic step')
        p = P()
        if not isinstance(n, int) and not p.prove(zb(n == 0)):
            # prefer the plain length when the range is provably non-empty or exact
            if step == 1 and p.prove(zb(stop >= start)):
                n = _sub(stop, start)
            elif step == -1 and p.prove(zb(stop <= start)):
                n = _sub(start, stop)
        Seq.__init__(self, [Part(n, lambda j: mknum(_add(start, step * j if isinstance(j, int) else lit(step * j))))])

    def __reversed__(self):
        return reversed_seq(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a range')
        l = List.of(self.parts)
        return l[i]


def reversed_seq(seq):
    if seq.concrete():
        return GenSeq([conc_part(builtins.list(reversed(seq.items())))])
    n = seq.length()
    return GenSeq([Part(n, lambda j: seq.elem(_sub(_sub(n, 1), j)))])


def toseq(x):
    """any iterable -> Seq"""
    if isinstance(x, Seq):
        return x
    if isinstance(x, ListBase):
        return Seq(builtins.list(x._parts))
    if isinstance(x, SBytes):
        n = x.blen()
        snap = x.snapshot('bytes')
        if isinstance(n, int):
            return Seq([conc_part([snap.byte(j) for j in builtins.range(n)])])
        return Seq([Part(n, snap.byte)])
    if isinstance(x, LazyComp):
        return x.seq()
    if isinstance(x, (builtins.list, tuple, bytes, bytearray, str, builtins.range, dict, set, frozenset)):
        return Seq([conc_part(x)])
    if isinstance(x, (SNum, SBig, SBool)):
        raise TypeError("'%s' object is not iterable" % proxy_type(x).__name__)
    t = type(x)
    if hasattr(t, '__iter__'):
        r = t.__iter__(x)
        if isinstance(r, (Seq, LazyComp)):
            return toseq(r)
        return Seq([conc_part(r)])
    if hasattr(t, '__getitem__') and hasattr(t, '__len__'):
        n = s_len(x)
        n = index_value(n)
        if isinstance(n, int):
            return Seq([conc_part([x[i] for i in builtins.range(n)])])
        return Seq([Part(n, lambda j: x[mknum(j)])])
    return Seq([conc_part(x)])


def iter_(x):
    if active():
        return iter(toseq(x))
    return iter(x)


def bytes_from_iterable(v, kind):
    if isinstance(v, (SNum, SBig, int)) and not isinstance(v, bool):
        n = index_value(v)
        if (n < 0) if isinstance(n, int) else P().branch(n < 0):
            raise ValueError('negative count')
        return SBytes([sym.zero_seg(n)], kind)
    if isinstance(v, float):
        raise TypeError("cannot convert 'float' object to %s" % kind)
    if v is None or isinstance(v, str):
        raise TypeError("cannot convert '%s' object to %s" % (type(v).__name__, kind))
    s = toseq(v)
    segs = []
    for q in s.parts:
        if q.conc is not None:
            for x in q.conc:
                if isinstance(x, int) and not isinstance(x, bool):
                    if not 0 <= x < 256:
                        raise ValueError('bytes must be in range(0, 256)')
                    segs.append(sym.const_seg(bytes([x])))
                else:
                    segs.append(Seg(1, sym.byte_value(x)))
        else:
            segs.append(seq_seg(q))
    # merge constants
    return SBytes(segs, kind)


def seq_seg(q):
    """bytes whose j-th byte is the integer q.elem(j) (checked to be a byte for an arbitrary j)"""
    probe(q.n, lambda j: sym.byte_value(q.elem(j)))

    def bit(p):
        j, i = zdiv(p, 8), zmod(p, 8)
        with pure():
            try:
                v = q.elem(j)
                return sym.byte_value(v)(i)
            except (Exception,):
                P().end()
    return Seg(q.n, bit)


class pure(object):
    """evaluations that are repeated at other indices must not write to the heap"""
    def __enter__(self):
        self.f = Frame(pure=True)
        S.frames.append(self.f)

    def __exit__(self, *a):
        if self.f in S.frames:
            S.frames.remove(self.f)


def probe(n, fn):
    """Explore, on a separate path, the case in which fn raises for some index in [0, n)."""
    p = P()
    if isinstance(n, int) and n <= 0:
        return
    if p.flip('probe') == 1:
        j = p.fresh('probe')
        p.assume(z3.And(j >= 0, zb(j < n)))
        index_term(j)
        with pure():
            fn(j)           # an exception propagates to the caller: this is the raising path
        p.end()


class LazyComp(object):
    """generator expression / list comprehension over a sequence"""

    def __init__(self, fn, src, cond):
        self.fn, self.src, self.cond = fn, src, cond
        self._seq = None

    def seq(self):
        if self._seq is None:
            s = toseq(self.src)
            if self.cond is not None and len(s.parts) == 1 and not s.concrete():
                self._seq = GenSeq([filtered(self, s)])
            elif s.concrete() or self.cond is not None:
                out = []
                for x in s:
                    if self.cond is None or self.cond(x):
                        out.append(self.fn(x))
                self._seq = GenSeq([conc_part(out)])
            else:
                parts = []
                for q in s.parts:
                    if q.conc is not None:
                        parts.append(conc_part([self.fn(x) for x in q.conc]))
                    else:
                        probe(q.n, lambda j, q=q: self.fn(q.elem(j)))
                        parts.append(Part(q.n, lambda j, q=q: quiet(self.fn, q.elem(j))))
                self._seq = GenSeq(parts)
        return self._seq

    def __iter__(self):
        if active():
            s = toseq(self.src)
            if s.concrete():
                for x in s:
                    if self.cond is None or self.cond(x):
                        yield self.fn(x)
                return
            for x in self.seq():
                yield x
            return
        for x in self.src:
            if self.cond is None or self.cond(x):
                yield self.fn(x)

    def __next__(self):
        if not hasattr(self, '_it'):
            self._it = iter(self)
        return next(self._it)


def filtered(lc, s):
    """the subsequence of elements satisfying a condition: contract g increasing, h its inverse"""
    p = P()
    n = s.length()
    nm = p.freshname('filter')
    g, h = z3.Function(nm, sym.INT, sym.INT), z3.Function(nm + '_inv', sym.INT, sym.INT)
    m = p.fresh(nm + '_len')
    p.assume(z3.And(m >= 0, zb(m <= n)))
    probe(n, lambda j: truth(lc.cond(s.elem(j))))
    keep = lambda j: truth(quiet(lc.cond, s.elem(j)))
    forall_fact(lambda j: And(Implies(And(j >= 0, j < m), And(g(j) >= 0, g(j) < n, h(g(j)) == j)),
                              Implies(And(j >= 0, j < n), Implies(keep(j), And(h(j) >= 0, h(j) < m, g(h(j)) == j)))))
    forall_fact2(lambda i, j: Implies(And(i >= 0, i < j, j < m), g(i) < g(j)))

    def elem(j):
        t = z3.IntVal(j) if isinstance(j, int) else j
        x = s.elem(lit(g(t)))
        P().add(zb(Implies(And(t >= 0, t < m), And(g(t) >= 0, g(t) < n, h(g(t)) == t, truth(quiet(lc.cond, x))))))
        return quiet(lc.fn, x)
    S.ghost.setdefault('maps', []).append((h, g))
    return Part(m, elem)


def quiet(fn, *a):
    with pure():
        try:
            return fn(*a)
        except Exception:
            P().end()


def comp(fn, src, cond, kind):
    c = LazyComp(fn, src, cond)
    if kind == 'gen':
        return c
    if not active():
        if kind == 'list':
            return [x for x in c]
        if kind == 'set':
            return set(c)
        return dict(c)
    if kind == 'list':
        return List.of(c.seq().parts)
    if kind == 'set':
        return set(c)
    return dict(c)


def gen(body):
    if not active():
        out = []
        body(out.append)
        return iter(out)
    out = List()
    body(Yielder(out))
    return GenSeq(out._parts)


class Yielder(object):
    def __init__(self, out):
        self.out = out

    def __call__(self, v):
        self.out.append(v)


def yield_from(y, it):
    if isinstance(y, Yielder):
        y.out.extend(it)
    else:
        for x in it:
            y(x)


def genloop(y, it, fn, key):
    if not active():
        for x in it:
            fn(y, x)
        return
    s = toseq(it)
    for q in s.parts:
        if q.conc is not None:
            for x in q.conc:
                fn(y, x)
        else:
            def one(j, q=q):
                o = []
                fn(o.append, q.elem(j))
                if len(o) != 1:
                    raise Unsupported('generator loop that does not yield exactly once per iteration')
                return o[0]
            probe(q.n, one)
            y.out._parts.append(Part(q.n, lambda j, one=one: quiet(one, j)))


def mklist(l):
    if not active():
        return l
    return List(l)


def mkslice(a, b, c):
    return slice(a, b, c)


# --------------------------------------------------------------------------------------------------------------
# builtins

def proxy_type(x):
    if isinstance(x, SNum):
        return float if x.fl else int
    if isinstance(x, (SBig, SInv)):
        return int
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SBytes):
        return bytes if x.kind == 'bytes' else bytearray
    if type(x) is List:
        return builtins.list
    if isinstance(x, SRange):
        return builtins.range
    from . import trusted
    if isinstance(x, trusted.SText):
        return str
    return None


def s_isinstance(x, t):
    pt = proxy_type(x)
    if isinstance(t, tuple):
        return any(s_isinstance(x, u) for u in t)
    if t is ListBase or t is List:
        t = builtins.list
    if pt is None:
        if isinstance(x, ListBase) and t is builtins.list:
            return True
        return isinstance(x, t)
    return issubclass(pt, t)


def s_type(x, *rest):
    if rest:
        return type(x, *rest)
    return proxy_type(x) or type(x)


def s_len(x):
    if isinstance(x, SBytes):
        return mknum(x.blen())
    if isinstance(x, ListBase):
        return mknum(x.length())
    if isinstance(x, SRange):
        return mknum(x.length())
    if isinstance(x, (SNum, SBig, SBool)):
        raise TypeError("object of type '%s' has no len()" % proxy_type(x).__name__)
    from . import trusted
    if isinstance(x, trusted.SText):
        return x.length()
    m = getattr(type(x), '__len__', None)
    import types
    if isinstance(m, types.FunctionType):
        r = m(x)
        if isinstance(r, (SNum, SBig)):
            if isinstance(r, SNum) and r.fl:
                raise TypeError("'float' object cannot be interpreted as an integer")
            if isinstance(r, SNum) and P().branch(r.n < 0):
                raise ValueError('__len__() should return >= 0')
            return r
        if isinstance(r, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(r, int) and r < 0:
            raise ValueError('__len__() should return >= 0')
        return r
    return len(x)


def s_int(x=0, *rest):
    if isinstance(x, (SNum, SBig, SBool)) and not rest:
        return sym.trunc(x)
    if isinstance(x, SBytes):
        raise Unsupported('int() of symbolic text')
    return int(x, *rest)


def s_float(x=0.0):
    if isinstance(x, SNum):
        return mknum(x.n, x.d, True)
    if isinstance(x, (SBig, SBool)):
        n = x.z() if isinstance(x, SBig) else x.num()
        return mknum(n, 0, True)
    return float(x)


def s_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return mkbool(x.n != 0)
    return bool(x)


def s_abs(x):
    return abs(x)


def s_range(*a):
    a = [index_value(v) for v in a]
    if all(isinstance(v, int) for v in a):
        return builtins.range(*a)
    if len(a) == 1:
        return SRange(0, a[0], 1)
    if len(a) == 2:
        return SRange(a[0], a[1], 1)
    step = a[2]
    if not isinstance(step, int):
        step = P().concretize(step)
    return SRange(a[0], a[1], step)


def _minmax(args, key, default, less):
    nodef = default is _NODEF
    if len(args) == 1:
        s = toseq(args[0])
        if not s.concrete():
            if key is not None:
                raise Unsupported('the extreme of a sequence of unknown length by a key')
            if not nodef and P().branch(zb(s.length() == 0)):
                return default
            return _minmax_sym(s, less)
        items = s.items()
        if not items:
            if nodef:
                raise ValueError('arg is an empty sequence')
            return default
    else:
        items = builtins.list(args)
    best = items[0]
    kb = key(best) if key else best
    for x in items[1:]:
        kx = key(x) if key else x
        if less(kx, kb):
            best, kb = x, kx
    return best


_NODEF = object()


def _minmax_sym(s, less):
    n = s.length()
    p = P()
    if p.branch(zb(n == 0)):
        raise ValueError('arg is an empty sequence')
    w = p.fresh('argext')
    p.assume(z3.And(w >= 0, zb(w < n)))
    index_term(w)
    best = s.elem(w)
    nb, d, fl = sym.split(best)
    big = less(1, 0)          # True for max

    def fact(j):
        v = s.elem(j)
        nv, dv, _ = sym.split(v)
        dd = max(d, dv)
        a, b = nv * (1 << (dd - dv)), nb * (1 << (dd - d))
        return Implies(And(j >= 0, j < n), a <= b if big else a >= b)
    forall_fact(fact)
    return best


def s_min(*args, **k):
    return _minmax(args, k.get('key'), k.get('default', _NODEF), lambda a, b: a < b)


def s_max(*args, **k):
    return _minmax(args, k.get('key'), k.get('default', _NODEF), lambda a, b: a > b)


def s_sum(it, start=0):
    s = toseq(it)
    if not s.concrete() and isinstance(start, tuple):
        # a sum of objects is the loop that it is
        r = start
        loop = Loop('builtins.sum:' + type(start).__name__, ('r',), s)
        while True:
            loop.head(dict(r=r))
            if loop.has('r'):
                r = loop.get('r')
            if not loop.advance():
                return r
            r = r + loop.item()
    if s.concrete():
        r = start
        for x in s.items():
            r = r + x
        return r
    r = start
    for q in s.parts:
        if q.conc is not None:
            for x in q.conc:
                r = r + x
            continue
        if isinstance(q.n, int):
            for j in builtins.range(q.n):
                r = r + q.elem(j)
            continue
        r = r + sum_part(q)
    return r


def sum_part(q):
    hook = S.ghost.get('sum_hook')
    p = P()
    # scale from an arbitrary element
    j = p.fresh('sumprobe')
    with pure():
        v = q.elem(j)
    sp = sym.split(v)
    if sp is None:
        raise Unsupported('sum of non-numbers')
    d = sp[1]

    def f(t):
        x = q.elem(t)
        nx, dx, _ = sym.split(x)
        if dx > d:
            raise Unsupported('sum of mixed scales')
        return nx * (1 << (d - dx))
    # extensionality: a known prefix sum with provably equal terms is the same sum
    for known in S.psums:
        if known.d == d and known.n is not None and same_int(known.n, q.n):
            jj = p.fresh('sumext')
            with pure():
                a = f(jj)
                known_v = known.f(jj)
            if p.prove(z3.Implies(z3.And(jj >= 0, zb(jj < q.n)), zb(a == known_v))):
                return known.num(q.n)
    ps = PSum(f, d, n=q.n, nonneg=False, name='S')
    return ps.num(q.n)


def s_any(it):
    s = toseq(it) if not isinstance(it, LazyComp) or not toseq(it.src).concrete() else None
    if s is None or s.concrete():
        for x in (it if s is None else s.items()):
            if x:
                return True
        return False
    return _quant(s, True)


def s_all(it):
    s = toseq(it) if not isinstance(it, LazyComp) or not toseq(it.src).concrete() else None
    if s is None or s.concrete():
        for x in (it if s is None else s.items()):
            if not x:
                return False
        return True
    return not _quant(s, False)


def _quant(s, positive):
    """exists j: bool(elem(j)) == positive"""
    n = s.length()
    p = P()
    if p.flip('exists') == 0:
        w = p.fresh('wit')
        p.assume(z3.And(w >= 0, zb(w < n)))
        index_term(w)
        v = s.elem(w)
        c = truth(v)
        p.assume(c if positive else Not(c))
        return True

    def fact(j):
        c = truth(s.elem(j))
        return Implies(And(j >= 0, j < n), Not(c) if positive else c)
    forall_fact(fact)
    return False


def truth(v):
    if isinstance(v, SBool):
        return v.c
    if isinstance(v, bool):
        return v
    if isinstance(v, SNum):
        return v.n != 0
    return bool(v)


def s_sorted(it, key=None, reverse=False):
    s = toseq(it)
    if s.concrete():
        if key is not None:
            return List(sorted(s.items(), key=key, reverse=reverse))
        return List(sorted(s.items(), reverse=reverse))
    if key is not None or reverse:
        raise Unsupported('sorted with a key on a list of unknown length')
    # contract: a permutation; no element is less than its predecessor
    p = P()
    n = s.length()
    nm = p.freshname('perm')
    perm = z3.Function(nm, sym.INT, sym.INT)
    inv = z3.Function(nm + '_inv', sym.INT, sym.INT)

    def fact(j):
        return And(Implies(And(j >= 0, j < n), And(perm(j) >= 0, perm(j) < n, inv(perm(j)) == j)),
                   Implies(And(j >= 0, j < n), And(inv(j) >= 0, inv(j) < n, perm(inv(j)) == j)))
    forall_fact(fact)

    met = []

    def elem(j):
        t = z3.IntVal(j) if isinstance(j, int) else j
        v = s.elem(lit(perm(t)))
        P().add(zb(fact(t)))
        for u, w in met:
            if same_int(_add(t, 1), u):
                ordered(t, v, w)
            elif same_int(_add(u, 1), t):
                ordered(u, w, v)
        met.append((t, v))
        return v

    def ordered(j, a, b):
        with pure():
            c = truth(b < a)
        P().add(zb(Implies(And(j >= 0, j + 1 < n), Not(c))))
    S.ghost.setdefault('maps', []).append((inv, perm))
    return List.of([Part(n, elem)])


def s_reversed(x):
    if isinstance(x, SRange):
        return reversed_seq(x)
    m = getattr(type(x), '__reversed__', None)
    if m is not None and not isinstance(x, (builtins.list, builtins.range, dict)):
        return m(x)
    if isinstance(x, (builtins.list, tuple, builtins.range, str, bytes, bytearray)):
        return reversed(x)
    return reversed_seq(toseq(x))


def s_bytearray(x=None, *rest):
    if rest:
        return sym.to_sbytes(bytearray(x, *rest))
    if x is None:
        return SBytes([], 'bytearray')
    if isinstance(x, (SBytes, bytes, bytearray, memoryview)):
        return sym.to_sbytes(x, 'bytearray')
    return bytes_from_iterable(x, 'bytearray')


def s_bytes(x=None, *rest):
    if rest:
        from . import trusted
        if isinstance(x, trusted.SText):
            return x.encode(*rest)
        return bytes(x, *rest)
    if x is None:
        return b''
    if isinstance(x, (SBytes, bytes, bytearray, memoryview)):
        return sym.to_sbytes(x, 'bytes')
    m = getattr(type(x), '__bytes__', None)
    if m is not None:
        return m(x)
    return bytes_from_iterable(x, 'bytes')


def s_repeat(x, *n):
    if n and isinstance(n[0], SYM):
        k = index_value(n[0])
        if isinstance(k, int):
            return List([x] * max(0, k))
        return List.of([Part(z3.If(k < 0, z3.IntVal(0), k), lambda j: x)])
    return itertools.repeat(x, *n)


def s_list(x=()):
    return List(x)


def s_tuple(x=()):
    return tuple(iter(toseq(x)))


def s_set(x=()):
    return set(iter(toseq(x)))


class Dict(dict):
    """a dictionary some of whose keys may be symbolic numbers: these are kept apart and looked up by comparison"""

    def __init__(self, *a, **k):
        self.serial = serial()
        self.extra = []
        if a:
            for key, v in (a[0].items() if hasattr(a[0], 'items') else iter_(a[0])):
                self._put(key, v)
        for key, v in k.items():
            self._put(key, v)

    def _find(self, key):
        """the stored key equal to the given one, as a one-element list"""
        if not isinstance(key, SYM):
            if dict.__contains__(self, key):
                return [key]
            if not isinstance(key, (int, float)):
                return []
        else:
            for x in builtins.list(dict.__iter__(self)):
                if sym.is_numlike(x) and key == x:
                    return [x]
        for x, _ in self.extra:
            if x is key or x == key:
                return [x]
        return []

    def _put(self, key, v):
        f = self._find(key)
        if f and any(x is f[0] for x, _ in self.extra):
            self.extra = [(x, v if x is f[0] else w) for x, w in self.extra]
        elif f or not isinstance(key, SYM):
            dict.__setitem__(self, f[0] if f else key, v)
        else:
            self.extra = self.extra + [(key, v)]

    def __setitem__(self, key, v):
        note(self, '[]')
        self._put(key, v)

    def __getitem__(self, key):
        f = self._find(key)
        if not f:
            raise KeyError(key)
        for x, v in self.extra:
            if x is f[0]:
                return v
        return dict.__getitem__(self, f[0])

    def __contains__(self, key):
        return bool(self._find(key))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __delitem__(self, key):
        note(self, '[]')
        f = self._find(key)
        if not f:
            raise KeyError(key)
        if any(x is f[0] for x, _ in self.extra):
            self.extra = [(x, v) for x, v in self.extra if x is not f[0]]
        else:
            dict.__delitem__(self, f[0])

    def pop(self, key, *default):
        if key in self:
            v = self[key]
            del self[key]
            return v
        if default:
            return default[0]
        raise KeyError(key)

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def update(self, *a, **k):
        note(self, '[]')
        for key, v in (a[0].items() if hasattr(a[0], 'items') else iter_(a[0])) if a else ():
            self._put(key, v)
        for key, v in k.items():
            self._put(key, v)

    def copy(self):
        return Dict(self)

    def keys(self):
        return builtins.list(dict.keys(self)) + [x for x, _ in self.extra] if self.extra else dict.keys(self)

    def values(self):
        return builtins.list(dict.values(self)) + [v for _, v in self.extra] if self.extra else dict.values(self)

    def items(self):
        return builtins.list(dict.items(self)) + self.extra if self.extra else dict.items(self)

    def __iter__(self):
        return iter(builtins.list(self.keys()))

    def __len__(self):
        return dict.__len__(self) + len(self.extra)

    def __bool__(self):
        return len(self) > 0

    def clear(self):
        note(self, '[]')
        dict.clear(self)
        self.extra = []

    def __eq__(self, o):
        if self.extra or getattr(o, 'extra', None):
            raise Unsupported('comparison of dictionaries with symbolic keys')
        return dict.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def mkdict(d):
    return Dict(d) if active() else dict(d)


def s_dict(*a, **k):
    if a and isinstance(a[0], (LazyComp, Seq, ListBase)):
        a = (builtins.list(iter(toseq(a[0]))),)
    return Dict(*a, **k) if active() else dict(*a, **k)


def s_iter(x, *rest):
    if rest:
        return iter(x, *rest)
    if isinstance(x, (LazyComp, Seq, ListBase, SBytes)):
        s = toseq(x)
        return GenSeq(s.parts) if not s.concrete() else iter(s.items())
    return iter(x)


def s_next(x, *rest):
    return next(x, *rest)


def s_zip(*a):
    ss = [toseq(x) for x in a]
    if all(s.concrete() for s in ss):
        return zip(*[s.items() for s in ss])
    ns = [s.length() for s in ss]
    n = ns[0]
    for m in ns[1:]:
        n = zmin(n, m)
    return GenSeq([Part(n, lambda j: tuple(s.elem(j) for s in ss))])


def s_enumerate(x, start=0):
    s = toseq(x)
    if s.concrete():
        return enumerate(s.items(), start)
    return GenSeq([Part(s.length(), lambda j: (mknum(_add(j, start)), s.elem(j)))])


def s_map(f, *its):
    if len(its) == 1:
        return LazyComp(f, its[0], None)
    return map(f, *[iter(toseq(i)) for i in its])


def s_filter(f, it):
    return LazyComp(lambda x: x, it, (lambda x: x) if f is None else f)


def s_chain(*its):
    parts = []
    for it in its:
        parts.extend(toseq(it).parts)
    return GenSeq(parts)


_reduce = []


def s_flatten(lists):
    """the elements of a sequence of unknown length of lists that all have the same known number of elements"""
    s = toseq(lists)
    if s.concrete():
        return s_chain(*s.items())
    parts = []
    for q in s.parts:
        if q.conc is not None:
            for l in q.conc:
                parts.extend(toseq(l).parts)
            continue
        j = P().fresh('probe')
        P().add(zb(Implies(q.n > 0, And(j >= 0, j < q.n))))
        n = toseq(quiet(q.elem, j)).length()
        if not isinstance(n, int):
            raise Unsupported('lists of different lengths, one after another')

        def each(i, q=q, n=n):
            if not same_int(toseq(q.elem(i)).length(), n):
                raise Unsupported('lists of different lengths, one after another')
        probe(q.n, each)
        if n:
            parts.append(Part(q.n if n == 1 else lit(q.n * n), lambda i, q=q, n=n: toseq(quiet(q.elem, sym.zdiv(i, n) if n > 1 else i)).elem(sym.zmod(i, n) if n > 1 else 0)))
    return GenSeq(parts)


def callstar(f, xs, **k):
    if active() and isinstance(xs, (ListBase, Seq, LazyComp)) and f is itertools.chain and not toseq(xs).concrete():
        return s_flatten(xs)
    return call(f, *xs, **k)


def s_reduce(f, it, *init):
    s = toseq(it)
    if active() and not init and not s.concrete():
        if not _reduce:
            from . import load
            _reduce.append(load.helper('pyreduce').reduce)
        l = List.of(s.parts)
        if P().branch(zb(l.length() <= 0)):
            raise TypeError('reduce() of empty sequence with no initial value')
        return _reduce[0](f, l)
    return functools.reduce(f, iter(s), *init)


def s_str(x='', *rest):
    from . import trusted
    if isinstance(x, trusted.SText):
        return x
    if isinstance(x, (SNum, SBig)) and not (isinstance(x, SNum) and (x.fl or x.d)):
        return trusted.digit(x)
    return str(x, *rest)


def s_repr(x):
    return repr(x)


def s_setattr(o, n, v):
    r = setattr(o, n, v)
    note(o, n)
    return r


def s_delattr(o, n):
    r = delattr(o, n)
    note(o, n)
    return r


def s_callable(x):
    return callable(x)


def s_ceil(x):
    return sym.ceil(x) if isinstance(x, SNum) else x if isinstance(x, SBig) else math.ceil(x)


def s_floor(x):
    return sym.floor(x) if isinstance(x, SNum) else x if isinstance(x, SBig) else math.floor(x)


def s_trunc(x):
    return sym.trunc(x) if isinstance(x, SYM) else math.trunc(x)


def s_divmod(a, b):
    if isinstance(a, SYM) or isinstance(b, SYM):
        return a // b, mod(a, b)
    return divmod(a, b)


def s_pow(a, b, *r):
    return a ** b if not r else pow(a, b, *r)


def s_hash(x):
    return hash(x)


def s_round(x, *r):
    if isinstance(x, SYM):
        raise Unsupported('round')
    return round(x, *r)


def s_int_from_bytes(data, byteorder='big', signed=False):
    b = sym.to_sbytes(data, 'bytes')
    n = b.blen()
    c = b.concrete()
    if c is not None:
        return int.from_bytes(c, byteorder, signed=signed)
    from . import trusted
    if signed:
        return trusted.int_of_bytes(b, n, byteorder, True)
    if byteorder == 'little':
        return SBig(lambda i: And(i < 8 * n, b.bit(i)), 8 * n if isinstance(n, int) else lit(8 * n))
    return SBig(lambda i: And(i < 8 * n, b.bit(_add(8 * (n - 1 - zdiv(i, 8)), zmod(i, 8)))),
                8 * n if isinstance(n, int) else lit(8 * n))


class SStream(object):
    """io.BytesIO (assumed contract)"""

    def __init__(self, initial=b''):
        self.serial = serial()
        if not isinstance(initial, (bytes, bytearray, SBytes)) and not hasattr(initial, 'tobytes'):
            raise TypeError('a bytes-like object is required')
        self.content = sym.to_sbytes(initial, 'bytes') if not hasattr(initial, 'itemsize') else sym.to_sbytes(initial.tobytes())
        self.pos = 0
        self.closed = False

    def _size(self):
        return self.content.blen()

    def read(self, size=-1):
        if size is None:
            size = -1
        n = index_value(size)
        note(self, 'pos')
        p = P()
        total = self._size()
        avail = _sub(total, self.pos)
        if (n < 0) if isinstance(n, int) else p.branch(n < 0):
            n = avail
        if (avail < 0) if isinstance(avail, int) else p.branch(avail < 0):
            return SBytes([], 'bytes')
        if not ((n <= avail) if isinstance(n, int) and isinstance(avail, int) else p.branch(zb(n <= avail))):
            n = avail
        end = _add(self.pos, n)
        r = SBytes(self.content.cut(self.pos, end), 'bytes')
        self.pos = end
        return r

    def write(self, b):
        if isinstance(b, str) or not isinstance(b, (bytes, bytearray, SBytes)):
            raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        note(self, 'content')
        note(self, 'pos')
        b = sym.to_sbytes(b, 'bytes')
        n = b.blen()
        total = self._size()
        if sym.same(self.pos, total) or P().prove(zb(self.pos == total)):
            self.content = SBytes(self.content.segs + b.segs, 'bytes')
            self.pos = _add(self.pos, n)
        else:
            p = P()
            if not p.prove(zb(_add(self.pos, n) <= total)):
                raise Unsupported('write in the middle of a stream')
            self.content = SBytes(self.content.cut(0, self.pos) + b.segs + self.content.cut(_add(self.pos, n), total), 'bytes')
            self.pos = _add(self.pos, n)
        return mknum(n)

    def tell(self):
        return mknum(self.pos)

    def seek(self, off, whence=0):
        note(self, 'pos')
        off = index_value(off)
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos = _add(self.pos, off)
        else:
            self.pos = _add(self._size(), off)
        return mknum(self.pos)

    def getvalue(self):
        return self.content.snapshot('bytes')

    def getbuffer(self):
        return self.getvalue()

    def close(self):
        self.closed = True

    def flush(self):
        pass


def s_partial(f, *a, **k):
    return functools.partial(f, *a, **k)


def s_deepcopy(x, memo=None):
    """copy.deepcopy: containers and objects of the repository are copied, everything symbolic is a value"""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)][1]

    def done(r):
        memo[id(x)] = (x, r)
        return r
    if isinstance(x, SBytes):
        return done(x.copy()) if x.kind != 'bytes' else x
    if isinstance(x, SYM) or isinstance(x, (type, builtins.int, builtins.str, builtins.float, builtins.bytes, type(None))):
        return x
    if isinstance(x, ListBase):
        seq = toseq(x)
        if type(x) is not List:
            raise Unsupported('deepcopy of ' + type(x).__name__)
        if seq.concrete():
            r = done(List([]))
            r._parts = [conc_part([s_deepcopy(y, memo) for y in seq.items()])]
            return r
        return done(List.of([q if q.conc is None else conc_part([s_deepcopy(y, memo) for y in q.conc]) for q in seq.parts]))
    if type(x) is builtins.list:
        r = done([])
        r.extend([s_deepcopy(y, memo) for y in x])
        return r
    if type(x) is tuple:
        return tuple(s_deepcopy(y, memo) for y in x)
    if type(x) is dict:
        r = done({})
        for k, v in x.items():
            r[k] = s_deepcopy(v, memo)
        return r
    if type(x).__module__.startswith('infi.') and not hasattr(type(x), '__deepcopy__') and not isinstance(x, (tuple, builtins.list, dict)):
        r = done(object.__new__(type(x)))
        S.births[id(r)] = (serial(), r)
        for k, v in vars(x).items():
            r.__dict__[k] = s_deepcopy(v, memo)
        return r
    return copy.deepcopy(x)


OVERRIDES = {}


def _reg(f, g):
    OVERRIDES[id(f)] = (f, g)


for _f, _g in [(len, s_len), (int, s_int), (float, s_float), (bool, s_bool), (builtins.range, s_range),
               (isinstance, s_isinstance), (type, s_type), (min, s_min), (max, s_max), (sum, s_sum), (any, s_any),
               (all, s_all), (sorted, s_sorted), (reversed, s_reversed), (bytearray, s_bytearray), (bytes, s_bytes),
               (builtins.list, s_list), (tuple, s_tuple), (set, s_set), (dict, s_dict), (iter, s_iter), (zip, s_zip),
               (enumerate, s_enumerate), (map, s_map), (filter, s_filter), (itertools.chain, s_chain), (itertools.repeat, s_repeat),
               (functools.reduce, s_reduce), (str, s_str), (setattr, s_setattr), (delattr, s_delattr),
               (math.ceil, s_ceil), (math.floor, s_floor), (math.trunc, s_trunc), (divmod, s_divmod),
               (io.BytesIO, SStream), (int.from_bytes, s_int_from_bytes), (round, s_round), (pow, s_pow),
               (copy.deepcopy, s_deepcopy)]:
    _reg(_f, _g)

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault', 'sort',
            'reverse', 'popitem'}


def call(f, *a, **k):
    if not active():
        return f(*a, **k)
    o = OVERRIDES.get(id(f))
    if o is not None and o[0] is f:
        return o[1](*a, **k)
    if isinstance(f, type):
        if f.__module__.startswith('infi.'):
            S.constructing.append(f)
            try:
                r = f(*a, **k)
            finally:
                S.constructing.pop()
            if id(r) not in S.births and type(r) is f:
                S.births[id(r)] = (serial(), r)
            return r
        return f(*a, **k)
    s = getattr(f, '__self__', None)
    if s is not None:
        t = type(s)
        if s is itertools.chain:
            return s_flatten(*a)
        if t in (builtins.list, dict, set):
            if f.__name__ in MUTATORS:
                note(s, '[]')
        elif t in (bytes, bytearray, str) and any(isinstance(x, SYM) for x in a):
            if t is str and f.__name__ == 'format':
                return '<formatted>'
            if t is str and f.__name__ == 'join':
                return trusted_join(s, a[0])
            if t in (bytes, bytearray):
                return getattr(sym.to_sbytes(s), f.__name__)(*a, **k)
        elif t is str and f.__name__ == 'join' and a and isinstance(a[0], (LazyComp, Seq, ListBase)):
            return trusted_join(s, a[0])
        elif f is int.from_bytes or (t is type and s is int and f.__name__ == 'from_bytes'):
            return s_int_from_bytes(*a, **k)
        elif t is int and f.__name__ == 'to_bytes':
            return sym.to_sbytes(f(*[x.__index__() if isinstance(x, SYM) else x for x in a], **k))
    return f(*a, **k)


def trusted_join(sep, it):
    from . import trusted
    return trusted.join(sep, it)


def getitem(a, b):
    if active():
        t = type(a)
        if isinstance(b, slice):
            if t in (builtins.list, tuple, str) and any(isinstance(x, SYM) for x in (b.start, b.stop, b.step)):
                b = slice(*[x.__index__() if isinstance(x, SYM) else x for x in (b.start, b.stop, b.step)])
            elif t in (bytes, bytearray):
                if any(isinstance(x, SYM) for x in (b.start, b.stop, b.step)):
                    return sym.to_sbytes(a)[b]
        elif isinstance(b, SYM):
            if isinstance(a, Dict):
                return a[b]
            if isinstance(a, dict):
                for key in builtins.list(a):
                    if b == key:
                        return a[key]
                raise KeyError(b)
            if t in (bytes, bytearray):
                return sym.to_sbytes(a)[b]
            if t in (builtins.list, tuple, str):
                return a[b.__index__()]
    return a[b]


def contains(c, x):
    if active():
        if isinstance(c, Dict):
            return x in c
        if isinstance(x, SYM) and isinstance(c, (dict, set, frozenset, builtins.list, tuple, type({}.keys()), type({}.values()))):
            for y in builtins.list(c):
                if x == y:
                    return True
            return False
        from . import trusted
        if isinstance(x, trusted.SText):
            raise Unsupported('membership of symbolic text')
        if isinstance(c, (SRange,)):
            raise Unsupported('membership in a symbolic range')
        if isinstance(c, builtins.range) and isinstance(x, SNum) and c.step == 1:
            return mkbool(And(x.n >= c.start << x.d, x.n < c.stop << x.d)) if x.d == 0 else (x in builtins.list(c))
        if isinstance(c, (LazyComp, Seq)):
            return any(x is y or bool(y == x) for y in c)
    return x in c


def mod(a, b):
    if active():
        if isinstance(a, str):
            if has_sym(b):
                return '<formatted>'
            return a % b
        if isinstance(a, (bytes, bytearray)) and has_sym(b):
            raise Unsupported('bytes formatting')
    return a % b


def has_sym(b):
    if isinstance(b, tuple):
        return any(has_sym(x) for x in b)
    if isinstance(b, dict):
        return any(has_sym(x) for x in b.values())
    return isinstance(b, SYM) or isinstance(b, (ListBase, Seq, LazyComp)) or proxy_type(b) is not None


# number * bytes / list
def _num_rmul(self, o):
    if isinstance(o, (bytes, bytearray)):
        return sym.repeat_bytes(sym.to_sbytes(o), self)
    if isinstance(o, (SBytes, ListBase)):
        return o * self
    if isinstance(o, builtins.list):
        return List(o) * self
    return sym.arith(o, self, 'mul')


def _num_mul(self, o):
    if isinstance(o, (bytes, bytearray, SBytes, ListBase, builtins.list)):
        return _num_rmul(self, o)
    return sym.arith(self, o, 'mul')


SNum.__rmul__ = _num_rmul
SNum.__mul__ = _num_mul
SBig.__rmul__ = _num_rmul
SBig.__mul__ = _num_mul


# --------------------------------------------------------------------------------------------------------------
# equality as an obligation

def equal(a, b, depth=0):
    """Condition under which a and b are the same value, for fresh (universally read) indices."""
    if a is b:
        return True
    if hasattr(type(a), '__same__'):
        return a.__same__(b)
    if type(a).__name__ in ('SText', 'SFloat') and hasattr(a, 'same'):
        return a.same(b)
    if type(b).__name__ in ('SText', 'SFloat') and hasattr(b, 'same'):
        return b.same(a)
    if isz(a) or isz(b):
        a, b = (mknum(x) if isinstance(x, z3.ArithRef) else mkbool(x) if isz(x) else x for x in (a, b))
    p = P()
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return Iff(a.c if isinstance(a, SBool) else a, b.c if isinstance(b, SBool) else b)
    if isinstance(a, SBig) or isinstance(b, SBig):
        if not (sym.is_numlike(a) and sym.is_numlike(b)):
            return False
        if isinstance(a, float) or isinstance(b, float):
            return False
        if (isinstance(a, int) and a < 0) or (isinstance(b, int) and b < 0):
            return False
        x, y = sym.as_big(a), sym.as_big(b)
        i = p.fresh('eqbit')
        p.add(i >= 0)
        return Iff(x.f(i), y.f(i))
    if sym.is_numlike(a) and sym.is_numlike(b):
        (n1, d1, f1), (n2, d2, f2) = sym.split(a), sym.split(b)
        if f1 != f2:
            return False
        d = max(d1, d2)
        return n1 * (1 << (d - d1)) == n2 * (1 << (d - d2))
    if isinstance(a, (SBytes, bytes, bytearray)) and isinstance(b, (SBytes, bytes, bytearray)):
        x, y = sym.to_sbytes(a), sym.to_sbytes(b)
        nx, ny = x.blen(), y.blen()
        # guarded, not assumed: an empty string has no position
        q = p.fresh('eqpos')
        return And(nx == ny, Implies(And(q >= 0, q < 8 * nx), Iff(x.bit(q), y.bit(q))))
    if isinstance(a, (ListBase, builtins.list)) and isinstance(b, (ListBase, builtins.list)):
        x, y = toseq(a), toseq(b)
        nx, ny = x.length(), y.length()
        if x.concrete() and y.concrete():
            if nx != ny:
                return False
            return And(*[equal(u, v, depth + 1) for u, v in zip(x.items(), y.items())])
        return And(nx == ny, seq_equal(x, y, nx))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and And(*[equal(u, v, depth + 1) for u, v in zip(a, b)])
    if type(a) is type(b) and hasattr(a, '__dict__') and depth < 4 and type(a).__module__.startswith('infi.'):
        da, db = a.__dict__, b.__dict__
        if set(da) != set(db):
            return False
        return And(*[equal(da[k], db[k], depth + 1) for k in da])
    if type(a) is type(b) and isinstance(a, (str, type(None), type, bool)):
        return a == b
    if proxy_type(a) is None and proxy_type(b) is None and not isinstance(a, ListBase):
        try:
            return bool(a == b)
        except Exception:
            return False
    return False


def seq_equal(x, y, n):
    p = P()
    if isinstance(n, int) and n == 0:
        return True
    if p.flip('seqeq-empty') == 1:
        p.assume(zb(n == 0))
        return True
    j = p.fresh('eqidx')
    p.assume(z3.And(j >= 0, zb(j < n)))
    index_term(j)
    return equal(x.elem(j), y.elem(j), 1)


# --------------------------------------------------------------------------------------------------------------
# loops

class Poison(object):
    """a variable whose value after havoc is not described by the invariant"""
    def _no(self, *a, **k):
        raise Unsupported('use of a loop variable the invariant does not describe')
    __getattr__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __eq__ = __lt__ = __iter__ = __len__ = _no
    __getitem__ = __call__ = __mul__ = __index__ = __int__ = __le__ = __gt__ = __ge__ = __hash__ = _no


POISON = Poison()
LOOPS = {}           # key -> invariant


def loop_contract(key):
    def deco(f):
        LOOPS[key] = f
        return f
    return deco


class Window(object):
    """contents of a byte array of which only the first n bits are described"""

    def __init__(self, n, bit):
        self.n, self.bit = n, bit

    def size(self):
        return lit(sym.zdiv(_add(self.n, 7), 8))

    def masked(self, bit):
        return SBytes([sym.Seg(self.size(), lambda p: And(p < self.n, bit(p)))], 'bytearray')

    def same(self, obj):
        return equal(SBytes([sym.Seg(obj.blen(), lambda p, o=obj.snapshot('bytes'): And(p < self.n, o.bit(p)))], 'bytearray'),
                     self.masked(self.bit))

    def data(self):
        junk = z3.Function(P().freshname('behind'), sym.INT, z3.BoolSort())
        return SBytes([sym.Seg(self.size(), lambda p: sym.If(p < self.n, self.bit(p), junk(z3.IntVal(p) if isinstance(p, int) else p)))],
                      'bytearray')


class Restart(BaseException):
    def __init__(self, key, why):
        BaseException.__init__(self, key, why)
        self.key, self.why = key, why


class NS(object):
    def __init__(self, d):
        self.__dict__.update(d)


class Loop(object):
    def __init__(self, key, names, it=None, is_for=True):
        self.key, self.names, self.is_for = key, names, is_for
        self.env = {}
        self.mode = None
        self.count = 0
        self.last_forks = None
        self._item = None
        if is_for:
            if not active():
                self.mode = 'native'
                self.iterator = iter(it)
            else:
                if isinstance(it, LazyComp) and toseq(it.src).concrete() and not isinstance(it.src, (Seq,)):
                    self.mode = 'native'
                    self.iterator = iter(it)
                elif not isinstance(it, (ListBase, SBytes, Seq, LazyComp)) and (isinstance(it, (builtins.list, tuple, dict, set, builtins.range, bytes, str)) or hasattr(type(it), '__next__')):
                    self.mode = 'native'
                    self.iterator = iter(it)
                else:
                    self.seq = toseq(it)
                    if self.seq.concrete():
                        self.mode = 'native'
                        # a list may grow while it is iterated
                        self.iterator = iter(live_iter(it)) if isinstance(it, ListBase) else iter(self.seq.items())
                    else:
                        self.n = self.seq.length()
        elif not active():
            self.mode = 'native'

    # -- variables
    def has(self, n):
        return n in self.env

    def get(self, n):
        return self.env[n]

    # -- protocol
    def head(self, loc):
        if self.mode == 'native':
            if not self.is_for and active():
                self._guard()
            return True
        if self.mode is None:
            self._start(loc)
            return True
        if self.mode == 'while':
            self.env = {}
            self._guard()
            return True
        if self.mode == 'unroll':
            self.env = {}
            self.count += 1
            return True
        # second arrival at the head of a cut loop: the invariant must be preserved
        self._step(loc)
        raise AssertionError

    def _guard(self):
        """loops without an invariant: iterations that needed decisions are bounded"""
        p = P()
        if self.last_forks is not None and p.decisions > self.last_forks:
            self.count += 1
            if self.count > p.run.unroll:
                p.run.mark_bounded('%s unrolled %d times' % (self.key, p.run.unroll))
                p.end()
        self.last_forks = p.decisions

    def _start(self, loc):
        p = P()
        inv = LOOPS.get(self.key)
        if inv is None or self.key in p.run.disabled or p.run.no_contracts:
            if self.is_for:
                self.mode = 'unroll'
                m = P().concretize_small(self.n, p.run.unroll)
                self.n = m
            else:
                self.mode = 'while'
                self._guard()
            return
        self.entry = NS(dict((k, snap(v)) for k, v in loc.items() if not k.startswith('__')))
        self.raw = NS(dict((k, v) for k, v in loc.items() if not k.startswith('__')))
        self.memo = {}
        p.run.loops_cut.add(self.key)
        try:
            st = self._inv(inv, 0)
        except (AttributeError, KeyError, TypeError, NameError, ValueError, AssertionError, IndexError) as e:
            raise Restart(self.key, 'invariant does not apply: %r' % (e,))
        if st is None:
            if self.is_for:
                self.mode = 'unroll'
                self.n = P().concretize_small(self.n, p.run.unroll)
            else:
                self.mode = 'while'
            return
        self.inv = inv
        self._compare(loc, st, 'base')
        self.mode = 'cut'
        if self.is_for and p.flip('loop') == 1:
            self.k = self.n
            p.assume(zb(self.n >= 0))
            self.exiting = True
        else:
            self.k = p.fresh('k')
            index_term(self.k)
            p.assume(self.k >= 0)
            if self.is_for:
                p.assume(zb(self.k < self.n))
            self.exiting = False
        st = self._inv(inv, self.k)
        self._apply(st)
        self.frame = Frame()
        self.allowed = [(o, a) for o, a, _ in st.get('heap', [])]
        S.frames.append(self.frame)

    def _inv(self, inv, k):
        self.kk = k
        self.havoc = self.mode == 'cut' and k is getattr(self, 'k', None)
        r = inv(self, k)
        return r

    def _compare(self, loc, st, what):
        p = P()
        for name, v in st.get('vars', {}).items():
            if name not in loc:
                raise Restart(self.key, 'variable %s of the invariant is not bound' % name)
            self._oblige(equal(loc[name], v), '%s:%s:%s' % (self.key, what, name))
        for obj, attr, v in st.get('heap', []):
            self._oblige(v.same(obj) if isinstance(v, Window) else equal(heap_get(obj, attr), v), '%s:%s:.%s' % (self.key, what, attr))
        for i, c in enumerate(st.get('facts', [])):
            if callable(c):
                # a quantified fact: proved for an arbitrary index
                if p.flip('fact') == 0:
                    continue
                js = [p.fresh('fj') for _ in builtins.range(arity(c))]
                for j in js:
                    index_term(j)
                self._oblige(c(*js), '%s:%s:forall%d' % (self.key, what, i))
                p.end()
            self._oblige(c, '%s:%s:fact%d' % (self.key, what, i))

    def _oblige(self, c, name):
        r = P().run.obligation(P(), c, name, internal=True)
        if r != 'ok':
            raise Restart(self.key, 'obligation %s is %s' % (name, r))

    def _apply(self, st):
        p = P()
        self.env = dict((n, POISON) for n in self.names)
        self.env.update(st.get('vars', {}))
        for obj, attr, v in st.get('heap', []):
            heap_set(obj, attr, v)
        for c in st.get('facts', []):
            if callable(c):
                (forall_fact if arity(c) == 1 else forall_fact2)(c)
            else:
                p.assume(c)

    def _step(self, loc):
        try:
            st = self._inv(self.inv, _add(self.k, 1))
        except (AttributeError, KeyError, TypeError, NameError, ValueError, AssertionError, IndexError) as e:
            raise Restart(self.key, 'invariant does not apply: %r' % (e,))
        for obj, attr in self.frame.writes:
            if not any(obj is o and (attr == a or a == '*') for o, a in self.allowed):
                if isinstance(obj, ListBase) and any(v is obj for v in loc.values()) and any(
                        loc.get(n) is obj for n in st.get('vars', {})):
                    continue
                if isinstance(obj, SBytes) and any(loc.get(n) is obj for n in st.get('vars', {})):
                    continue
                raise Restart(self.key, 'the loop writes %s of a %s, which the invariant does not mention'
                              % (attr, type(obj).__name__))
        self._compare(loc, st, 'step')
        P().end()

    def advance(self):
        if self.mode == 'native':
            try:
                self._item = next(self.iterator)
                return True
            except StopIteration:
                return False
        if self.mode == 'unroll':
            if self.count >= self.n:
                return False
            index_term(self.count)
            self._item = self.seq.elem(self.count)
            return True
        if self.exiting:
            if self.frame in S.frames:
                S.frames.remove(self.frame)
            return False
        self._item = self.seq.elem(self.k)
        return True

    def item(self):
        return self._item


def live_iter(lst):
    i = 0
    while i < len(lst):
        yield lst[i]
        i += 1


def snap(v):
    if isinstance(v, SBytes):
        return v.snapshot()
    if isinstance(v, ListBase):
        return List.of([q if q.conc is None else conc_part(q.conc) for q in v._parts])
    return v


def heap_get(obj, attr):
    if attr == 'data':
        return obj
    return getattr(obj, attr)


def heap_set(obj, attr, v):
    note(obj, attr)
    if attr == 'data':
        if isinstance(v, Window):
            v = v.data()
        if isinstance(obj, SBytes):
            obj.segs = list(sym.to_sbytes(v).segs)
        else:
            obj._parts = builtins.list(toseq(v).parts)
        return
    obj.__dict__[attr] = v


def loop(it, key, names):
    return Loop(key, names, it, True)


def wloop(key, names):
    return Loop(key, names, None, False)
