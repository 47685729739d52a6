"""The harness interface on symbolic values."""
import importlib
import linecache
import z3

from . import sym, rt, trusted
from .sym import (SNum, SBig, SBool, SBytes, Seg, Unsupported, P, mknum, mkbool, lit, isz, zb, index_value, If, _add, Not, And)
from .specapi import Outcome


class Reject(BaseException):
    pass


PROXIES = ('SNum', 'SBig', 'SBool', 'SBytes', 'SInv', 'SText', 'SFloat', 'SJson', 'ListBase', "'List'", 'GenSeq', 'LazyComp',
           'SStream', 'Part', 'SRange', 'z3', 'ExprRef', 'ArithRef', 'BoolRef', 'NoneType is not iterable')


def engine_fault(e):
    """an exception caused by the proxies rather than by the code"""
    msg = str(e)
    if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and any(n in msg for n in PROXIES):
        return True
    if isinstance(e, (z3.Z3Exception, RecursionError, SystemError)):
        return True
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    if '/engine/' in fn:
        line = linecache.getline(fn, tb.tb_lineno).strip()
        if not line.startswith('raise') and isinstance(e, (TypeError, AttributeError, NameError, UnboundLocalError)):
            return True
    return False


def root_fault(e):
    seen = 0
    while e is not None and seen < 10:
        if engine_fault(e):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def term(x):
    """harness number -> z3 int / int"""
    return index_value(x)


class Draws(object):
    """named inputs; `idx` is None or the index term of a list element"""

    def __init__(self, prefix='', idx=None, rng=None):
        self.prefix, self.idx, self.rng = prefix, idx, rng

    def _nm(self, name):
        return self.prefix + name

    def _const(self, name, sort, **meta):
        nm = self._nm(name)
        if self.idx is None:
            t = z3.Const('in:' + nm, sort)
        else:
            t = z3.Function('in:' + nm, z3.IntSort(), sort)(self.idx if isz(self.idx) else z3.IntVal(self.idx))
        return nm, t

    def _rec(self, kind, nm, *payload):
        if self.idx is None:
            rt.S.draws.append((kind, nm) + payload)
        else:
            self.rng[nm] = (kind, nm) + payload

    def _assume(self, c):
        c = zb(c)
        if self.idx is None:
            P().assume(c)
        else:
            P().add(z3.Implies(zb(self.guard), c))

    # -- kinds
    def int(self, name, lo=None, hi=None, soft=None):
        nm, t = self._const(name, z3.IntSort())
        self._rec('int', nm, t if self.idx is None else z3.Function('in:' + nm, z3.IntSort(), z3.IntSort()))
        if lo is not None:
            self._assume(sym.compare(mknum(t), lo, 'ge'))
        if hi is not None:
            self._assume(sym.compare(mknum(t), hi, 'le'))
        return mknum(t)

    def eighth(self, name, lo=None, hi=None):
        nm, t = self._const(name, z3.IntSort())
        self._rec('eighth', nm, t if self.idx is None else z3.Function('in:' + nm, z3.IntSort(), z3.IntSort()))
        v = SNum(t, 3, True)
        if lo is not None:
            self._assume(sym.compare(v, lo, 'ge'))
        if hi is not None:
            self._assume(sym.compare(v, hi, 'le'))
        return v

    def bool(self, name):
        nm, t = self._const(name, z3.BoolSort())
        self._rec('bool', nm, t if self.idx is None else z3.Function('in:' + nm, z3.IntSort(), z3.BoolSort()))
        return mkbool(t)

    def bytes(self, name, lo=0, hi=None, n=None, kind='bytes', _bit=None):
        nm = self._nm(name)
        if n is None:
            _, ln = self._const(name + '.len', z3.IntSort())
            self._assume(ln >= (lo if not isinstance(lo, SNum) else lo.n))
            if hi is not None:
                self._assume(ln <= (hi if not isinstance(hi, SNum) else hi.n))
        else:
            ln = term(n)
        if self.idx is None:
            B = z3.Function('in:' + nm + '.bit', z3.IntSort(), z3.BoolSort())
            bit = lambda p: B(p if isz(p) else z3.IntVal(p))
            self._rec('bytes', nm, ln, B, _bit)
        else:
            B = z3.Function('in:' + nm + '.bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
            j = self.idx if isz(self.idx) else z3.IntVal(self.idx)
            bit = lambda p: B(j, p if isz(p) else z3.IntVal(p))
            lf = z3.Function('in:' + nm + '.len', z3.IntSort(), z3.IntSort()) if n is None else ln
            self._rec('bytes', nm, lf, B, _bit)
        f = bit if _bit is None else (lambda p: _bit(bit, p))
        return SBytes([Seg(ln, f, ('base', nm if self.idx is None else (nm, str(self.idx)), 0))], kind)

    def bytearray(self, name, lo=0, hi=None, n=None):
        return self.bytes(name, lo, hi, n, kind='bytearray')

    def bigint(self, name, maxbits=None):
        """any non-negative integer"""
        nm, w = self._const(name + '.width', z3.IntSort())
        self._assume(w >= 0)
        if maxbits is not None:
            self._assume(w <= term(maxbits))
        if self.idx is not None:
            raise Unsupported('bigint inside a list')
        B = z3.Function('in:' + self._nm(name) + '.bits', z3.IntSort(), z3.BoolSort())
        self._rec('big', self._nm(name), w, B)
        # the width is exact: the top bit is set
        return SBig(lambda i: sym.And(i < w, i >= 0, sym.Or(i == w - 1, B(i if isz(i) else z3.IntVal(i)))), w, exact=True)

    def float(self, name, size):
        b = self.bytes(name, n=size, _bit=None)
        return trusted.SFloat(b, size)

    def json(self, name):
        """any JSON value (see trusted.SJson)"""
        b = self.bytes(name + '.text', 1, _bit=lambda bit, p: sym.And(sym.Not(sym.zmod(p, 8) == 7), bit(p)))
        rt.S.draws.pop()
        for j in (0, b.blen() - 1):
            x = term(b.byte(j))
            P().add(zb(sym.And(x > 32, x < 127)))
        v = trusted.SJson(trusted.SText(b, 'ascii'))
        rt.S.ghost.setdefault('jsons', []).append(v)
        rt.S.ghost.setdefault('texts', []).append(v.text)
        return v

    def encode_json(self, v):
        return v.text.data.snapshot('bytes')

    def text(self, name, lo=0, hi=None, encoding='ascii'):
        e = trusted.norm(encoding)
        if e == 'ascii':
            b = self.bytes(name, lo, hi, _bit=lambda bit, p: sym.And(sym.Not(sym.zmod(p, 8) == 7), bit(p)))
            t = trusted.SText(b, e)
        elif e == 'iso8859-1':
            t = trusted.SText(self.bytes(name, lo, hi), e)
        else:
            # any text encodable so: its bytes are valid by construction
            b = self.bytes(name, lo, hi)
            t = trusted.SText(b, e)
        rt.S.draws.append(('text', self._nm(name), e))
        rt.S.ghost.setdefault('texts', []).append(t)
        return t


_listed = []


def listed_findings():
    if not _listed:
        import json
        import os
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
        _listed.append([f['id'] for f in json.load(open(p)).get('findings', [])] if os.path.exists(p) else [])
    return _listed[0]


class Elem(Draws):
    pass


class Value(object):
    """an opaque value with its encoding; values of one list are told apart by their index"""

    def __init__(self, source, idx, data):
        self.source, self.idx, self.data = source, idx, data

    def __deepcopy__(self, memo):
        return self             # what it is cannot be changed

    def __same__(self, other):
        if not isinstance(other, Value) or other.source != self.source:
            return False
        a, b = self.idx, other.idx
        return a == b if isinstance(a, int) and isinstance(b, int) else sym.zb(a == b)

    def _no(self, *a):
        raise Unsupported('an opaque value is not only passed on')
    __eq__ = __ne__ = __lt__ = __iter__ = __bool__ = __add__ = __getitem__ = __hash__ = __len__ = _no


class Joined(object):
    """the concatenation of the encodings of a list of values"""

    def __init__(self, seq):
        self.seq = seq
        self.ps = rt.prefix_sums(self.size, 0, seq.length())
        self.owner = z3.Function(P().freshname('owner'), z3.IntSort(), z3.IntSort())
        self.at = sym.memo(self._at)

    def size(self, j):
        return self.seq.elem(j).data.blen()

    def _at(self, b):
        """the value the byte b belongs to"""
        t = z3.IntVal(b) if isinstance(b, int) else b
        o = self.owner(t)
        n, ps = self.seq.length(), self.ps
        rt.index_term(o)
        ps.step(o)
        P().add(z3.Implies(zb(sym.And(t >= 0, t < ps.at(n))),
                           zb(sym.And(o >= 0, o < n, ps.at(o) <= t, t < ps.at(o + 1)))))
        return o

    def bit(self, q):
        o = self.at(sym.zdiv(q, 8))
        return self.seq.elem(o).data.bit(sym._sub(q, sym._mul8(self.ps.at(o))))

    def seg(self, k):
        """of the first k values"""
        return Seg(self.ps.at(k), self.bit)


def joined(seq):
    """one concatenation per list"""
    known = rt.S.ghost.setdefault('joined', [])
    for s, j in known:
        if s is seq or (len(s.parts) == 1 and len(seq.parts) == 1 and s.parts[0] is seq.parts[0]):
            return j
    j = Joined(seq)
    known.append((seq, j))
    return j


class V(Draws):
    symbolic = True

    def __init__(self, path, run):
        Draws.__init__(self)
        self.p, self.run = path, run

    # -- more inputs
    def choice(self, name, options):
        options = list(options)
        i = self.p.pick(len(options)) if len(options) > 1 else 0
        rt.S.draws.append(('choice', name, i))
        return options[i]

    def pos(self, name, lo=None, hi=None):
        """a byte position: an int or a float multiple of an eighth"""
        if self.choice(name + '.isfloat', [False, True]):
            return self.eighth(name, lo, hi)
        return self.int(name, lo, hi)

    def list(self, name, gen, lo=0, hi=None, n=None):
        """list of unknown length; gen(E) builds an element from per-element inputs"""
        if n is None:
            ln = z3.Const('in:' + name + '.len', z3.IntSort())
            P().assume(ln >= lo)
            if hi is not None:
                P().assume(ln <= hi)
        else:
            ln = term(n)
        reg = {}
        rt.S.draws.append(('list', name, ln, reg))
        if isinstance(ln, int):
            out = []
            for j in range(ln):
                E = Elem(name + '.', j, reg)
                E.guard = True
                out.append(gen(E))
            return rt.List(out)

        def elem(j):
            t = z3.IntVal(j) if isinstance(j, int) else j
            E = Elem(name + '.', t, reg)
            E.guard = True       # the elements past the end are irrelevant: any list extends to such a function
            return gen(E)
        return rt.List.of([rt.Part(ln, elem)])

    def values(self, name, lo=0, hi=None, n=None, minimum=0, maximum=None, bounded=False):
        """a list of opaque values and their encodings, of `minimum` to `maximum` bytes each; bounded: with bounds of
        its own on the size of each (.lo, .hi)"""
        def value(E):
            v = Value(name, E.idx, E.bytes('data', minimum, maximum))
            if bounded:
                n, below = mknum(v.data.blen()), E.int('below', 0, 1 << 40)
                v.lo = self.ite(below <= n, n - below, 0)
                v.hi = n + E.int('above', 0, 1 << 40)
            return v
        return self.list(name, value, lo, hi, n)

    def induction(self, name, n, fn, every=False):
        """fn(k) for 0 <= k <= n, by induction on k; fn(n) may be used from here on (every: each fn(k))"""
        self.check(name + ':base', fn(0))
        k = P().fresh('ind')
        kk = mknum(k)
        self.check(name + ':step', sym.mkbool(z3.Implies(zb(sym.And(k >= 0, k < term(n), zb(fn(kk)))), zb(fn(kk + 1)))))
        self.assume(fn(n))
        if every:
            rt.forall_fact(lambda j: z3.Implies(zb(sym.And(j >= 0, j <= term(n))), zb(fn(mknum(j)))))

    def value(self, name, minimum=0, n=None):
        """an opaque value and its encoding"""
        return Value(name, 0, self.bytes(name + '.data', minimum, n=n))

    def iterated(self, b):
        """a generator of the bytes"""
        return rt.LazyComp(lambda x: x, b, None)

    def mapped(self, values, fn):
        """[fn(v) for v in values], one object per value"""
        seq = rt.toseq(values)
        if seq.concrete():
            return rt.List([fn(v) for v in seq.items()])
        return rt.List.of([rt.Part(seq.length(), lambda j: fn(seq.elem(j)))])

    def number_of(self, v):
        return mknum(v.idx) if isz(v.idx) else v.idx

    def joined(self, values):
        seq = rt.toseq(values)
        if seq.concrete():
            return self.cat(*[v.data for v in seq.items()])
        return SBytes([joined(seq).seg(seq.length())], 'bytes')

    def span(self, values, k):
        """ghost: where the k-th value lies in the concatenation"""
        seq = rt.toseq(values)
        if not seq.concrete():
            joined(seq).ps.step(term(k))

    def put(self, obj, attr, v):
        rt.note(obj, attr)
        setattr(obj, attr, v)

    def plist(self, l):
        """python list of harness values -> list for the code"""
        return rt.List(l)

    # -- code under test
    def mod(self, name):
        return importlib.import_module('infi.instruct.' + name if name else 'infi.instruct')

    def call(self, fn, *a, **k):
        try:
            return Outcome(rt.call(fn, *a, **k))
        except Exception as e:
            if root_fault(e):
                raise Unsupported('%s: %s' % (type(e).__name__, str(e)[:160])).with_traceback(e.__traceback__)
            return Outcome(exc=e)

    def new(self, fn, *a, **k):
        """call without an obligation (preparation of inputs)"""
        return rt.call(fn, *a, **k)

    def do(self, fn, *a, **k):
        """call that must not raise"""
        o = self.call(fn, *a, **k)
        if o.raised:
            self.check('no-exception', False)
            self.p.end()
        return o.value

    def modular(self):
        """calls of BitView.to_bytes on whole bytes are replaced by its contract (proved in C01)"""
        contracts()
        rt.S.ghost['modular'] = True

    def modular_refs(self):
        """references of a list of unknown length are asked by the contract of Reference.deref for a reference that was
        not asked before (C08.once): the value is what evaluate gives"""
        cls = self.mod('buffer.reference').Reference
        if '_by_contract' not in cls.__dict__:
            code = cls.deref

            def deref(self, ctx):
                if rt.active() and rt.S.ghost.get('refs') and any(f.pure for f in rt.S.frames):
                    return self.evaluate(ctx)
                return code(self, ctx)
            cls.deref = deref
            cls._by_contract = True
        rt.S.ghost['refs'] = True

    # -- logic
    def finding(self, fid, cond):
        """the inputs of a recorded defect are left to the concrete run"""
        if fid in listed_findings():
            self.p.assume(Not(zb(truthy(cond))))

    def cap(self, x, limit):
        pass

    def reject(self):
        self.p.end()

    def assume(self, c):
        self.p.assume(zb(c))

    def check(self, name, c):
        if name not in self.run.reached:
            if self.p.check_sat() == z3.sat:
                self.run.reached.add(name)
        self.run.obligation(self.p, zb(c), name)

    def check_eq(self, name, a, b):
        self.check(name, rt.equal(a, b))

    def lemma(self, name, c):
        """an obligation about the inner state: it supports a proof, and is no failure by itself"""
        self.check(name, c)

    def all_bits(self, name, v, w, fn):
        """v is the non-negative integer of w bits whose bit p is fn(p)"""
        self.check(name + ':int', rt.s_isinstance(v, int))
        p = self.p
        if p.flip('all') == 1:
            q = p.fresh('any')
            p.assume(q >= 0)
            rt.index_term(q)
            self.check(name, sym.Iff(sym.zb(sym.bit_of_num(v, q)), sym.zb(sym.And(q < term(w), fn(mknum(q))))))
            p.end()

    def all(self, name, n, fn, lo=0):
        """for every lo <= p < n: fn(p)"""
        p = self.p
        n, lo = term(n), term(lo)
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 8:
            for i in range(lo, n):
                self.check(name, fn(i))
            return
        if p.flip('all') == 1:
            q = p.fresh('any')
            p.assume(z3.And(q >= lo, zb(q < n)))
            rt.index_term(q)
            self.check(name, fn(mknum(q)))
            p.end()

    def cases(self, name, n, fn):
        """like all, but fn(p) performs its own checks at an arbitrary 0 <= p < n"""
        p = self.p
        n = term(n)
        if p.flip('cases') == 1:
            q = p.fresh('any')
            p.assume(z3.And(q >= 0, zb(q < n)))
            rt.index_term(q)
            fn(mknum(q))
            p.end()

    def exists(self, name, n, fn):
        """fn(j) for some 0 <= j < n; the witness is looked for among the indices met so far"""
        n = term(n)
        out = []
        for t in rt.candidates():
            c = sym.And(t >= 0, t < n)
            if c is not False:
                out.append(sym.And(c, zb(truthy(fn(mknum(t))))))
        return mkbool(sym.Or(*out)) if out else False

    def exists2(self, name, n, fn):
        n = term(n)
        out = []
        for t in rt.candidates():
            for u in rt.candidates():
                if not t.eq(u):
                    out.append(sym.And(t >= 0, t < n, u >= 0, u < n, zb(truthy(fn(mknum(t), mknum(u))))))
        return mkbool(sym.Or(*out)) if out else False

    def and_(self, *a):
        return mkbool(sym.And(*[zb(truthy(x)) for x in a]))

    def or_(self, *a):
        return mkbool(sym.Or(*[zb(truthy(x)) for x in a]))

    def not_(self, a):
        return mkbool(sym.Not(zb(truthy(a))))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return mkbool(sym.Iff(zb(truthy(a)), zb(truthy(b))))

    def ite(self, c, a, b):
        c = zb(truthy(c))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(If(c, zb(a), zb(b)))
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        (n1, d1, f1), (n2, d2, f2) = sym.split(a), sym.split(b)
        d = max(d1, d2)
        x, y = n1 * (1 << (d - d1)), n2 * (1 << (d - d2))
        return mknum(z3.If(c, x if isz(x) else z3.IntVal(x), y if isz(y) else z3.IntVal(y)), d, f1 or f2)

    def eq(self, a, b):
        return mkbool(rt.equal(a, b))

    def same_num(self, a, b):
        """numeric equality regardless of int / float"""
        if not (sym.is_numlike(a) and sym.is_numlike(b)):
            return False
        r = sym.compare(a, b, 'eq') if not isinstance(a, (int, float)) else sym.compare(b, a, 'eq') if not isinstance(b, (int, float)) else a == b
        return r

    def min_(self, a, b):
        return self.ite(a <= b, a, b)

    def max_(self, a, b):
        return self.ite(a >= b, a, b)

    def truth(self, c):
        """fork on a condition"""
        return bool(truthy(c))

    # -- numbers
    def bits_of(self, x):
        """number of eighths (int) of a byte position"""
        n, d, _ = sym.split(x)
        if d > 3:
            raise Unsupported('finer than a bit')
        return mknum(n * (1 << (3 - d)))

    def bits_needed(self, v):
        return v.bit_length()

    def ceil_bytes(self, nbits):
        return mknum(sym.zdiv(_add(term(nbits), 7), 8))

    def div(self, a, k):
        return mknum(sym.zdiv(term(a), k))

    def modulo(self, a, k):
        return mknum(sym.zmod(term(a), k))

    def is_int(self, x):
        return rt.s_isinstance(x, int)

    def is_bytes(self, x):
        return rt.s_isinstance(x, (bytes, bytearray))

    def type(self, x):
        return rt.s_type(x)

    def concrete(self, x):
        return x.__index__() if isinstance(x, (SNum, SBig, SBool)) else x

    # -- data
    def len(self, x):
        return rt.s_len(x)

    def bit(self, x, p):
        p = term(p)
        if isinstance(x, (bytes, bytearray)):
            x = sym.to_sbytes(x)
        if isinstance(x, SBytes):
            return mkbool(x.bit(p))
        return mkbool(sym.bit_of_num(x, p))

    def byte(self, x, j):
        return sym.to_sbytes(x).byte(term(j))

    def trace(self, j):
        """ghost: follow an index through the filters and permutations the code applied"""
        t = term(j)
        t = z3.IntVal(t) if isinstance(t, int) else t
        rt.index_term(t)
        for m, _ in list(rt.S.ghost.get('maps', [])):
            t = m(t)
            rt.index_term(t)

    def elem(self, l, j):
        if not rt.toseq(l).concrete():
            rt.index_term(term(j))
        return rt.toseq(l).elem(term(j))

    def snapshot(self, x):
        return rt.snap(sym.to_sbytes(x) if isinstance(x, (bytes, bytearray)) else x)

    def array(self, x):
        return SBytes(list(sym.to_sbytes(x).segs), 'bytearray')

    def cat(self, *a):
        segs = []
        for x in a:
            segs.extend(sym.to_sbytes(x).segs)
        return SBytes(segs, 'bytes')

    def sub(self, x, a, b):
        return SBytes(sym.to_sbytes(x).cut(term(a), term(b)), 'bytes')

    def cleared(self, x, lo, hi):
        """x with the bits lo <= p < hi zero"""
        s, lo, hi = sym.to_sbytes(x).snapshot(), term(lo), term(hi)
        return SBytes([Seg(s.blen(), lambda p: sym.And(Not(sym.And(p >= lo, p < hi)), s.bit(p)))], s.kind)

    def stripped(self, b, chars, left, right):
        return sym.strip_bytes(sym.to_sbytes(b), chars, left, right)

    def zeros(self, n):
        return SBytes([sym.zero_seg(term(n))], 'bytes')

    def fill(self, n, byte):
        return SBytes([sym.fill_seg(term(n), byte)], 'bytes')

    def encode_int(self, v, size, order='little'):
        """two's complement"""
        return sym.int_bytes(sym.split(v)[0] if isz(sym.split(v)[0]) else z3.IntVal(sym.split(v)[0]), size, order)

    def encode_text(self, t, encoding='ascii'):
        return sym.to_sbytes(t.encode(encoding)) if isinstance(t, str) else t.data.snapshot('bytes')

    def encode_float(self, f, size, order='little'):
        return f.data.snapshot('bytes') if order == 'little' else trusted.rev_bytes(f.data)

    def stream(self, data):
        return rt.SStream(sym.to_sbytes(data, 'bytes'))

    def written(self, stream):
        return stream.getvalue()

    def disjoint(self, ranges):
        """assumes that no two of the ranges share a bit; owner(p) is the range the bit p lies in, or -1"""
        d = rt.disjoint(ranges)
        return lambda p: mknum(d.at(term(p)))

    def walk(self, ranges):
        """(number of bits of the closed ranges, position of the q-th bit, index of its range, bits before a range) of a
        list of ranges walked in list order"""
        known = rt.S.ghost.setdefault('walks', [])
        seq = rt.toseq(ranges)
        w = next((w for s, w in known if len(s.parts) == len(seq.parts) and all(a is b for a, b in zip(s.parts, seq.parts))), None)
        if w is None:
            w = rt.Walk(seq)
            known.append((seq, w))
        return (mknum(w.before(w.n)), lambda q: mknum(w.at(term(q))), lambda q: mknum(w.piece(term(q))),
                lambda k: mknum(w.before(term(k))))

    def psum(self, n, fn, d=0):
        """prefix sums of fn(j) (non-negative, multiples of 2**-d): returns at(k)"""
        ps = rt.prefix_sums(lambda j: sym.scaled(fn(mknum(j)), d), d, term(n))
        return lambda k: mknum(ps.at(term(k)), d, d > 0)

    def index(self, t):
        rt.index_term(term(t))

    def fact_forall(self, fn):
        rt.forall_fact(lambda j: zb(fn(mknum(j))))


def contracts():
    cls = importlib.import_module('infi.instruct.buffer.io_buffer').BitView
    if hasattr(cls, '_by_contract'):
        return

    def wrap(name, kind):
        code = getattr(cls, name)

        def by_contract(self):
            if rt.active() and rt.S.ghost.get('modular'):
                c = content(self, cls)
                if c is not None and c[2] is not None:
                    return SBytes(c[2], kind)
            return code(self)
        setattr(cls, name, by_contract)
    wrap('to_bytes', 'bytes')
    cls._by_contract = True
    edits_by_contract(importlib.import_module('infi.instruct.buffer.io_buffer').BitAwareByteArray, cls)


def bit_position(x):
    """a known number of eighths, as bits"""
    s = sym.split(x)
    if s is None or s[1] > 3 or not (isinstance(s[0], int) or isz(s[0])):
        return None
    n = s[0] * (8 >> s[1])
    return lit(n) if isz(n) else n


def whole(*ns):
    return all(n % 8 == 0 if isinstance(n, int) else sym.P().prove(zb(sym.zmod(n, 8) == 0)) for n in ns)


def down(n):
    """bits -> whole bytes, term by term where possible"""
    if isinstance(n, int):
        return n // 8
    t = z3.simplify(n, som=True)
    out = 0
    for x in (t.children() if z3.is_add(t) else [t]):
        c, y = 1, x
        if z3.is_int_value(x):
            c, y = x.as_long(), 1
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.num_args() == 2:
            c, y = x.arg(0).as_long(), x.arg(1)
        if c % 8:
            return lit(sym.zdiv(n, 8))
        out = out + (c // 8) * y
    return lit(out)


def content(v, view):
    """what a value holds: (number of bits, bit, segments if whole bytes, its length is a float)"""
    if isinstance(v, view):
        a, b = bit_position(v.start), bit_position(v.stop)
        if a is None or b is None:
            return None
        if isinstance(v.buffer, view):
            inner = content(v.buffer, view)
            if inner is None:
                return None
            snap = SBytes(inner[2] if inner[2] is not None else
                          [Seg(down(_add(inner[0], 7)), lambda p: And(p < inner[0], inner[1](p)))], 'bytes')
        elif isinstance(v.buffer, (SBytes, bytes, bytearray)):
            snap = sym.to_sbytes(v.buffer, 'bytes')
        else:
            return None
        n = sym._sub(b, a)
        fl = sym.split(v.start)[2] or sym.split(v.stop)[2]
        segs = snap.cut(down(a), down(b)) if whole(a, b) else None
        return n, (lambda p: snap.bit(_add(p, a))), segs, fl
    if isinstance(v, (SBytes, bytes, bytearray)):
        snap = sym.to_sbytes(v, 'bytes')
        n = snap.blen()
        return sym._mul8(n), snap.bit, list(snap.segs), False
    return None


def edits_by_contract(cls, view):
    """edits at known positions of an array whose window starts at 0: by the contract proved in C02 (the bits of the
    window are those of the edited list; what lies behind the window is unspecified)"""
    code = {name: getattr(cls, name) for name in ('__setitem__', 'extend', 'zfill')}

    def applies(self):
        return (rt.active() and rt.S.ghost.get('modular') and type(self) is cls and isinstance(self.buffer, SBytes)
                and self.buffer.kind == 'bytearray' and isinstance(self.start, int) and self.start == 0
                and bit_position(self.stop) is not None)

    def edit(self, lo, hi, new, fl):
        n, at, segs, nfl = new
        old = self.buffer.snapshot('bytes')
        end = bit_position(self.stop)
        total = sym._add(sym._sub(end, sym._sub(hi, lo)), n)
        fl = fl or nfl or sym.split(self.stop)[2]
        rt.note(self, 'stop')
        self.buffer._mut()
        if segs is not None and whole(lo, hi, end):
            self.buffer.segs = old.cut(0, down(lo)) + list(segs) + old.cut(down(hi), down(end))
            self.stop = mknum(down(total), 0, fl)
            return
        junk = z3.Function(sym.P().freshname('behind'), z3.IntSort(), z3.BoolSort())
        mid = sym._add(lo, n)

        def bit(p):
            return sym.If(sym._lt(p, lo), old.bit(p),
                          sym.If(sym._lt(p, mid), at(sym._sub(p, lo)) if not below(p, lo) else False,
                                 sym.If(sym._lt(p, total), old.bit(sym._add(sym._sub(p, n), sym._sub(hi, lo))) if not below(p, mid) else False,
                                        junk(p if isz(p) else z3.IntVal(p)))))
        size = down(sym._add(total, 7))
        self.buffer.segs = [sym.Seg(size, bit)] if not (isinstance(size, int) and size == 0) else []
        if whole(total):
            self.stop = mknum(down(total), 0, fl)
        else:
            self.stop = mknum(total, 3, True)

    def below(p, lo):
        return isinstance(p, int) and isinstance(lo, int) and p < lo

    def setitem(self, key, value):
        if applies(self) and isinstance(key, slice) and key.step in (None, 1) and key.start is not None and key.stop is not None:
            a, b, new = bit_position(key.start), bit_position(key.stop), content(value, view)
            p = sym.P()
            if a is not None and b is not None and new is not None and p.prove(zb(And(0 <= a, a <= b))):
                end = bit_position(self.stop)
                a = a if p.branch(zb(a <= end)) else end
                b = b if p.branch(zb(b <= end)) else end
                return edit(self, a, b, new, sym.split(key.start)[2] or sym.split(key.stop)[2])
        return code['__setitem__'](self, key, value)

    def extend(self, other):
        if applies(self):
            new = content(other, view)
            if new is not None:
                end = bit_position(self.stop)
                return edit(self, end, end, new, False)
        return code['extend'](self, other)

    def zfill(self, length):
        if applies(self):
            n, end = bit_position(length), bit_position(self.stop)
            if n is not None:
                if sym.P().branch(zb(n > end)):
                    more = sym._sub(n, end)
                    edit(self, end, end, (more, lambda p: False, [sym.zero_seg(down(more))] if whole(more) else None,
                                          sym.split(length)[2]), False)
                return
        return code['zfill'](self, length)
    cls.__setitem__, cls.extend, cls.zfill = setitem, extend, zfill


def truthy(x):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, z3.BoolRef):
        return mkbool(x)
    if isinstance(x, SNum):
        return mkbool(x.n != 0)
    return bool(x)


# --------------------------------------------------------------------------------------------------------------
# counterexamples

def size_terms(draws):
    out = []
    for d in draws:
        if d[0] in ('bytes', 'big', 'list') and isz(d[2]):
            out.append(d[2])
    return out


def extract(draws, model):
    vals = {}

    def ev(t):
        if not isz(t):
            return t
        r = model.eval(t, model_completion=True)
        if z3.is_int_value(r):
            return r.as_long()
        return z3.is_true(r)

    def conc(d, idx=None):
        kind = d[0]
        ap = (lambda f, *a: f(*([z3.IntVal(idx)] + list(a)))) if idx is not None else (lambda f, *a: f(*a))
        if kind in ('int', 'eighth', 'bool'):
            return ev(ap(d[2])) if idx is not None else ev(d[2])
        if kind == 'bytes':
            n = d[2]
            if idx is not None and isinstance(n, z3.FuncDeclRef):
                n = ev(n(z3.IntVal(idx)))
            else:
                n = ev(n)
            n = max(0, min(n, 4096))
            bitf = lambda p: ap(d[3], z3.IntVal(p))
            if d[4] is not None:
                bitf2 = lambda p: d[4](bitf, p)
            else:
                bitf2 = bitf
            out = bytearray()
            for j in range(n):
                v = 0
                for i in range(8):
                    b = bitf2(8 * j + i)
                    b = b if isinstance(b, bool) else ev(b)
                    v |= int(b) << i
                out.append(v)
            return out.hex()
        if kind == 'big':
            w = max(0, min(ev(d[2]), 8192))
            v = 0
            for i in range(w):
                if i == w - 1 or ev(d[3](z3.IntVal(i))):
                    v |= 1 << i
            return v
        raise ValueError(kind)
    for d in draws:
        if d[0] == 'choice':
            vals[d[1]] = d[2]
        elif d[0] == 'text':
            continue
        elif d[0] == 'list':
            n = max(0, min(ev(d[2]), 64))
            vals[d[1] + '.len'] = n
            for j in range(n):
                for nm, sub in d[3].items():
                    vals['%s[%d]' % (nm, j)] = conc(sub, j)
        else:
            vals[d[1]] = conc(d)
    return vals
