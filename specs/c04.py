"""C04: field location expressions resolve to exactly the denoted bits."""
from engine.specapi import unit
from .common import LIMIT

RR = 'buffer.reference.range'
RE = 'buffer.reference'
RG = 'buffer.range'


def late(V, value, numeric=True):
    """a reference whose value becomes known when it is resolved"""
    class Late(V.mod(RE).Reference):
        def evaluate(self, ctx):
            return ctx.known[self]

        def __safe_repr__(self):
            return 'late'
    r = V.new(Late, numeric)
    r.later = value
    return r


def resolve(V, ref, *lates):
    """resolved in two contexts: what the references are is asked each time"""
    ctx = V.new(V.mod(RE).Context)
    ctx.known = dict((x, x.later) for x in lates)
    return V.call(ref.deref, ctx)


def endpoint(V, name, kinds=('none', 'number', 'ref', 'fraction'), soft=20):
    """(endpoint, its value or None, references in it)"""
    kind = V.choice(name + '.kind', list(kinds))
    if kind == 'none':
        return None, None, []
    if kind == 'fraction':
        v = V.int(name, -8, 8 * LIMIT, soft=8 * soft) / 8.0
    else:
        v = V.int(name, 0 if kind == 'number' else -1, LIMIT, soft=soft)
    if kind == 'number':
        return v, v, []
    r = late(V, v)
    return r, v, [r]


def bytes_ref(V):
    return V.mod(RR).ByteRangeFactory()


def one(V, o, start, stop):
    """the one range of bits, given in bytes"""
    V.check('accepted', o.ok)
    if o.ok:
        V.check('type', V.type(o.value) is V.mod(RG).SequentialRangeList)
        V.check('single', V.eq(V.len(o.value), 1))
        r = V.elem(o.value, 0)
        V.check('start', V.same_num(r.start, start))
        V.check('stop', (r.stop is None) if stop is None else V.same_num(r.stop, stop) if r.stop is not None else False)


@unit('C04', 'byte', reach=['start', 'refused'])
def byte(V):
    x, v, refs = endpoint(V, 'i', ['number', 'ref', 'fraction'])
    o = resolve(V, V.do(bytes_ref(V).__getitem__, x), *refs)
    if V.truth(v < 0):
        V.check('refused', o.raised)
    else:
        one(V, o, v, v + 1)


@unit('C04', 'byte-slice', reach=['start', 'refused'])
def byte_slice(V):
    a, va, ra = endpoint(V, 'a')
    b, vb, rb = endpoint(V, 'b')
    lo = 0 if va is None else va
    bad = V.or_(lo < 0, False if vb is None else V.or_(vb < 0, vb < lo))
    made = V.call(bytes_ref(V).__getitem__, slice(a, b))
    if made.raised:
        V.check('refused', bad)
        return
    o = resolve(V, made.value, *(ra + rb))
    if V.truth(bad):
        V.check('refused', o.raised)
    else:
        one(V, o, lo, vb)


# -- any list of ranges

def one_range(V, E, kind):
    if kind == 'int':
        s, n = E.int('start', 0, LIMIT, soft=12), E.int('size', 0, LIMIT, soft=4)
    else:
        s, n = E.int('start', 0, 8 * LIMIT, soft=96) / 8.0, E.int('size', 0, 8 * LIMIT, soft=24) / 8.0
    return V.new(V.mod(RG).SequentialRange, s, s + n)


def ranges(V, name='r', kind=None):
    k = kind or V.choice('kind', ['int', 'float'])
    return V.mod(RG).SequentialRangeList(V.list(name, lambda E: one_range(V, E, k)))


def parent(V, l):
    """a location that resolves to the given ranges"""
    m = V.mod(RR)

    class Parent(m.BitContainer, m.RangeReference):
        def __init__(self):
            m.BitContainer.__init__(self)
            m.RangeReference.__init__(self)

        def evaluate(self, ctx):
            return l

        def __safe_repr__(self):
            return 'parent'
    return V.new(Parent)


@unit('C04', 'bit', reach=['position', 'refused'])
def bit(V):
    """a bit of any closed location"""
    l = ranges(V)
    x, v, refs = endpoint(V, 'i', ['number', 'ref'])
    o = resolve(V, V.do(parent(V, l).bits.__getitem__, x), *refs)
    n, at, piece, before = V.walk(l)
    if V.truth(V.or_(v < 0, v >= n)):
        V.check('refused', o.raised)
        return
    V.check('accepted', o.ok)
    if o.ok:
        V.check('single', V.eq(V.len(o.value), 1))
        r = V.elem(o.value, 0)
        V.check('position', V.eq(V.bits_of(r.start), at(v)))
        V.check('position', V.eq(V.bits_of(r.stop), at(v) + 1))


def same_bits(V, l, a, got, n):
    """the bits of got are the n bits of l that start with the a-th"""
    _, at, piece, before = V.walk(l)
    total, now, own, mine = V.walk(got)
    V.check('closed', V.not_(V.do(got.is_open)))
    first = piece(a)
    left = before(first)
    upto = lambda k: V.ite(k <= 0, 0, V.min_(before(first + k) - a, n))
    count = V.len(got)
    V.induction('parts', count, lambda k: V.eq(mine(k), upto(k)), every=True)
    V.check('size', V.eq(total, n))

    def position(q):
        for j in (own(q) + 1, first + own(q), first + own(q) + 1):
            V.index(j)
        return V.eq(now(q), at(a + q))
    V.all('bits', n, position)


def slice_of_bits(V, kind, how):
    """a slice of the bits of any closed location"""
    l = ranges(V, kind=kind)
    a, va, ra = endpoint(V, 'a', [how[0]])
    b, vb, rb = endpoint(V, 'b', [how[1]])
    lo = 0 if va is None else va
    n, at, piece, before = V.walk(l)
    made = V.call(parent(V, l).bits.__getitem__, slice(a, b))
    bad = V.or_(lo < 0, vb < lo, vb > n)
    if made.raised:
        V.check('refused', bad)
        return
    o = resolve(V, made.value, *(ra + rb))
    if V.truth(bad):
        V.check('refused', o.raised)
        return
    V.assume(vb > lo)       # no bits at all: nothing is said
    V.check('accepted', o.ok)
    if o.ok:
        same_bits(V, l, lo, o.value, vb - lo)


for _kind in ('int', 'float'):
    for _how in (('none', 'number'), ('number', 'ref'), ('ref', 'number')):
        unit('C04', 'bit-slice-%s-%s-%s' % ((_kind,) + _how), reach=['bits', 'size', 'refused'], budget=300)(
            lambda V, kind=_kind, how=_how: slice_of_bits(V, kind, how))


@unit('C04', 'bits-to-end', reach=['bits', 'size', 'refused'], budget=200)
def bits_to_end(V):
    """the bits of any closed location from some bit on"""
    l = ranges(V)
    a, va, ra = endpoint(V, 'a', ['number', 'ref'])
    n, at, piece, before = V.walk(l)
    made = V.call(parent(V, l).bits.__getitem__, slice(a, None))
    if made.raised:
        V.check('refused', va < 0)
        return
    o = resolve(V, made.value, *ra)
    if V.truth(V.or_(va < 0, va > n)):
        V.check('refused', o.raised)
        return
    V.assume(va < n)        # no bits at all: nothing is said
    V.check('accepted', o.ok)
    if not o.ok:
        return
    got = o.value
    total, now, own, mine = V.walk(got)
    first = piece(va)
    V.check('closed', V.not_(V.do(got.is_open)))
    V.induction('parts', V.len(got), lambda k: V.eq(mine(k), V.ite(k <= 0, 0, before(first + k) - va)), every=True)
    V.check('size', V.eq(total, n - va))

    def position(q):
        for j in (own(q) + 1, first + own(q), first + own(q) + 1):
            V.index(j)
        return V.eq(now(q), at(va + q))
    V.all('bits', n - va, position)


@unit('C04', 'open-byte-slice', reach=['start', 'stop', 'position'])
def open_byte_slice(V):
    """bits of a location with no end, at any distance"""
    s, vs, rs = endpoint(V, 's', ['none', 'number', 'ref'])
    base = 0 if vs is None else vs
    V.assume(base >= 0)
    where = V.do(bytes_ref(V).__getitem__, slice(s, None))
    a = V.int('a', 0, 8 * LIMIT, soft=99)
    kind = V.choice('bits', ['one', 'some', 'rest'])
    if kind == 'one':
        o = resolve(V, V.do(where.bits.__getitem__, a), *rs)
        b = a + 1
    elif kind == 'rest':
        o = resolve(V, V.do(where.bits.__getitem__, slice(a, None)), *rs)
        b = None
    else:
        b = V.int('b', 0, 8 * LIMIT, soft=99)
        V.assume(b >= a)
        o = resolve(V, V.do(where.bits.__getitem__, slice(a, b)), *rs)
    V.check('accepted', o.ok)
    if o.ok:
        V.check('single', V.eq(V.len(o.value), 1))
        r = V.elem(o.value, 0)
        V.check('start', V.eq(V.bits_of(r.start), 8 * base + a))
        if b is None:
            V.check('stop', r.stop is None)
        else:
            V.check('position', V.eq(V.bits_of(r.stop), 8 * base + b) if r.stop is not None else False)


def entry(V, name, kinds):
    k = V.choice(name + '.what', kinds)
    if k == 'index':
        i, v, r = endpoint(V, name, ['number', 'ref'])
        return i, [(v, v + 1)], r
    if k == 'slice':
        a, va, ra = endpoint(V, name + '.a', ['number', 'ref'])
        b, vb, rb = endpoint(V, name + '.b', ['number'])
        V.assume(va <= vb)
        return slice(a, b), [(va, vb)], ra + rb
    x, y = entry(V, name + '0', ['index']), entry(V, name + '1', ['slice'])
    return V.plist([x[0], y[0]]), x[1] + y[1], x[2] + y[2]


def listed(V, o, want, scale):
    V.check('accepted', o.ok)
    if o.ok:
        V.check('count', V.eq(V.len(o.value), len(want)))
        for j, (a, b) in enumerate(want):
            r = V.elem(o.value, j)
            V.check('start', V.eq(V.bits_of(r.start), a * scale))
            V.check('stop', V.eq(V.bits_of(r.stop), b * scale) if r.stop is not None else False)


@unit('C04', 'byte-list', reach=['start', 'stop'])
def byte_list(V):
    """a list of bytes, slices and lists of them: all of them, in the order given"""
    n = V.choice('count', [1, 2, 3])
    es = [entry(V, 'e%d' % j, ['index', 'slice', 'list'] if j == 1 else ['slice', 'index'] if j == 0 else ['index']) for j in range(n)]
    want = [p for e in es for p in e[1]]
    for a, b in want:
        V.assume(a >= 0)
    o = resolve(V, V.do(bytes_ref(V).__getitem__, V.plist([e[0] for e in es])), *[r for e in es for r in e[2]])
    listed(V, o, want, 8)


def any_list(V, f, what):
    """(list of any number of entries, [each one's range]) in the unit of f"""
    V.modular_refs()
    es = V.list('e', lambda E: (E.int('at', 0, LIMIT, soft=12), E.int('size', 0 if f == 'bytes' else 1, LIMIT, soft=6)), lo=1)
    if what == 'slice':
        return V.mapped(es, lambda e: slice(e[0], e[0] + e[1])), lambda j: (V.elem(es, j)[0], V.elem(es, j)[0] + V.elem(es, j)[1])
    if what == 'mixed':     # single ones by their index
        one = lambda e: e[0] if V.truth(V.eq(e[1], 1)) else slice(e[0], e[0] + e[1])
        return V.mapped(es, one), lambda j: (V.elem(es, j)[0], V.elem(es, j)[0] + V.elem(es, j)[1])
    l = V.mapped(es, lambda e: e[0] if what == 'index' else V.new(V.mod(RE).FuncCallReference, True, lambda: e[0]))
    want = lambda j: (V.elem(es, j)[0], V.elem(es, j)[0] + 1)
    return l, want


@unit('C04', 'nested-list-any', reach=['kept'])
def nested_list_any(V):
    """a list of any number of lists of two"""
    V.modular_refs()
    es = V.list('e', lambda E: (E.int('at', 0, LIMIT, soft=12), E.int('from', 0, LIMIT, soft=12), E.int('size', 1, LIMIT, soft=6)), lo=1)
    l = V.mapped(es, lambda e: V.plist([e[0], slice(e[1], e[1] + e[2])]))
    bits = V.choice('bits', [False, True])
    f = bytes_ref(V)
    o = resolve(V, V.do(f[0:2 * LIMIT].bits.__getitem__ if bits else f.__getitem__, l))
    V.check('accepted', o.ok)
    if o.ok:
        n, scale = V.len(l), 1 if bits else 8
        V.check('count', V.eq(V.len(o.value), 2 * n))

        def kept(j):
            r, s, e = V.elem(o.value, 2 * j), V.elem(o.value, 2 * j + 1), V.elem(es, j)
            return V.and_(V.eq(V.bits_of(r.start), scale * e[0]), V.eq(V.bits_of(r.stop), scale * (e[0] + 1)),
                          V.eq(V.bits_of(s.start), scale * e[1]), V.eq(V.bits_of(s.stop), scale * (e[1] + e[2])))
        V.all('kept', n, kept)


@unit('C04', 'sum-any', reach=['first', 'second'])
def sum_any(V):
    """the sum of two lists of any number of locations, or of such a list and one location"""
    V.modular_refs()
    gen = lambda E: E.int('at', 0, LIMIT, soft=12)
    x, y = V.list('x', gen, lo=1), V.list('y', gen, lo=1)
    f = bytes_ref(V)
    what = V.choice('what', ['lists', 'list first', 'list last', 'again'])
    if what == 'lists':
        ref = V.do(lambda: f[x] + f[y])
    elif what == 'list first':
        y = V.plist([V.int('last', 0, LIMIT, soft=12)])
        ref = V.do(lambda: f[x] + f[y[0]])
    elif what == 'list last':
        x = V.plist([V.int('first', 0, LIMIT, soft=12)])
        ref = V.do(lambda: f[x[0]] + f[y])
    else:       # a sum that was used in another
        p, q = f[x], f[y]
        V.do(lambda: p + q)
        V.do(lambda: q + p)
        ref = V.do(lambda: p + q)
    o = resolve(V, ref)
    V.check('accepted', o.ok)
    if o.ok:
        n, m = V.len(x), V.len(y)
        V.check('count', V.eq(V.len(o.value), n + m))
        is_at = lambda r, v: V.and_(V.same_num(r.start, v), V.same_num(r.stop, v + 1))
        V.all('first', n, lambda j: is_at(V.elem(o.value, j), V.elem(x, j)))
        V.all('second', m, lambda j: is_at(V.elem(o.value, n + j), V.elem(y, j)))


@unit('C04', 'byte-list-any', reach=['start', 'stop'])
def byte_list_any(V):
    """a list of any number of bytes or slices: all of them, in the order given"""
    l, want = any_list(V, 'bytes', V.choice('what', ['index', 'slice', 'ref', 'mixed']))
    o = resolve(V, V.do(bytes_ref(V).__getitem__, l))
    V.check('accepted', o.ok)
    if o.ok:
        V.check('type', V.type(o.value) is V.mod(RG).SequentialRangeList)
        n = V.len(l)
        V.check('count', V.eq(V.len(o.value), n))
        V.all('start', n, lambda j: V.same_num(V.elem(o.value, j).start, want(j)[0]))
        V.all('stop', n, lambda j: V.same_num(V.elem(o.value, j).stop, want(j)[1]))


@unit('C04', 'bit-list-any', reach=['start', 'stop'])
def bit_list_any(V):
    """any number of bits or slices of bits of one range, in any order"""
    l, want = any_list(V, 'bits', V.choice('what', ['index', 'slice', 'ref', 'mixed']))
    s = V.int('s', 0, LIMIT, soft=9)
    f = bytes_ref(V)
    o = resolve(V, V.do(f[s:s + 2 * LIMIT].bits.__getitem__, l))
    V.check('accepted', o.ok)
    if o.ok:
        n = V.len(l)
        V.check('count', V.eq(V.len(o.value), n))
        V.all('start', n, lambda j: V.eq(V.bits_of(V.elem(o.value, j).start), 8 * s + want(j)[0]))
        V.all('stop', n, lambda j: V.eq(V.bits_of(V.elem(o.value, j).stop), 8 * s + want(j)[1]))


@unit('C04', 'bit-list-out', reach=['refused'])
def bit_list_out(V):
    """a list of any number of bits or slices of bits, one of which passes the end of the range"""
    l, want = any_list(V, 'bits', V.choice('what', ['index', 'slice', 'ref', 'mixed']))
    s, size = V.int('s', 0, LIMIT, soft=9), V.int('size', 0, LIMIT, soft=1)
    w = V.int('w', 0, None, soft=2)
    V.assume(w < V.len(l))
    V.assume(want(w)[1] > 8 * size)
    f = bytes_ref(V)
    o = resolve(V, V.do(f[s:s + size].bits.__getitem__, l))
    if o.ok:
        V.elem(o.value, w)
    V.check('refused', o.raised)


@unit('C04', 'bit-list', reach=['start', 'stop', 'refused'])
def bit_list(V):
    """bits of bits listed in any order, inside one range"""
    s, size = V.int('s', 0, LIMIT, soft=9), V.int('size', 0, LIMIT, soft=9)
    where = V.do(bytes_ref(V).__getitem__, slice(s, s + size))
    n = V.choice('count', [1, 2, 3])
    es = [entry(V, 'e%d' % j, ['index', 'slice', 'list'] if j == 1 else ['slice', 'index'] if j == 0 else ['index']) for j in range(n)]
    want = [p for e in es for p in e[1]]
    for a, b in want:
        V.assume(V.and_(a >= 0, a < b))
    o = resolve(V, V.do(where.bits.__getitem__, V.plist([e[0] for e in es])), *[r for e in es for r in e[2]])
    if V.truth(V.or_(*[b > 8 * size for a, b in want])):
        V.check('refused', o.raised)
    else:
        listed(V, o, [(a + 8 * s, b + 8 * s) for a, b in want], 1)


def same_range(V, r, s):
    return V.and_(V.same_num(r.start, s.start), V.same_num(r.stop, s.stop))


@unit('C04', 'steps', reach=['positions'])
def steps(V):
    """slices that say their step: every position, or not accepted, and never other positions than those denoted"""
    a, b = V.choice('start', [None, 0, 1, 3]), V.choice('stop', [3, 4, 6])
    step = V.choice('step', [None, 1, 2, 3, -1, 0])
    where, scale = V.choice('in', [('bytes', 8), ('bits', 1)])
    late_start = V.choice('reference', [False, True]) and a is not None
    f = bytes_ref(V)
    r = late(V, a) if late_start else a
    make = f.__getitem__ if where == 'bytes' else f[0:9].bits.__getitem__
    o = V.call(make, slice(r, b, step))
    if o.ok:
        o = resolve(V, o.value, *([r] if late_start else []))
    if step in (None, 1):
        V.check('accepted', o.ok or a is None)      # a location has a beginning
    if o.ok:
        want = [p for x in range(*slice(a, b, step).indices(9)) for p in range(x * scale, (x + 1) * scale)]
        got = [p for x in (V.elem(o.value, j) for j in range(V.len(o.value))) for p in range(int(8 * x.start), int(8 * x.stop))]
        V.check('positions', got == want)


@unit('C04', 'sum', reach=['first', 'second'])
def sum_(V):
    """the sum of two locations: the ranges of the one, then those of the other"""
    k, q = ranges(V, 'r', 'int'), ranges(V, 'q', 'float')
    x, y = parent(V, k), parent(V, q)
    how = V.choice('how', ['sum', 'computed first', 'computed last', 'list'])
    if how == 'sum':
        ref = V.do(lambda: x + y)
    elif how == 'computed first':       # a function gives the ranges
        x = V.new(V.mod(RE).FuncCallReference, False, lambda: k)
        ref = V.do(lambda: x + y)
    elif how == 'computed last':
        y = V.new(V.mod(RE).FuncCallReference, False, lambda: q)
        ref = V.new(V.mod(RR).ListRangeReference, V.plist([x, y]))
    else:
        ref = V.new(V.mod(RR).ListRangeReference, V.plist([x, y]))
    o = resolve(V, ref)
    V.check('accepted', o.ok)
    if o.ok:
        n = V.len(k)
        V.check('type', V.type(o.value) is V.mod(RG).SequentialRangeList)
        V.check('count', V.eq(V.len(o.value), n + V.len(q)))
        V.all('first', n, lambda j: same_range(V, V.elem(o.value, j), V.elem(k, j)))
        V.all('second', V.len(q), lambda j: same_range(V, V.elem(o.value, n + j), V.elem(q, j)))


@unit('C04', 'sums', reach=['kept'])
def sums(V):
    """sums are flat: the order is that in which the locations were written"""
    at = [V.int('p%d' % j, 0, LIMIT, soft=9) for j in range(4)]
    f = bytes_ref(V)
    p = [V.do(f.__getitem__, i) for i in at]
    shape = V.choice('shape', ['left', 'right', 'both', 'mixed'])
    if shape == 'left':
        ref, n = V.do(lambda: (p[0] + p[1]) + p[2]), 3
    elif shape == 'right':
        ref, n = V.do(lambda: p[0] + (p[1] + p[2])), 3
    elif shape == 'both':
        ref, n = V.do(lambda: (p[0] + p[1]) + (p[2] + p[3])), 4
    else:
        ref, n = V.do(lambda: f[V.plist([at[0], at[1]])] + (p[2] + p[3])), 4
    first = resolve(V, ref)
    again = resolve(V, ref)
    for o in (first, again):
        V.check('accepted', o.ok)
        if o.ok:
            V.check('count', V.eq(V.len(o.value), n))
            for j in range(n):
                V.check('kept', V.and_(V.same_num(V.elem(o.value, j).start, at[j]), V.same_num(V.elem(o.value, j).stop, at[j] + 1)))


@unit('C04', 'anew', reach=['start', 'position'])
def anew(V):
    """endpoints are asked for at every resolution"""
    r = late(V, None)
    u, w = V.int('u', 0, LIMIT, soft=9), V.int('w', 0, LIMIT, soft=9)
    kind = V.choice('kind', ['byte', 'slice', 'bit', 'bits'])
    f = bytes_ref(V)
    whole = f[0:2 * LIMIT]
    ref = V.do(lambda: f[r] if kind == 'byte' else f[r:] if kind == 'slice' else whole.bits[r] if kind == 'bit' else whole.bits[r:r + 5])
    for v in (u, w):
        r.later = v
        o = resolve(V, ref, r)
        V.check('accepted', o.ok)
        if o.ok:
            V.check('single', V.eq(V.len(o.value), 1))
            x = V.elem(o.value, 0)
            if kind in ('byte', 'slice'):
                V.check('start', V.same_num(x.start, v))
            else:
                V.check('position', V.and_(V.eq(V.bits_of(x.start), v), V.eq(V.bits_of(x.stop), v + (1 if kind == 'bit' else 5))))
