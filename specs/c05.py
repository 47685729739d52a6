"""C05: scattering and gathering values over ranges is exact and reversible."""
from engine.specapi import unit
from .common import LIMIT

IO = 'buffer.io_buffer'
RG = 'buffer.range'


def one_range(V, E, kind):
    """a closed range, of any size"""
    if kind == 'int':
        s, n = E.int('start', 0, LIMIT, soft=12), E.int('size', 0, LIMIT, soft=4)
    else:
        s, n = E.int('start', 0, 8 * LIMIT, soft=96) / 8.0, E.int('size', 0, 8 * LIMIT, soft=24) / 8.0
    return V.new(V.mod(RG).SequentialRange, s, s + n)


def ranges(V, k=None):
    """a list of closed ranges, of any length"""
    k = k or V.choice('kind', ['int', 'float'])
    V.scale = 0 if k == 'int' else 3
    l = V.list('r', lambda E: one_range(V, E, k))
    return V.mod(RG).SequentialRangeList(l)


def sizes(V, l):
    """sums(k): number of bits of the first k ranges"""
    s = V.psum(V.len(l), lambda j: V.elem(l, j).stop - V.elem(l, j).start, V.scale)
    return lambda k: V.bits_of(s(k))


def value(V, kind):
    """(a value as packers return it, its bits)"""
    if kind in ('bytearray', 'bytes'):
        v = getattr(V, kind)('v', 0, LIMIT)
        orig = V.snapshot(v)
        return v, 8 * V.len(v), lambda p: V.bit(orig, p)
    b = V.bytearray('v', 0, LIMIT)
    orig = V.snapshot(b)
    stop = V.eighth('v.stop', 0, V.len(b))
    start = V.eighth('v.start', 0, stop) if kind == 'BitView' else 0
    first = V.bits_of(start)
    return V.new(getattr(V.mod(IO), kind), b, start, stop), V.bits_of(stop) - first, lambda p: V.bit(orig, first + p)


USES = [('bytearray', 'empty'), ('bytes', 'bytearray'), ('BitView', 'bytearray'), ('BitView', 'array'), ('BitAwareByteArray', 'array'),
        ('BitAwareByteArray', 'empty')]


def output(V, kind):
    """(output buffer, its bits)"""
    if kind == 'empty':
        return V.do(V.mod(IO).OutputBuffer), 0, lambda p: False
    b = V.bytearray('old', 0, LIMIT)
    orig = V.snapshot(b)
    if kind == 'array':
        stop = V.eighth('old.stop', 0, V.len(b))
        V.assume(stop > V.len(b) - 1)
        n = V.bits_of(stop)
        return V.do(V.mod(IO).OutputBuffer, V.new(V.mod(IO).BitAwareByteArray, b, 0, stop)), n, lambda p: V.bit(orig, p)
    o = V.do(V.mod(IO).OutputBuffer, b)
    return o, 8 * V.len(orig), lambda p: V.bit(orig, p)


def scattered(V, got, n0, old, n, at, l):
    """what an output buffer contains after the value was written to the ranges"""
    sums, owner = sizes(V, l), V.disjoint(l)
    count = V.len(l)
    total = V.bits_of(V.do(got.length))
    V.check('size', total >= n0)
    V.all('size', count, lambda j: V.bits_of(V.elem(l, j).stop) <= total)
    V.check('no-larger', V.or_(V.eq(total, n0), V.exists('stop', count, lambda j: V.eq(V.bits_of(V.elem(l, j).stop), total))))
    raw = V.do(got.to_bytes)
    V.check('bytes', V.eq(V.len(raw), V.ceil_bytes(total)))

    def piece(j):
        r = V.elem(l, j)
        a = V.bits_of(r.start)
        V.all('pieces', V.bits_of(r.stop) - a, lambda q: V.iff(V.bit(raw, a + q), at(sums(j) + q)))
    V.cases('piece', count, piece)
    V.all('elsewhere', 8 * V.len(raw), lambda p: V.or_(owner(p) >= 0, V.iff(V.bit(raw, p), V.and_(p < n0, old(p)))))


def scatter(V, kind):
    V.modular()
    l = ranges(V, kind)
    V.disjoint(l)
    use = V.choice('use', USES)
    out, n0, old = output(V, use[1])
    v, n, at = value(V, use[0])
    sums = sizes(V, l)
    o = V.call(out.set, v, l)
    if V.truth(sums(V.len(l)) > n):
        V.check('refused', o.raised)
        return
    V.check('accepted', o.ok)
    if o.ok:
        scattered(V, V.do(out.get), n0, old, n, at, l)


@unit('C05', 'scatter-bits', reach=['pieces', 'elsewhere', 'refused'], budget=300)
def scatter_bits(V):
    scatter(V, 'float')


@unit('C05', 'scatter-bytes', reach=['pieces', 'elsewhere', 'refused'], budget=300)
def scatter_bytes(V):
    scatter(V, 'int')


def source(V):
    """(input buffer, its bits)"""
    kind = V.choice('source', ['bytes', 'bytearray', 'view'])
    if kind != 'view':
        b = getattr(V, kind)('in', 0, LIMIT)
        orig = V.snapshot(b)
        return V.do(V.mod(IO).InputBuffer, b), 8 * V.len(b), lambda p: V.bit(orig, p)
    b = V.bytearray('in', 0, LIMIT)
    orig = V.snapshot(b)
    stop = V.eighth('in.stop', 0, V.len(b))
    start = V.eighth('in.start', 0, stop)
    first = V.bits_of(start)
    return V.do(V.mod(IO).InputBuffer, V.new(V.mod(IO).BitView, b, start, stop)), V.bits_of(stop) - first, lambda p: V.bit(orig, first + p)


@unit('C05', 'gather', reach=['pieces', 'size'])
def gather(V):
    """any ranges, overlapping or not; what lies past the end of the input is missing"""
    V.modular()
    l = ranges(V)
    src, n, at = source(V)
    count = V.len(l)
    start = lambda j: V.min_(V.bits_of(V.elem(l, j).start), n)
    size = lambda j: V.min_(V.bits_of(V.elem(l, j).stop), n) - start(j)
    sums = V.psum(count, size)
    if V.truth(count > 0):
        sums(1)
    V.check('length', V.eq(V.do(src.length), V.ceil_bytes(n)))
    got = V.do(src.get, l)
    V.check('size', V.same_num(V.do(got.length), sums(count) / 8.0))
    raw = V.do(got.to_bytes)
    V.check('bytes', V.eq(V.len(raw), V.ceil_bytes(sums(count))))

    def piece(j):
        a = start(j)
        V.all('pieces', size(j), lambda q: V.iff(V.bit(raw, sums(j) + q), at(a + q)))
    V.cases('piece', count, piece)
    V.all('padding', 8 * V.len(raw), lambda p: V.or_(p < sums(count), V.not_(V.bit(raw, p))))


def round_trip(V, kind):
    """reading back the ranges just written returns the value"""
    V.modular()
    l = ranges(V, kind)
    V.disjoint(l)
    use = V.choice('use', USES)
    out, _, _ = output(V, use[1])
    v, n, at = value(V, use[0])
    sums, count = sizes(V, l), V.len(l)
    V.assume(sums(count) <= n)
    V.do(out.set, v, l)
    written = V.do(out.get)
    total = V.bits_of(V.do(written.length))
    start = lambda j: V.min_(V.bits_of(V.elem(l, j).start), total)
    read = V.psum(count, lambda j: V.min_(V.bits_of(V.elem(l, j).stop), total) - start(j))
    V.induction('nothing-missing', count, lambda k: V.eq(read(k), sums(k)), every=True)
    back = V.do(V.do(V.mod(IO).InputBuffer, written).get, l)
    raw = V.do(back.to_bytes)
    V.check('size', V.same_num(V.do(back.length), sums(count) / 8.0))

    def piece(j):
        r = V.elem(l, j)
        V.all('back', V.bits_of(r.stop) - V.bits_of(r.start), lambda q: V.iff(V.bit(raw, sums(j) + q), at(sums(j) + q)))
    V.cases('piece', count, piece)


@unit('C05', 'round-trip-bits', reach=['back', 'size'], budget=400)
def round_trip_bits(V):
    round_trip(V, 'float')


@unit('C05', 'round-trip-bytes', reach=['back', 'size'], budget=400)
def round_trip_bytes(V):
    round_trip(V, 'int')


@unit('C05', 'open', reach=['written', 'read'])
def open_range(V):
    """a range without an end is not written or read"""
    SR = V.mod(RG).SequentialRange
    l = V.mod(RG).SequentialRangeList(V.plist([SR(V.int('a', 0, 3), 4)] * V.choice('more', [0, 1]) + [SR(V.int('start', 4, LIMIT), None)]))
    out, n, old = output(V, 'bytearray')
    V.check('written', V.call(out.set, V.bytes('v'), l).raised)
    src, _, _ = source(V)
    V.check('read', V.call(src.get, l).raised)


@unit('C05', 'construct', reach=['refused', 'kept'])
def construct(V):
    """an output buffer is made of a bytearray or bit-aware byte array (or nothing) and nothing else"""
    O = V.mod(IO).OutputBuffer
    kind = V.choice('kind', ['bytes', 'view', 'list', 'none'])
    if kind == 'none':
        V.check('kept', V.same_num(V.do(V.do(V.do(O).get).length), 0))
        return
    b = V.bytes('b', 0, LIMIT)
    o = V.call(O, b if kind == 'bytes' else V.new(V.mod(IO).BitView, b) if kind == 'view' else V.plist([1]))
    V.check('refused', o.raised)
