"""C02: editing a bit-aware byte array equals editing its list of bits."""
from engine.specapi import unit
from specs.c01 import clipped

IO = 'buffer.io_buffer'


class Bits(object):
    """a sequence of bits: at(p) for 0 <= p < n"""

    def __init__(self, n, at, buf=None, orig=None):
        self.n, self.at, self.buf, self.orig = n, at, buf, orig


def array(V, draw=None, prefix=''):
    """an arbitrary bit-aware array: (array, its bits)"""
    buf = V.bytearray(prefix + 'buf')
    draw = draw or V.eighth
    stop = draw(prefix + 'stop', 0, V.len(buf))
    start = draw(prefix + 'start', 0, stop)
    orig = V.snapshot(buf)
    arr = V.do(V.mod(IO).BitAwareByteArray, buf, start, stop)
    first = V.bits_of(start)
    return arr, Bits(V.bits_of(stop) - first, lambda p: V.bit(orig, first + p), buf, orig)


def viewed(V, name='v', cls='BitView'):
    """an arbitrary bit view as a value"""
    buf = V.bytearray(name + '.buf')
    stop = V.eighth(name + '.stop', 0, V.len(buf))
    start = V.eighth(name + '.start', 0, stop)
    first = V.bits_of(start)
    orig = V.snapshot(buf)
    return V.do(getattr(V.mod(IO), cls), buf, start, stop), Bits(V.bits_of(stop) - first, lambda p: V.bit(orig, first + p), buf, orig)


def raw(V, name='v', kind='bytes'):
    b = getattr(V, kind)(name)
    o = V.snapshot(b)
    return b, Bits(8 * V.len(b), lambda p: V.bit(o, p), b, o)


def replaced(V, bits, lo, hi, new):
    """bits with [lo, hi) replaced by new"""
    return Bits(bits.n - (hi - lo) + new.n,
                lambda p: V.or_(V.and_(p < lo, bits.at(p)),
                                V.and_(p >= lo, p < lo + new.n, new.at(p - lo)),
                                V.and_(p >= lo + new.n, bits.at(p - new.n + (hi - lo)))))


def same_bits(V, arr, want):
    V.check('length', V.same_num(V.do(arr.length), want.n / 8.0))
    got = V.do(arr.to_bytes)
    V.check('size', V.same_num(V.len(got), V.ceil_bytes(want.n)))
    V.all('bits', 8 * V.ceil_bytes(want.n), lambda p: V.iff(V.bit(got, p), V.and_(p < want.n, want.at(p))))


def untouched(V, *operands):
    """operands keep their bytes, those outside their window included"""
    for bits in operands:
        V.check_eq('operand', bits.buf, bits.orig)


def section(V, a, b, n):
    return clipped(V, a, n, 0), clipped(V, b, n, n)


NOTHING = Bits(0, lambda p: False)


def setting(name, value, a_draw='eighth', b_draw='eighth', window='eighth', budget=240):
    @unit('C02', 'set-slice-' + name, reach=['bits'], budget=budget)
    def set_slice(V):
        arr, bits = array(V, getattr(V, window))
        a, b = getattr(V, a_draw)('a'), getattr(V, b_draw)('b')
        lo, hi = section(V, a, b, bits.n)
        v, new = value(V)
        V.assume(lo <= hi)

        def assign():
            arr[a:b] = v
        V.do(assign)
        same_bits(V, arr, replaced(V, bits, lo, hi, new))
        untouched(V, new)


def iterated(V):
    """bytes known one by one, without a length"""
    b, new = raw(V)
    return V.iterated(b), new


setting('view', viewed)
setting('iterator', iterated)
setting('bytes', raw)
setting('array', lambda V: viewed(V, cls='BitAwareByteArray'))
setting('bytes-int-keys', raw, 'int', 'int', 'int')


def integer(V):
    return V.bigint('v')


@unit('C02', 'set-slice-int', reach=['bits', 'refused'])
def set_slice_int(V):
    arr, bits = array(V)
    a, b = V.eighth('a'), V.eighth('b')
    lo, hi = section(V, a, b, bits.n)
    V.assume(lo <= hi)
    v = integer(V)
    int_into(V, arr, bits, lo, hi, v, lambda: arr.__setitem__(slice(a, b), v))


def int_into(V, arr, bits, lo, hi, v, op):
    o = V.call(op)
    if V.truth(V.bits_needed(v) <= hi - lo):
        if V.truth(hi > lo):
            V.check('accepted', o.ok)
        if o.ok:
            same_bits(V, arr, replaced(V, bits, lo, hi, Bits(hi - lo, lambda p: V.bit(v, p))))
        else:
            same_bits(V, arr, bits)
    else:
        V.check('refused', o.raised)
        same_bits(V, arr, bits)


@unit('C02', 'set-index-int', reach=['bits', 'refused'])
def set_index_int(V):
    arr, bits = array(V)
    i = V.pos('i', 0)
    at = V.bits_of(i)
    V.assume(at < bits.n)
    v = integer(V)
    int_into(V, arr, bits, at, V.min_(at + 8, bits.n), v, lambda: arr.__setitem__(i, v))


@unit('C02', 'negative', reach=['bits'])
def negative(V):
    arr, bits = array(V)
    a = V.eighth('a', 0)
    v = V.choice('v', [-1, -2, -128, -256, -(1 << 70)])
    how = V.choice('how', ['slice', 'index', 'insert'])
    if how == 'slice':
        b = V.eighth('b', a)
        o = V.call(lambda: arr.__setitem__(slice(a, b), v))
    elif how == 'index':
        o = V.call(lambda: arr.__setitem__(a, v))
    else:
        o = V.call(lambda: arr.insert(a, v))
    V.check('refused', o.raised)
    same_bits(V, arr, bits)


@unit('C02', 'set-index-bytes', reach=['bits'])
def set_index_bytes(V):
    arr, bits = array(V)
    i = V.pos('i', 0)
    at = V.bits_of(i)
    V.assume(at < bits.n)
    v, new = raw(V)

    def assign():
        arr[i] = v
    V.do(assign)
    same_bits(V, arr, replaced(V, bits, at, V.min_(at + 8, bits.n), new))


def deleting(name, a_draw, b_draw, window='eighth'):
    @unit('C02', 'del-slice-' + name, reach=['length'])
    def del_slice(V):
        arr, bits = array(V, getattr(V, window))
        a = None if a_draw is None else getattr(V, a_draw)('a')
        b = None if b_draw is None else getattr(V, b_draw)('b')
        lo, hi = section(V, a, b, bits.n)
        V.assume(lo <= hi)

        def delete():
            del arr[a:b]
        V.do(delete)
        same_bits(V, arr, replaced(V, bits, lo, hi, NOTHING))


deleting('fraction', 'eighth', 'eighth')
deleting('int', 'int', 'int', 'int')
deleting('mixed', 'int', 'eighth', 'int')
deleting('from', 'eighth', None)
deleting('all', None, None, 'pos')


@unit('C02', 'del-index', reach=['bits'])
def del_index(V):
    arr, bits = array(V, V.pos)
    i = V.pos('i', 0)
    at = V.bits_of(i)
    V.assume(at < bits.n)

    def delete():
        del arr[i]
    V.do(delete)
    same_bits(V, arr, replaced(V, bits, at, V.min_(at + 8, bits.n), NOTHING))


def inserting(name, value, draw='eighth', window='eighth'):
    @unit('C02', 'insert-' + name, reach=['bits'])
    def insert(V):
        arr, bits = array(V, getattr(V, window))
        i = getattr(V, draw)('i')
        at = clipped(V, i, bits.n, 0)
        v, new = value(V)
        V.do(arr.insert, i, v)
        same_bits(V, arr, replaced(V, bits, at, at, new))
        untouched(V, new)


inserting('view', viewed)
inserting('bytes', raw)
inserting('bytes-int', raw, 'int', 'int')


@unit('C02', 'insert-int', reach=['bits', 'refused'])
def insert_int(V):
    """an inserted integer occupies one byte"""
    arr, bits = array(V)
    i = V.pos('i')
    at = clipped(V, i, bits.n, 0)
    v = integer(V)
    o = V.call(arr.insert, i, v)
    if V.truth(V.bits_needed(v) <= 8):
        V.check('accepted', o.ok)
        same_bits(V, arr, replaced(V, bits, at, at, Bits(8, lambda p: V.bit(v, p))))
    else:
        V.check('refused', o.raised)
        same_bits(V, arr, bits)


@unit('C02', 'extend-view', reach=['bits'])
def extend_view(V):
    arr, bits = array(V, V.pos)
    v, new = viewed(V, cls=V.choice('cls', ['BitView', 'BitAwareByteArray']))
    V.do(arr.extend, v)
    same_bits(V, arr, replaced(V, bits, bits.n, bits.n, new))
    untouched(V, new)


@unit('C02', 'extend-bytes', reach=['bits'])
def extend_bytes(V):
    arr, bits = array(V)
    v, new = raw(V)
    V.do(arr.extend, v)
    same_bits(V, arr, replaced(V, bits, bits.n, bits.n, new))
    untouched(V, new)


@unit('C02', 'append', reach=['bits'])
def append(V):
    arr, bits = array(V, V.pos)
    v = V.int('v', 0, 255)
    V.do(arr.append, v)
    same_bits(V, arr, replaced(V, bits, bits.n, bits.n, Bits(8, lambda p: V.bit(v, p))))


@unit('C02', 'iadd', reach=['bits'])
def iadd(V):
    arr, bits = array(V)
    v, new = viewed(V)

    def op():
        x = arr
        x += v
        return x
    V.check('same-object', V.do(op) is arr)
    same_bits(V, arr, replaced(V, bits, bits.n, bits.n, new))


@unit('C02', 'add', reach=['bits'])
def add(V):
    arr, bits = array(V)
    v, new = viewed(V, cls=V.choice('cls', ['BitView', 'BitAwareByteArray']))
    r = V.do(lambda: arr + v)
    same_bits(V, r, replaced(V, bits, bits.n, bits.n, new))
    same_bits(V, arr, bits)
    same_bits(V, v, new)
    untouched(V, bits, new)


@unit('C02', 'radd', reach=['bits'])
def radd(V):
    arr, bits = array(V)
    v, new = viewed(V)
    r = V.do(lambda: v + arr)
    same_bits(V, r, replaced(V, new, new.n, new.n, bits))
    same_bits(V, arr, bits)
    same_bits(V, v, new)
    untouched(V, bits, new)


@unit('C02', 'zfill', reach=['bits'])
def zfill(V):
    arr, bits = array(V, V.pos)
    size = V.pos('size')
    V.cap(size, 1000)
    V.do(arr.zfill, size)
    grown = V.max_(V.bits_of(size) - bits.n, 0)
    same_bits(V, arr, replaced(V, bits, bits.n, bits.n, Bits(grown, lambda p: False)))


@unit('C02', 'self', reach=['bits'])
def self_(V):
    """the value may be the array itself"""
    arr, bits = array(V)
    own_value(V, arr, bits, arr, bits)


@unit('C02', 'self-view', reach=['bits'])
def self_view(V):
    """the value may be a view of the bytes of the array"""
    arr, bits = array(V)
    stop = V.eighth('v.stop', 0, V.len(bits.orig))
    start = V.eighth('v.start', 0, stop)
    first = V.bits_of(start)
    v = V.new(V.mod(IO).BitView, bits.buf, start, stop)
    own_value(V, arr, bits, v, Bits(V.bits_of(stop) - first, lambda p: V.bit(bits.orig, first + p)))


def own_value(V, arr, bits, v, new):
    how = V.choice('how', ['extend', 'insert', 'set', 'add'])
    if how == 'extend':
        V.do(arr.extend, v)
        same_bits(V, arr, replaced(V, bits, bits.n, bits.n, new))
    elif how == 'insert':
        i = V.eighth('i', 0)
        at = clipped(V, i, bits.n, 0)
        V.do(arr.insert, i, v)
        same_bits(V, arr, replaced(V, bits, at, at, new))
    elif how == 'set':
        a = V.eighth('a', 0)
        b = V.eighth('b', a)
        lo, hi = section(V, a, b, bits.n)

        def assign():
            arr[a:b] = v
        V.do(assign)
        same_bits(V, arr, replaced(V, bits, lo, hi, new))
    else:
        r = V.do(lambda: arr + v)
        same_bits(V, r, replaced(V, bits, bits.n, bits.n, new))
        same_bits(V, arr, bits)


@unit('C02', 'two-edits', reach=['bits'], sym=False, cases=1500)
def two_edits(V):
    """a longer history of edits (concrete only; each single edit is proved from an arbitrary state)"""
    arr, bits = array(V, V.pos)
    for step in range(V.int('steps', 1, 5)):
        op = V.choice('op%d' % step, ['set', 'del', 'insert', 'extend', 'zfill', 'index'])
        v, new = (viewed if V.choice('kind%d' % step, [0, 1]) else raw)(V, 'v%d' % step)
        a = V.pos('a%d' % step, 0, bits.n / 8.0)
        b = V.pos('b%d' % step, a, bits.n / 8.0)
        lo, hi = V.bits_of(a), V.bits_of(b)
        if op == 'set':
            V.do(arr.__setitem__, slice(a, b), v)
            bits = frozen(V, replaced(V, bits, lo, hi, new))
        elif op == 'del':
            V.do(arr.__delitem__, slice(a, b))
            bits = frozen(V, replaced(V, bits, lo, hi, NOTHING))
        elif op == 'insert':
            V.do(arr.insert, a, v)
            bits = frozen(V, replaced(V, bits, lo, lo, new))
        elif op == 'extend':
            V.do(arr.extend, v)
            bits = frozen(V, replaced(V, bits, bits.n, bits.n, new))
        elif op == 'zfill':
            V.do(arr.zfill, b)
        elif lo < bits.n:
            x = V.int('x%d' % step, 0, 1)
            V.do(arr.__setitem__, a, x)
            m = min(8, bits.n - lo)
            bits = frozen(V, replaced(V, bits, lo, lo + m, Bits(m, lambda p: V.bit(x, p))))
        same_bits(V, arr, bits)


def frozen(V, bits):
    l = [bits.at(p) for p in range(bits.n)]
    return Bits(len(l), lambda p: 0 <= p < len(l) and l[p])
