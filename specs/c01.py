"""C01: bit views read exactly the selected bits."""
from engine.specapi import unit

IO = 'buffer.io_buffer'


def view_over(V, cls='BitView', prefix='', draw=None):
    """an arbitrary view: (view, underlying bytes, first bit, number of bits)"""
    buf = V.bytearray(prefix + 'buf')
    draw = draw or V.pos
    stop = draw(prefix + 'stop', 0, V.len(buf))
    start = draw(prefix + 'start', 0, stop)
    orig = V.snapshot(buf)
    view = V.do(getattr(V.mod(IO), cls), buf, start, stop)
    s8 = V.bits_of(start)
    return view, buf, orig, s8, V.bits_of(stop) - s8


def check_window(V, name, got, orig, first, nbits):
    """got (bytes) is ceil(nbits/8) long, its low nbits are orig[first:], the rest is zero"""
    V.check(name + '-length', V.same_num(V.len(got), V.ceil_bytes(nbits)))
    V.all(name + '-bits', 8 * V.ceil_bytes(nbits),
          lambda p: V.iff(V.bit(got, p), V.and_(p < nbits, V.bit(orig, first + p))))


@unit('C01', 'to_bytes', reach=['bits-bits'])
def to_bytes(V):
    view, buf, orig, first, n = view_over(V)
    got = V.do(view.to_bytes)
    V.check('is-bytes', V.type(got) is bytes)
    check_window(V, 'bits', got, orig, first, n)
    V.check_eq('buffer-unchanged', buf, orig)


@unit('C01', 'to_bytearray', reach=['bits-bits'])
def to_bytearray(V):
    view, buf, orig, first, n = view_over(V)
    got = V.do(view.to_bytearray)
    V.check('is-bytearray', V.type(got) is bytearray)
    check_window(V, 'bits', got, orig, first, n)
    V.check_eq('buffer-unchanged', buf, orig)


@unit('C01', 'length')
def length(V):
    view, buf, orig, first, n = view_over(V)
    V.check('length', V.same_num(V.do(view.length), n / 8.0))
    V.check('len', V.same_num(V.len(view), V.ceil_bytes(n)))


@unit('C01', 'index', reach=['byte', 'no-bits'])
def index(V):
    view, buf, orig, first, n = view_over(V)
    i = V.pos('i')
    i8 = V.bits_of(i)
    o = V.call(lambda: view[i])
    at = V.ite(i8 < 0, V.max_(i8 + n, 0), i8)
    if V.truth(at < n):
        V.check('accepted', o.ok)
        if o.ok:
            V.check('is-int', V.is_int(o.value))
            V.all('byte', 10, lambda b: V.iff(V.bit(o.value, b), V.and_(b < 8, at + b < n, V.bit(orig, first + at + b))))
    else:
        V.check('refused-or-no-bits', True)
        if o.raised:
            V.check('index-error', o.raised_a(IndexError))
        else:
            V.all('no-bits', 10, lambda b: V.not_(V.bit(o.value, b)))
    V.check_eq('buffer-unchanged', buf, orig)


def clipped(V, x, n, default):
    """number of bits from the start of an n-bit window at which the slice bound x lies"""
    if x is None:
        return default
    x8 = V.bits_of(x)
    return V.ite(x8 < 0, V.max_(x8 + n, 0), V.min_(x8, n))


def sliced(V, view, first, n, a, b):
    """view[a:b] for arbitrary bounds: (result, its first bit, its number of bits), or None when refused"""
    lo, hi = clipped(V, a, n, 0), clipped(V, b, n, n)
    o = V.call(lambda: view[a:b])
    if V.truth(lo <= hi):
        V.check('accepted', o.ok)
        if o.ok:
            return o.value, first + lo, hi - lo
    elif o.ok:
        V.check('empty', V.same_num(V.do(o.value.length), 0))
    return None


def slice_unit(name, window, a_draw, b_draw):
    @unit('C01', 'slice-' + name, reach=['bits-bits'], targets=['BitView.__getitem__'])
    def slice_(V):
        view, buf, orig, first, n = view_over(V, draw=getattr(V, window))
        a = None if a_draw is None else getattr(V, a_draw)('a')
        b = None if b_draw is None else getattr(V, b_draw)('b')
        r = sliced(V, view, first, n, a, b)
        if r is not None:
            got, f, m = r
            V.check('length', V.same_num(V.do(got.length), m / 8.0))
            check_window(V, 'bits', V.do(got.to_bytes), orig, f, m)
        V.check_eq('buffer-unchanged', buf, orig)


slice_unit('fraction', 'eighth', 'eighth', 'eighth')
slice_unit('int', 'eighth', 'int', 'int')
slice_unit('int-window', 'int', 'eighth', 'int')
slice_unit('from', 'eighth', 'pos', None)
slice_unit('upto', 'eighth', None, 'pos')
slice_unit('all', 'pos', None, None)


@unit('C01', 'nested-slice', reach=['bits-bits'])
def nested_slice(V):
    """a slice is itself a view of the same bits, and slices again"""
    view, buf, orig, first, n = view_over(V, draw=V.eighth)
    a, b = V.eighth('a', 0), V.eighth('b', 0)
    c, d = V.eighth('c', 0), V.eighth('d')
    V.assume(V.and_(V.bits_of(b) <= n, a <= b))
    inner = V.do(lambda: view[a:b])
    r = sliced(V, inner, first + V.bits_of(a), V.bits_of(b) - V.bits_of(a), c, d)
    if r is not None:
        got, f, m = r
        check_window(V, 'bits', V.do(got.to_bytes), orig, f, m)
    V.check_eq('buffer-unchanged', buf, orig)


@unit('C01', 'slice-index', reach=['byte'], budget=120)
def slice_index(V):
    """an index into a slice addresses the bits of the slice only"""
    view, buf, orig, first, n = view_over(V, draw=V.eighth)
    a = V.eighth('a', 0)
    b = V.eighth('b', a)
    lo, hi = V.min_(V.bits_of(a), n), V.min_(V.bits_of(b), n)
    part = V.do(lambda: view[a:b])
    i = V.pos('i', 0)
    at = V.bits_of(i)
    V.assume(at < hi - lo)
    got = V.do(lambda: part[i])
    V.all('byte', 10, lambda k: V.iff(V.bit(got, k), V.and_(k < 8, at + k < hi - lo, V.bit(orig, first + lo + at + k))))


@unit('C01', 'iterate', reach=['items'])
def iterate(V):
    view, buf, orig, first, n = view_over(V)
    items = V.do(list, view)
    V.check('count', V.same_num(V.len(items), V.ceil_bytes(n)))
    V.all('items', 8 * V.ceil_bytes(n), lambda p: V.iff(V.bit(V.elem(items, V.div(p, 8)), V.modulo(p, 8)),
                                                        V.and_(p < n, V.bit(orig, first + p))))
    V.all('items-are-bytes', V.ceil_bytes(n), lambda j: V.and_(V.elem(items, j) >= 0, V.elem(items, j) < 256))
    V.check_eq('buffer-unchanged', buf, orig)


@unit('C01', 'to_bitstr', reach=['chars'])
def to_bitstr(V):
    view, buf, orig, first, n = view_over(V)
    s = V.encode_text(V.do(view.to_bitstr))
    V.check('count', V.same_num(V.len(s), n))
    # most significant bit first
    V.all('chars', n, lambda j: V.byte(s, j) == V.ite(V.bit(orig, first + n - 1 - j), 49, 48))
    V.check_eq('buffer-unchanged', buf, orig)


@unit('C01', 'of-bytes', reach=['bits-bits'])
def of_bytes(V):
    """a view over bytes (without bounds: over all of them) reads a copy"""
    data = V.bytes('data')
    whole = V.choice('whole', [False, True])
    if whole:
        view, first, n = V.do(V.mod(IO).BitView, data), 0, 8 * V.len(data)
    else:
        start = V.pos('start', 0, V.len(data))
        view, first = V.do(V.mod(IO).BitView, data, start), V.bits_of(start)
        n = 8 * V.len(data) - first
    V.check('length', V.same_num(V.do(view.length), n / 8.0))
    check_window(V, 'bits', V.do(view.to_bytes), data, first, n)


@unit('C01', 'bounds')
def bounds(V):
    """windows outside the buffer are refused"""
    buf = V.bytearray('buf')
    start, stop = V.pos('start'), V.pos('stop')
    s8, e8 = V.bits_of(start), V.bits_of(stop)
    o = V.call(V.mod(IO).BitView, buf, start, stop)
    V.check('accepted-iff-inside', V.iff(o.ok, V.and_(s8 >= 0, s8 <= e8, e8 <= 8 * V.len(buf))))
