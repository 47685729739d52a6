"""C06: integer fields of buffers encode and decode exactly, or refuse."""
from engine.specapi import unit

SE = 'buffer.serialize'
IO = 'buffer.io_buffer'
MA = 'buffer.macros'
WIDTHS = [1, 2, 4, 8]
ENDIANS = ['native', 'big', 'little', 'unspecified']


def order(endian):
    import sys
    return sys.byteorder if endian in ('native', 'unspecified') else endian


def fits(V, v, size, sign):
    if sign == 'signed':
        return V.and_(v >= -(1 << (8 * size - 1)), v < (1 << (8 * size - 1)))
    return V.and_(v >= 0, v < (1 << (8 * size)))


def view(V, data, extra=0):
    return V.do(V.mod(IO).BitView, data, 0, V.len(data))


def codec(V, pack, unpack, v, size, sign, endian):
    o = V.call(pack, v)
    if V.truth(fits(V, v, size, sign)):
        V.check('accepted', o.ok)
        if o.ok:
            V.check_eq('encoding', o.value, V.encode_int(v, size, order(endian)))
            rest = V.bytes('rest', 0, 3)
            back, n = V.do(unpack, V.new(V.mod(IO).BitView, V.cat(o.value, rest)))
            V.check_eq('back', back, v)
            V.check('consumed', V.same_num(n, size))
    else:
        V.check('refused', o.raised)


@unit('C06', 'fixed', reach=['encoding', 'back', 'refused'])
def fixed(V):
    """the packer and unpacker of integers, at the four struct widths"""
    size, sign, endian = V.choice('size', WIDTHS), V.choice('sign', ['signed', 'unsigned']), V.choice('endian', ENDIANS)
    v = V.int('v')
    s = V.mod(SE)
    kw = dict(byte_size=size if not V.choice('floatsize', [0, 1]) else float(size), sign=sign, endian=endian)
    codec(V, lambda x: s.pack_int(x, **kw), lambda b: s.unpack_int(b, **kw), v, size, sign, endian)


@unit('C06', 'fixed-decode', reach=['value'])
def fixed_decode(V):
    """every byte string of the width decodes to the integer it denotes and encodes back to itself"""
    size, sign, endian = V.choice('size', WIDTHS), V.choice('sign', ['signed', 'unsigned']), V.choice('endian', ENDIANS)
    data = V.bytes('data', n=size)
    s = V.mod(SE)
    kw = dict(byte_size=size, sign=sign, endian=endian)
    v, n = V.do(s.unpack_int, view(V, data), **kw)
    V.check('value', V.and_(fits(V, v, size, sign), V.eq(V.encode_int(v, size, order(endian)), data)))
    V.check_eq('encodes-back', V.do(s.pack_int, v, **kw), data)


@unit('C06', 'element-types', reach=['encoding', 'refused'])
def element_types(V):
    """the 32 named element types"""
    bits = V.choice('bits', [8, 16, 32, 64])
    sign = V.choice('sign', ['signed', 'unsigned'])
    pre, endian = V.choice('order', [('', 'native'), ('n_', 'native'), ('b_', 'big'), ('l_', 'little')])
    pack, unpack = getattr(V.mod(MA), pre + ('u' if sign == 'unsigned' else '') + 'int%d' % bits)
    codec(V, pack, unpack, V.int('v'), bits // 8, sign, endian)


def other_width(V):
    n = V.eighth('size', 0)
    V.cap(n, 200)
    for w in WIDTHS:
        V.assume(V.not_(V.same_num(n, w)))
    if V.choice('intsize', [False, True]):
        k = V.int('isize', 0)
        V.assume(V.same_num(k, n))
        n = k
    return n


@unit('C06', 'bits', reach=['bits', 'refused', 'back'])
def bits(V):
    """any other width: the unsigned bits, least significant first"""
    size = other_width(V)
    v = V.bigint('v')
    s = V.mod(SE)
    kw = dict(byte_size=size, sign=V.choice('sign', ['signed', 'unsigned']), endian=V.choice('endian', ENDIANS))
    n = V.bits_of(size)
    o = V.call(s.pack_int, v, **kw)
    if V.truth(V.bits_needed(v) <= n):
        if V.truth(n > 0):
            V.check('accepted', o.ok)
        if o.ok:
            V.check('length', V.same_num(V.do(o.value.length), size))
            got = V.do(o.value.to_bytes)
            V.check('size', V.eq(V.len(got), V.ceil_bytes(n)))
            V.all('bits', 8 * V.ceil_bytes(n), lambda p: V.iff(V.bit(got, p), V.bit(v, p)))
            back, m = V.do(s.unpack_int, V.new(V.mod(IO).BitView, got, 0, size), **kw)
            V.check('consumed', V.same_num(m, size))
            V.check_eq('back', back, v)
    else:
        V.check('refused', o.raised)


@unit('C06', 'bits-decode', reach=['value'])
def bits_decode(V):
    """reading such a width gives exactly the bits of the section, whatever follows it"""
    size = other_width(V)
    data = V.bytearray('data')
    start = V.eighth('start', 0, V.len(data))
    stop = V.eighth('stop', start, V.len(data))
    V.assume(start + size <= stop)
    kw = dict(byte_size=size, sign=V.choice('sign', ['signed', 'unsigned']), endian=V.choice('endian', ENDIANS))
    v, n = V.do(V.mod(SE).unpack_int, V.new(V.mod(IO).BitView, data, start, stop), **kw)
    V.check('consumed', V.same_num(n, size))
    first, w = V.bits_of(start), V.bits_of(size)
    V.all_bits('value', v, w, lambda p: V.bit(data, first + p))


@unit('C06', 'no-size', reach=['value', 'bits'])
def no_size(V):
    """without a declared width, a number takes the bits it needs, and reading takes exactly the bits there are"""
    u = V.bigint('u')
    V.assume(u > 0)
    stored = V.do(V.mod(SE).pack_int, u)
    V.check('length', V.eq(V.bits_of(V.do(stored.length)), V.bits_needed(u)))
    got = V.do(stored.to_bytes)
    V.all('bits', V.bits_needed(u), lambda p: V.iff(V.bit(got, p), V.bit(u, p)))
    data = V.bytearray('data')
    start = V.eighth('start', 0, V.len(data))
    stop = V.eighth('stop', start, V.len(data))
    first, w = V.bits_of(start), V.bits_of(stop) - V.bits_of(start)
    kw = dict(sign=V.choice('sign', ['signed', 'unsigned']), endian=V.choice('endian', ENDIANS))
    v, n = V.do(V.mod(SE).unpack_int, V.new(V.mod(IO).BitView, data, start, stop), **kw)
    V.check('consumed', V.eq(V.bits_of(n), w))
    V.all_bits('value', v, w, lambda p: V.bit(data, first + p))


@unit('C06', 'bits-negative', reach=['refused'])
def bits_negative(V):
    size = other_width(V)
    v = V.choice('v', [-1, -2, -127, -128, -300, -(1 << 40)])
    o = V.call(V.mod(SE).pack_int, v, byte_size=size, sign=V.choice('sign', ['signed', 'unsigned']), endian='native')
    V.check('refused', o.raised)


@unit('C06', 'field', reach=['bytes'])
def field(V):
    """declared fields: the sign, order and place of the declaration reach the codec"""
    m = V.mod('buffer')
    maker, sign, endian = V.choice('maker', [('int_field', 'signed', 'native'), ('uint_field', 'unsigned', 'native'),
                                             ('be_int_field', 'signed', 'big'), ('be_uint_field', 'unsigned', 'big'),
                                             ('le_int_field', 'signed', 'little'), ('le_uint_field', 'unsigned', 'little'),
                                             ('int_field', 'unsigned', 'big'), ('uint_field', 'unsigned', 'unspecified'),
                                             ('int_field', 'signed', 'unspecified'), ('uint_field', 'unsigned', 'little')])
    kw = {}
    if sign != ('unsigned' if 'uint' in maker else 'signed'):
        kw['sign'] = sign
    if endian != {'be': 'big', 'le': 'little'}.get(maker[:2], 'native'):
        kw['endian'] = endian
    size = V.choice('size', WIDTHS)
    at = V.choice('at', [0, 1, 3])
    cls = type(m.Buffer)('B', (m.Buffer,), dict(x=getattr(m, maker)(where=m.bytes_ref[at:at + size], **kw)))
    v = V.int('v')
    o = V.new(cls)
    o.x = v
    r = V.call(o.pack)
    if V.truth(fits(V, v, size, sign)):
        V.check('accepted', r.ok)
        if r.ok:
            V.check_eq('bytes', r.value, V.cat(V.zeros(at), V.encode_int(v, size, order(endian))))
            p = V.new(cls)
            V.do(p.unpack, r.value)
            V.check_eq('back', p.x, v)
    else:
        V.check('refused', r.raised)


@unit('C06', 'bit-field', reach=['bits'])
def bit_field(V):
    """declared fields of other widths"""
    m = V.mod('buffer')
    lo, n = V.choice('place', [(0, 1), (3, 5), (0, 12), (5, 14), (7, 24), (1, 40), (4, 63)])
    cls = type(m.Buffer)('B', (m.Buffer,), dict(x=getattr(m, V.choice('maker', ['int_field', 'be_uint_field', 'le_int_field']))(
        where=m.bytes_ref[0:16].bits[lo:lo + n])))
    v = V.bigint('v') if V.choice('sign', [0, 1]) == 0 else V.choice('negative', [-1, -5])
    o = V.new(cls)
    o.x = v
    r = V.call(o.pack)
    if V.truth(v >= 0) and V.truth(V.bits_needed(v) <= n):
        V.check('accepted', r.ok)
        if r.ok:
            data = r.value
            V.all('bits', 8 * V.len(data), lambda p: V.iff(V.bit(data, p), V.and_(p >= lo, p < lo + n, V.bit(v, p - lo))))
            p = V.new(cls)
            V.do(p.unpack, data)
            V.check_eq('back', p.x, v)
    else:
        V.check('refused', r.raised)


@unit('C06', 'options', reach=['refused'])
def options(V):
    """a sign, byte order or side that is not one of those defined is refused, on writing and on reading"""
    s = V.mod('buffer.serialize')
    size = V.choice('size', [1, 2, 4, 8])
    what = V.choice('what', ['sign', 'endian', 'float', 'justify', 'padding'])
    wrong = V.choice('wrong', ['other', '', None, 'Big', 'signed ', 7])
    view_ = V.new(V.mod('buffer.io_buffer').BitView, V.bytes('data', n=8))
    if what in ('sign', 'endian'):
        kw = dict(byte_size=size, sign='unsigned', endian='big')
        kw[what] = wrong
        pack, unpack, v = s.pack_int, s.unpack_int, V.int('v', 0, 127)
    elif what == 'float':
        size = V.choice('floats', [4, 8])
        kw = dict(byte_size=size, endian=wrong)
        pack, unpack, v = s.pack_float, s.unpack_float, 1.5
    else:
        kw = dict(byte_size=4, encoding='ascii', padding=b' ', strip=b"\0", justify='left')
        kw[what] = wrong if what == 'justify' else V.choice('paddings', [b'', b'  '])
        pack, unpack, v = s.pack_str, s.unpack_str, 'ab'
    V.check('refused', V.call(pack, v, **kw).raised)
    V.check('refused', V.call(unpack, view_, **kw).raised)
