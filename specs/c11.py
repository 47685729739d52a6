"""C11: numeric stream fields use the exact standard encoding."""
import sys
from engine.specapi import unit

INTS = [(s + o + 'Int%d' % b, s, o, b) for s in 'US' for o in 'BLN' for b in (8, 16, 32, 64)]
FLOATS = [(o + 'Float%d' % b, o, b) for o in 'BLN' for b in (32, 64)]
ORDER = {'B': 'big', 'L': 'little', 'N': sys.byteorder}


def marshal(V, name):
    """the type itself, or the bare marshal behind it"""
    m = V.mod('numeric_macros')
    return getattr(m, name) if V.choice('via', ['type', 'marshal']) == 'type' else getattr(m, name + 'Marshal')


def error(V):
    return V.mod('errors').InstructError


def size_is(V, m, v, n):
    V.check_eq('sizeof', V.do(m.sizeof, v), n)
    mm = V.do(m.min_max_sizeof)
    V.check('min_max', V.and_(V.eq(mm.min, n), V.eq(mm.max, n)))


def round_trip(V, m, v, want, n, how):
    """writes exactly `want`; reads v back out of the middle of a stream"""
    before, rest = V.bytes('before', 0, 4), V.bytes('rest', 0, 4)
    s = V.stream(b'')
    V.do(s.write, before)
    o = V.call(m.write_to_stream, v, s)
    V.check('accepted', o.ok)
    if not o.ok:
        return
    V.check_eq('encoding', V.written(s), V.cat(before, want))
    V.check_eq('string', V.do(m.write_to_string, v), want)
    t = V.stream(V.cat(want, rest))
    V.check_eq('back', V.do(m.create_from_stream, t), v)
    V.check_eq('rest', V.do(t.read), rest)
    if how:
        V.check_eq('from-string', V.do(m.create_from_string, want), v)
    size_is(V, m, v, n)


@unit('C11', 'integers', reach=['encoding', 'back', 'refused'])
def integers(V):
    name, sign, order, bits = V.choice('type', INTS)
    m = marshal(V, name)
    v = V.int('v')
    lo, hi = (0, (1 << bits) - 1) if sign == 'U' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    if V.truth(V.and_(v >= lo, v <= hi)):
        round_trip(V, m, v, V.encode_int(v, bits // 8, ORDER[order]), bits // 8, True)
    else:
        before = V.bytes('before', 0, 4)
        s = V.stream(b'')
        V.do(s.write, before)
        o = V.call(m.write_to_stream, v, s)
        V.check('refused', o.raised_a(error(V)))
        V.check_eq('nothing-written', V.written(s), before)


@unit('C11', 'integers-decode', reach=['value'])
def integers_decode(V):
    """every byte string of the width is read as the value it encodes"""
    name, sign, order, bits = V.choice('type', INTS)
    m = marshal(V, name)
    data, rest = V.bytes('data', n=bits // 8), V.bytes('rest')
    s = V.stream(V.cat(data, rest))
    v = V.do(m.create_from_stream, s)
    lo, hi = (0, (1 << bits) - 1) if sign == 'U' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    V.check('value', V.and_(v >= lo, v <= hi, V.eq(V.encode_int(v, bits // 8, ORDER[order]), data)))
    V.check_eq('rest', V.do(s.read), rest)


@unit('C11', 'floats', reach=['encoding', 'back'])
def floats(V):
    """every value the width can hold"""
    name, order, bits = V.choice('type', FLOATS)
    m = marshal(V, name)
    f = V.float('f', bits // 8)
    round_trip(V, m, f, V.encode_float(f, bits // 8, ORDER[order]), bits // 8, True)


@unit('C11', 'floats-outside', reach=['refused'])
def floats_outside(V):
    name, order, bits = V.choice('type', FLOATS)
    m = marshal(V, name)
    v = V.choice('v', [10 ** 400, -10 ** 400] + ([1e39, -1e39, 3.5e38, 1.7e308] if bits == 32 else []))
    s = V.stream(b'')
    o = V.call(m.write_to_stream, v, s)
    V.check('refused', o.raised_a(error(V)))
    V.check_eq('nothing-written', V.written(s), b'')


@unit('C11', 'not-a-number', reach=['refused'])
def not_a_number(V):
    """a value of another type writes nothing"""
    name = V.choice('type', [i[0] for i in INTS + FLOATS])
    m = marshal(V, name)
    v = V.choice('v', ['', 'x', b'\x01', None, [1]] + ([1.5] if 'Int' in name else []))
    s = V.stream(b'')
    o = V.call(m.write_to_stream, v, s)
    V.check('refused', o.raised)
    V.check_eq('nothing-written', V.written(s), b'')


@unit('C11', 'field', reach=['bytes', 'back'])
def field(V):
    """declared as a field of a struct"""
    m, S = V.mod('numeric_macros'), V.mod('struct').Struct
    name, sign, order, bits = V.choice('type', INTS)
    cls = type(S)('S', (S,), dict(_fields_=[getattr(m, name)('a'), m.UBInt8('z')]))
    v = V.int('v', *((0, (1 << bits) - 1) if sign == 'U' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)))
    got = V.do(cls.write_to_string, V.new(cls, a=v, z=0x5a))
    V.check_eq('bytes', got, V.cat(V.encode_int(v, bits // 8, ORDER[order]), b'\x5a'))
    back = V.do(cls.create_from_string, got)
    V.check('back', V.and_(V.eq(back.a, v), V.eq(back.z, 0x5a)))
