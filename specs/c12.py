"""C12: the bit stream reads and writes exact bit runs."""
from engine.specapi import unit

BS = 'utils.bitstringio'


def stream(V, name='data'):
    """a bit stream over arbitrary bytes at an arbitrary position"""
    data = V.bytes(name)
    s = V.new(V.mod(BS).BitStringIO, data)
    pos = V.int('pos', 0)
    V.assume(pos <= 8 * V.len(data))
    s.position = pos
    return s, data, pos


def same(V, s, data, pos, name='unchanged'):
    V.check_eq(name, V.do(s.getvalue), data)
    V.check_eq(name + '-position', s.position, pos)


@unit('C12', 'read', reach=['value', 'refused'])
def read(V):
    s, data, pos = stream(V)
    n = V.int('n', 0)
    o = V.call(s.read, n)
    if V.truth(pos + n <= 8 * V.len(data)):
        V.check('accepted', o.ok)
        if o.ok:
            V.all_bits('value', o.value, n, lambda p: V.bit(data, pos + p))
            same(V, s, data, pos + n)
    else:
        V.check('refused', o.raised)
        same(V, s, data, pos)


@unit('C12', 'write', reach=['bits', 'refused'])
def write(V):
    """onto zeroed bits: the low n bits of the value, nothing else"""
    pos, n = V.int('pos', 0), V.int('n', 0)
    data = V.cleared(V.bytes('data'), pos, pos + n)
    V.assume(pos <= 8 * V.len(data))
    s = V.new(V.mod(BS).BitStringIO, data)
    s.position = pos
    v = V.bigint('v')
    o = V.call(s.write, v, n)
    if V.truth(pos + n <= 8 * V.len(data)):
        V.check('accepted', o.ok)
        if o.ok:
            got = V.do(s.getvalue)
            V.check('size', V.eq(V.len(got), V.len(data)))
            V.all('bits', 8 * V.len(data), lambda p: V.iff(V.bit(got, p), V.ite(V.and_(p >= pos, p < pos + n), V.bit(v, p - pos), V.bit(data, p))))
            V.check_eq('position', s.position, pos + n)
    else:
        V.check('refused', o.raised)
        same(V, s, data, pos)


@unit('C12', 'empty', reach=['zero'])
def empty(V):
    """a stream made for a number of bytes is that many zero bytes, at position 0"""
    n = V.int('n', 0, soft=64)
    s = V.new(V.mod(BS).BitStringIO, n)
    V.check_eq('zero', V.do(s.getvalue), V.zeros(n))
    V.check_eq('start', s.position, 0)


@unit('C12', 'seek', reach=['position'])
def seek(V):
    """any position inside the stream can be sought; the position is the only thing that changes"""
    data = V.bytes('data', 1)
    s = V.new(V.mod(BS).BitStringIO, data)
    at = V.int('at', 0)
    V.assume(at < 8 * V.len(data))
    V.do(s.seek, at)
    V.check_eq('position', s.position, at)
    V.check_eq('unchanged', V.do(s.getvalue), data)
    V.check_eq('read', V.do(s.read, 1), V.ite(V.bit(data, at), 1, 0))


@unit('C12', 'sequence', reach=['first', 'second'])
def sequence(V):
    """writes one after another are recovered by the same reads"""
    size, a, b = V.int('size', 0, soft=20), V.int('a', 0), V.int('b', 0)
    V.assume(a + b <= 8 * size)
    s = V.new(V.mod(BS).BitStringIO, size)
    v, w = V.bigint('v'), V.bigint('w')
    V.do(s.write, v, a)
    V.do(s.write, w, b)
    V.check_eq('position', s.position, a + b)
    t = V.new(V.mod(BS).BitStringIO, V.do(s.getvalue))
    x, y = V.do(t.read, a), V.do(t.read, b)
    V.all_bits('first', x, a, lambda p: V.bit(v, p))
    V.all_bits('second', y, b, lambda p: V.bit(w, p))


@unit('C12', 'history', sym=False, bounded='histories of up to 8 operations (each single operation is proved from an arbitrary state)')
def history(V):
    size = V.int('size', 1, 12)
    s = V.new(V.mod(BS).BitStringIO, size)
    bits, pos = [False] * (8 * size), 0
    for i in range(V.int('steps', 1, 8)):
        op = V.choice('op%d' % i, ['write', 'read', 'seek'])
        n = V.int('n%d' % i, 0, 40)
        if op == 'seek':
            pos = n % (8 * size)
            V.do(s.seek, pos)
            continue
        v = V.bigint('v%d' % i)
        o = V.call(s.write, v, n) if op == 'write' else V.call(s.read, n)
        if pos + n > 8 * size:
            V.check('refused', o.raised)
            continue
        V.check('accepted', o.ok)
        if op == 'write':
            # the documented use is onto zeroed bits; written bits accumulate
            if any(bits[pos:pos + n]):
                return
            for p in range(n):
                bits[pos + p] = bool((v >> p) & 1)
        else:
            V.check('read', o.value == sum(1 << p for p in range(n) if bits[pos + p]))
        pos += n
        V.check('state', s.getvalue() == bytes(sum(1 << j for j in range(8) if bits[8 * q + j]) for q in range(size)) and s.position == pos)
