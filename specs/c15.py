"""C15: stream arrays write every element once, in order, and read them back."""
from engine.specapi import unit
from .common import LIMIT, NUMBERS, element, number, one, struct


def io(V, m, values, got, head):
    """what was written reads back, and nothing more is consumed"""
    V.check_eq('bytes', got, V.cat(head, V.joined(values)))
    rest = V.bytes('rest', 0, 3)
    t = V.stream(V.cat(got, rest))
    back = V.do(m.create_from_stream, t)
    V.check_eq('rest', V.do(t.read), rest)
    V.check_eq('back', back, values)


def writes(V, m, values):
    """what is appended to a stream, or None when refused"""
    before = V.bytes('before', 0, 3)
    s = V.stream(b'')
    V.do(s.write, before)
    o = V.call(m.write_to_stream, values, s)
    if o.raised:
        return None
    got = V.written(s)
    V.check_eq('kept', V.sub(got, 0, V.len(before)), before)
    return V.sub(got, V.len(before), V.len(got))


@unit('C15', 'fixed', reach=['bytes', 'back', 'refused'])
def fixed(V):
    values = V.values('e')
    n = V.int('n', 0, LIMIT, soft=4) if V.choice('other', [0, 1]) else V.len(values)
    m = V.new(V.mod('array').FixedSizeArrayMarshal, n, element(V, values))
    got = writes(V, m, values)
    if not V.truth(V.len(values) == n):
        V.check('refused', got is None)
        return
    V.check('accepted', got is not None)
    if got is not None:
        io(V, m, values, got, b'')


@unit('C15', 'variable', reach=['bytes', 'back', 'refused'])
def variable(V):
    values = V.values('e') if not V.choice('long', [0, 1]) else V.values('e', 256, 256)
    name = V.choice('prefix', NUMBERS)
    lm, size, order = number(V, name)
    m = V.new(V.mod('array').VarSizeArrayMarshal, lm, element(V, values))
    got = writes(V, m, values)
    if not V.truth(V.len(values) < (1 << (8 * size))):
        V.check('refused', got is None)
        return
    V.check('accepted', got is not None)
    if got is not None:
        io(V, m, values, got, V.encode_int(V.len(values), size, order))


@unit('C15', 'size-prefixed', reach=['bytes', 'back', 'refused'])
def size_prefixed(V):
    """elements of at least one byte"""
    values = V.values('e', minimum=1)
    name = V.choice('prefix', NUMBERS)
    lm, size, order = number(V, name)
    m = V.new(V.mod('array').SumSizeArrayMarshal, lm, element(V, values))
    total = V.len(V.joined(values))
    got = writes(V, m, values)
    if not V.truth(total < (1 << (8 * size))):
        V.check('refused', got is None)
        return
    V.check('accepted', got is not None)
    if got is not None:
        io(V, m, values, got, V.encode_int(total, size, order))


@unit('C15', 'size-prefixed-no-tell', reach=['back'])
def size_prefixed_no_tell(V):
    """a stream without tell(): the sizes of the elements are counted instead"""
    values = V.values('e', minimum=1)
    m = V.new(V.mod('array').SumSizeArrayMarshal, V.mod('numeric_macros').UBInt32, element(V, values))
    total = V.len(V.joined(values))
    V.assume(total < (1 << 32))
    rest = V.bytes('rest', 0, 3)
    t = V.stream(V.cat(V.encode_int(total, 4, 'big'), V.joined(values), rest))
    back = V.do(m.create_from_stream, V.new(V.mod('utils.read_ahead_stream').ReadAheadStream, t))
    V.check_eq('rest', V.do(t.read), rest)
    V.check_eq('back', back, values)


@unit('C15', 'size-prefixed-short', reach=['refused'])
def size_prefixed_short(V):
    """a total that ends inside an element is refused"""
    values = V.values('e', 1, minimum=1)
    m = V.new(V.mod('array').SumSizeArrayMarshal, V.mod('numeric_macros').UBInt32, element(V, values))
    total = V.len(V.joined(values))
    V.assume(total < (1 << 32))
    V.span(values, V.len(values) - 1)
    last = V.len(V.elem(values, V.len(values) - 1).data)
    less = V.int('less', 1, soft=4)
    V.assume(less < last)
    t = V.stream(V.cat(V.encode_int(total - less, 4, 'big'), V.joined(values)))
    o = V.call(m.create_from_stream, t)
    V.check('refused', o.raised)


@unit('C15', 'fields', reach=['bytes', 'back'])
def fields(V):
    """the field declarations: an array of numbers, of strings, of structs, of arrays"""
    m, n, a = V.mod('string_macros'), V.mod('numeric_macros'), V.mod('array_macros')
    kind = V.choice('kind', ['FixedSizeArray', 'VarSizeArray', 'SumSizeArray'])
    inner = V.choice('inner', ['number', 'string', 'struct', 'array'])
    count = V.choice('count', [0, 1, 2, 3])
    numbers = [V.int('x%d' % i, 0, 65535) for i in range(count)]
    texts = [V.bytes('t%d' % i, 0, 40) for i in range(count)]
    two = lambda x: V.encode_int(x, 2, 'big')
    pair = struct(V, [n.UBInt16('p'), n.VarSizeBuffer('q', n.UBInt8)] if hasattr(n, 'VarSizeBuffer') else [n.UBInt16('p'), m.VarSizeBuffer('q', n.UBInt8)])
    A, ST = V.mod('array'), V.mod('string')
    if inner == 'number':
        em, values, encs = n.UBInt16, numbers, [two(x) for x in numbers]
    elif inner == 'string':
        em, values = ST.VarSizeBufferMarshal(n.UBInt8), texts
        encs = [V.cat(one(V, V.len(t)), t) for t in texts]
    elif inner == 'struct':
        em, values = pair, [V.new(pair, p=x, q=t) for x, t in zip(numbers, texts)]
        encs = [V.cat(two(x), one(V, V.len(t)), t) for x, t in zip(numbers, texts)]
    else:
        em, values = A.VarSizeArrayMarshal(n.UBInt8, n.UBInt16), [V.plist([x, x, i]) for i, x in enumerate(numbers)]
        encs = [V.cat(one(V, 3), two(x), two(x), two(i)) for i, x in enumerate(numbers)]
    body = V.cat(*encs)
    f = V.do(getattr(a, kind), 'l', count if kind[0] == 'F' else n.UBInt16, em)
    cls = struct(V, [n.UBInt8('a'), f, n.UBInt8('b')])
    head = b'' if kind[0] == 'F' else two(count if kind[0] == 'V' else V.len(body))
    x, y = V.int('a', 0, 255), V.int('b', 0, 255)
    got = V.do(cls.write_to_string, V.new(cls, a=x, l=V.plist(values), b=y))
    V.check_eq('bytes', got, V.cat(one(V, x), head, body, one(V, y)))
    back = V.do(cls.create_from_string, got)
    V.check('back', V.and_(V.eq(back.a, x), V.eq(back.b, y), V.eq(V.len(back.l), count)))
    for i, v in enumerate(values):
        e = V.elem(back.l, i)
        V.check('element', V.and_(V.eq(e.p, v.p), V.eq(e.q, v.q)) if inner == 'struct' else V.eq(e, v))
