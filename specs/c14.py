"""C14: stream strings and padding keep content and size."""
from engine.specapi import unit

NONE, RIGHT, LEFT, BOTH = 0, 1, 2, 3
LENGTHS = ['UBInt8', 'UBInt16', 'ULInt32', 'UBInt64', 'UNInt16']
LIMIT = 1 << 40


def struct(V, fields):
    S = V.mod('struct').Struct
    return type(S)('S', (S,), dict(_fields_=fields))


def stripped(V, v, direction, padding):
    return v if direction == NONE else V.stripped(v, padding, direction in (LEFT, BOTH), direction in (RIGHT, BOTH))


def padding_of(V):
    return V.choice('padding', [b'\x00', b' ', b'\x00 ', b'az\xff'])


def padded(V, body, size, direction, padding):
    V.trace(size - V.len(body))
    fill = V.fill(size - V.len(body), padding[0])
    return V.cat(fill, body) if direction == LEFT else V.cat(body, fill)


def writes(V, marshal, v):
    """what the marshal writes in the middle of a stream, or its refusal (then nothing is written)"""
    before = V.bytes('before', 0, 3)
    s = V.stream(b'')
    V.do(s.write, before)
    o = V.call(marshal.write_to_stream, v, s)
    if o.raised:
        V.check_eq('nothing-written', V.written(s), before)
        return None
    got = V.written(s)
    V.check_eq('kept', V.sub(got, 0, V.len(before)), before)
    return V.sub(got, V.len(before), V.len(got))


@unit('C14', 'fixed', reach=['bytes', 'back', 'refused'])
def fixed(V):
    """a fixed-size string: content then (or after) padding, always the declared size"""
    size = V.int('size', 0, LIMIT, soft=12)
    direction = V.choice('direction', [NONE, RIGHT, LEFT, BOTH])
    padding = padding_of(V)
    m = V.new(V.mod('string').PaddedStringMarshal, size, padding, direction)
    v = V.bytes('v')
    body = stripped(V, v, direction, padding)
    V.check('sizeof', V.eq(V.do(m.sizeof, v), size))
    mm = V.do(m.min_max_sizeof)
    V.check('min_max', V.and_(V.eq(mm.min, size), V.eq(mm.max, size)))
    got = writes(V, m, v)
    fits = V.len(body) == size if direction == NONE else V.len(body) <= size
    if not V.truth(fits):
        V.check('refused', got is None)
        return
    V.check('accepted', got is not None)
    if got is None:
        return
    V.check_eq('bytes', got, padded(V, body, size, direction, padding))
    rest = V.bytes('rest', 0, 3)
    t = V.stream(V.cat(got, rest))
    V.check_eq('back', V.do(m.create_from_stream, t), body)
    V.check_eq('rest', V.do(t.read), rest)


@unit('C14', 'fixed-read', reach=['value', 'short'])
def fixed_read(V):
    """reading any bytes gives them stripped on the declared side"""
    size = V.int('size', 0, LIMIT, soft=12)
    direction = V.choice('direction', [NONE, RIGHT, LEFT, BOTH])
    padding = padding_of(V)
    m = V.new(V.mod('string').PaddedStringMarshal, size, padding, direction)
    data = V.bytes('data')
    s = V.stream(data)
    o = V.call(m.create_from_stream, s)
    if V.truth(V.len(data) < size):
        V.check('short', o.raised)
        return
    V.check('accepted', o.ok)
    if o.ok:
        V.check_eq('value', o.value, stripped(V, V.sub(data, 0, size), direction, padding))
        V.check_eq('rest', V.do(s.read), V.sub(data, size, V.len(data)))


@unit('C14', 'variable', reach=['bytes', 'back', 'refused'])
def variable(V):
    """a variable-size string: its length, then its bytes"""
    prefix = V.choice('prefix', LENGTHS)
    lm = getattr(V.mod('numeric_macros'), prefix)
    bits = int(prefix[5:])
    order = {'B': 'big', 'L': 'little', 'N': __import__('sys').byteorder}[prefix[1]]
    direction = V.choice('direction', [NONE, RIGHT, LEFT, BOTH])
    padding = padding_of(V)
    m = V.new(V.mod('string').VarSizeStringMarshal, lm, padding, direction)
    v = V.bytes('v') if not V.choice('long', [0, 1]) else V.cat(V.bytes('v'), V.fill(256, 65))
    body = stripped(V, v, direction, padding)
    V.assume(V.len(body) < LIMIT)
    got = writes(V, m, v)
    if not V.truth(V.len(body) < (1 << bits)):
        V.check('refused', got is None)
        return
    V.check('accepted', got is not None)
    if got is None:
        return
    V.check_eq('bytes', got, V.cat(V.encode_int(V.len(body), bits // 8, order), body))
    rest = V.bytes('rest', 0, 3)
    t = V.stream(V.cat(got, rest))
    V.check_eq('back', V.do(m.create_from_stream, t), body)
    V.check_eq('rest', V.do(t.read), rest)


@unit('C14', 'variable-read', reach=['value', 'short'])
def variable_read(V):
    direction = V.choice('direction', [NONE, RIGHT, LEFT, BOTH])
    padding = padding_of(V)
    m = V.new(V.mod('string').VarSizeStringMarshal, V.mod('numeric_macros').UBInt16, padding, direction)
    n = V.int('n', 0, 65535, soft=9)
    data = V.bytes('data')
    s = V.stream(V.cat(V.encode_int(n, 2, 'big'), data))
    o = V.call(m.create_from_stream, s)
    if V.truth(V.len(data) < n):
        V.check('short', o.raised)
        return
    V.check('accepted', o.ok)
    if o.ok:
        V.check_eq('value', o.value, stripped(V, V.sub(data, 0, n), direction, padding))
        V.check_eq('rest', V.do(s.read), V.sub(data, n, V.len(data)))


@unit('C14', 'buffers', reach=['bytes', 'back', 'refused'])
def buffers(V):
    """byte buffers: nothing is stripped or padded, a value of another size is refused"""
    v = V.bytes('v')
    if V.choice('kind', ['fixed', 'variable']) == 'fixed':
        size = V.int('size', 0, LIMIT, soft=12)
        m = V.new(V.mod('string').FixedSizeBufferMarshal, size)
        fits, want = V.len(v) == size, v
    else:
        m = V.new(V.mod('string').VarSizeBufferMarshal, V.mod('numeric_macros').UBInt16)
        V.assume(V.len(v) < 65536)
        fits, want = True, V.cat(V.encode_int(V.len(v), 2, 'big'), v)
    got = writes(V, m, v)
    if not V.truth(fits):
        V.check('refused', got is None)
        return
    V.check('accepted', got is not None)
    if got is None:
        return
    V.check_eq('bytes', got, want)
    rest = V.bytes('rest', 0, 3)
    t = V.stream(V.cat(got, rest))
    V.check_eq('back', V.do(m.create_from_stream, t), v)
    V.check_eq('rest', V.do(t.read), rest)


@unit('C14', 'byte-padding', reach=['bytes', 'skipped'])
def byte_padding(V):
    """padding is written as declared and skipped on read"""
    size = V.int('size', 0, LIMIT, soft=12)
    char = V.choice('char', [None, b'\x00', b' ', b'\xff'])
    m = V.mod('struct_macros')
    f = V.new(V.choice('name', [m.BytePadding, m.Padding]), size, *([] if char is None else [char]))
    n = V.mod('numeric_macros')
    cls = struct(V, [n.UBInt8('a'), f, n.UBInt8('b')])
    a, b = V.int('a', 0, 255), V.int('b', 0, 255)
    one = lambda x: V.encode_int(x, 1)
    got = V.do(cls.write_to_string, V.new(cls, a=a, b=b))
    V.check_eq('bytes', got, V.cat(one(a), V.fill(size, (char or b'\x00')[0]), one(b)))
    x = V.do(cls.create_from_string, V.cat(one(a), V.bytes('any', n=size), one(b)))
    V.check('skipped', V.and_(V.eq(x.a, a), V.eq(x.b, b)))
    V.check('sizeof', V.eq(V.do(cls.sizeof, x), size + 2))


@unit('C14', 'fields', reach=['bytes', 'back'])
def fields(V):
    """the field declarations reach the marshals: sizes, padding and direction"""
    m, n = V.mod('string_macros'), V.mod('numeric_macros')
    kind = V.choice('kind', ['PaddedString', 'FixedSizeString', 'VarSizeString', 'FixedSizeBuffer', 'VarSizeBuffer'])
    size = 6
    v = V.bytes('v', 0, 6)
    direction, padding = RIGHT, b'\x00'
    kw = {}
    if kind.endswith('String') and V.choice('explicit', [0, 1]):
        direction, padding = V.choice('direction', [RIGHT, LEFT, BOTH]), padding_of(V)
        kw = dict(padding=padding, padding_direction=direction)
    if kind.endswith('Buffer'):
        direction = NONE
    if kind == 'FixedSizeBuffer':
        V.assume(V.len(v) == size)
    f = V.do(getattr(m, kind), 's', n.UBInt8 if kind.startswith('Var') else size, **kw)
    cls = struct(V, [n.UBInt8('a'), f, n.UBInt8('b')])
    body = stripped(V, v, direction, padding)
    a, b = V.int('a', 0, 255), V.int('b', 0, 255)
    one = lambda x: V.encode_int(x, 1)
    mid = V.cat(one(V.len(body)), body) if kind.startswith('Var') else padded(V, body, size, direction, padding) if direction else v
    got = V.do(cls.write_to_string, V.new(cls, a=a, s=v, b=b))
    V.check_eq('bytes', got, V.cat(one(a), mid, one(b)))
    x = V.do(cls.create_from_string, got)
    V.check('back', V.and_(V.eq(x.a, a), V.eq(x.s, body), V.eq(x.b, b)))
