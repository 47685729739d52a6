"""C18: truncated input is refused, never decoded to a wrong value."""
from engine.specapi import unit
from .common import LIMIT, NUMBERS, Refused, abstract_fields, element, number, one, struct, varint
from .c09 import BU, cls
from .c17 import FLOATS, TYPES

MA = 'struct_macros'


def cut(V, m, data, lo=0, ways=('stream', 'string', 'behind')):
    """reading any proper beginning of the encoding raises"""
    n = V.len(data)
    t = V.int('cut', lo, n - 1)
    how = V.choice('from', list(ways))
    if how == 'string' and hasattr(m, 'create_from_string'):
        o = V.call(m.create_from_string, V.sub(data, 0, t))
    else:
        s = V.stream(V.cat(V.zeros(2), V.sub(data, 0, t)) if how == 'behind' else V.sub(data, 0, t))
        if how == 'behind':
            V.do(s.read, 2)
        o = V.call(m.create_from_stream, s)
    V.check('refused', o.raised)


def reads(V, m, data):
    """the whole encoding does not raise (so that being refused means something)"""
    V.check('whole', V.call(m.create_from_stream, V.stream(data)).ok)


@unit('C18', 'numbers', reach=['refused', 'whole'])
def numbers(V):
    name = V.choice('type', TYPES + FLOATS)
    m = getattr(V.mod('numeric'), name + 'Marshal')
    data = V.bytes('data', n=int(name.lstrip('USBLNIntFloat')) // 8)
    reads(V, m, data)
    cut(V, m, data)


@unit('C18', 'strings', reach=['refused', 'whole'])
def strings(V):
    m = V.mod('string')
    size = V.int('size', 0, LIMIT, soft=40)
    text = V.bytes('text', n=size)
    kind = V.choice('prefix', NUMBERS[:4] + ['varint', 'fixed'])
    side = getattr(m, 'PADDING_DIRECTION_' + V.choice('side', ['RIGHT', 'LEFT', 'BOTH', 'NONE']))
    if kind == 'fixed':
        w = V.do(m.PaddedStringMarshal, size, b' ', side) if V.choice('what', ['string', 'buffer']) == 'string' else V.do(m.FixedSizeBufferMarshal, size)
        data = text
    else:
        if kind == 'varint':
            prefix, top = varint(V), (1 << 15) - 1
            V.assume(size <= top)
            if V.truth(size < 128):
                head = one(V, size)
            else:
                head = V.encode_int(size + (1 << 15), 2, 'big')
        else:
            prefix, n, order = number(V, kind)
            V.assume(size < (1 << (8 * n)))
            head = V.encode_int(size, n, order)
        w = V.do(m.VarSizeStringMarshal, prefix, b' ', side) if V.choice('what', ['string', 'buffer']) == 'string' else V.do(m.VarSizeBufferMarshal, prefix)
        data = V.cat(head, text)
    V.assume(V.len(data) > 0)
    reads(V, w, data)
    cut(V, w, data)


@unit('C18', 'padding', reach=['refused', 'whole'])
def padding(V):
    size = V.int('size', 1, LIMIT, soft=40)
    m = V.do(V.mod('padding').BytePaddingMarshal, size)
    data = V.bytes('data', n=size)
    reads(V, m, data)
    cut(V, m, data)


@unit('C18', 'arrays', reach=['refused'])
def arrays(V):
    """any number of elements of any type that refuses its truncated encodings"""
    m = V.mod('array')
    how = V.choice('how', ['fixed', 'counted', 'sized'])
    values = V.values('e', minimum=1 if how == 'sized' else 0)
    n = V.len(values)
    e = element(V, values)
    whole = V.joined(values)
    V.assume(n <= LIMIT)
    if how == 'fixed':
        w, data = V.do(m.FixedSizeArrayMarshal, n, e), whole
    else:
        p, size, order = number(V, V.choice('prefix', NUMBERS[:3]))
        count = n if how == 'counted' else V.len(whole)
        V.assume(count < (1 << (8 * size)))
        w = V.do(m.VarSizeArrayMarshal if how == 'counted' else m.SumSizeArrayMarshal, p, e)
        data = V.cat(V.encode_int(count, size, order), whole)
    V.assume(V.len(data) > 0)
    cut(V, w, data)


@unit('C18', 'sized-overrun', reach=['refused'])
def sized_overrun(V):
    """a size prefix that ends inside an element"""
    a, b = V.value('a', minimum=1), V.value('b', minimum=1)
    p, size, order = number(V, V.choice('prefix', NUMBERS[:3]))
    whole = V.cat(a.data, b.data)
    total = V.int('total', 1, V.len(whole) - 1)
    V.assume(V.not_(total == V.len(a.data)))
    V.assume(total < (1 << (8 * size)))
    w = V.do(V.mod('array').SumSizeArrayMarshal, p, element(V, V.plist([a, b])))
    o = V.call(w.create_from_stream, V.stream(V.cat(V.encode_int(total, size, order), whole)))
    V.check('refused', o.raised)


@unit('C18', 'structs', reach=['refused'])
def structs(V):
    """any list of fields that refuse their truncated encodings"""
    values = V.values('f')
    fields, reader = abstract_fields(V, values)
    cls = V.do(struct, V, fields, __init__=lambda self: V.put(reader, 'obj', self))
    data = V.joined(values)
    V.assume(V.len(data) > 0)
    m = cls
    if V.choice('how', ['plain', 'field']) == 'field':
        m = struct(V, [V.mod('struct').Field('x', cls)])
    cut(V, m, data)


def leaf(V, name, minimum=0):
    v = V.value(name, minimum)
    return element(V, V.plist([v]), bounds=(V.len(v.data), V.len(v.data))), v


@unit('C18', 'fields', reach=['refused', 'whole'])
def fields(V):
    """every other kind of field, between two of any type"""
    S, m = V.mod('struct'), V.mod(MA)
    u16 = number(V, 'UBInt16')[0]
    (e, v), (g, w), (h, x) = leaf(V, 'v'), leaf(V, 'w'), leaf(V, 'x')
    how = V.choice('how', ['const', 'optional', 'mapping', 'padding', 'lazy', 'nested', 'pointer', 'anonymous', 'inherited', 'const struct'])
    value = V.int('value', 0, 65535)
    mid = V.encode_int(value, 2, 'big')
    if how == 'const':
        fs = [V.do(m.ConstField, 'c', value, u16)]
    elif how == 'const struct':
        fs = [V.do(m.ConstField, 'c', V.new(struct(V, [S.Field('p', u16)]), p=value))]
    elif how == 'optional':
        fs, mid = [m.OptionalField('o', g, lambda o, s, c: True)], w.data
    elif how == 'mapping':
        fs = [S.Field('m', V.do(V.mod('mapping').FixedSizeMappingMarshal, {'a': value}, u16))]
    elif how == 'padding':
        fs = [m.BytePadding(2)]
    elif how == 'lazy':
        fs, mid = [m.Lazy(S.Field('p', u16), S.Field('q', g))], V.cat(mid, w.data)
    elif how == 'nested':
        fs, mid = [S.Field('n', struct(V, [S.Field('p', u16), S.Field('q', g)]))], V.cat(mid, w.data)
    elif how == 'pointer':
        fs, mid = [S.Field('p', u16), V.mod('string_macros').VarSizeBuffer('b', m.ReadPointer('p'))], V.cat(V.encode_int(3, 2, 'big'), V.bytes('b', n=3))
    elif how == 'anonymous':
        fs = [S.AnonymousField(u16)]
    else:
        fs = []
    fs = [S.Field('v', e)] + fs + [S.Field('x', h)]
    data = V.cat(v.data, mid, x.data)
    if how == 'inherited':
        base = struct(V, fs)
        cls = type(base)('D', (base,), {})
        data = V.cat(v.data, x.data)
    else:
        cls = struct(V, fs)
    V.assume(V.len(data) > 0)
    if V.choice('cut?', [True, False]):
        cut(V, cls, data)
    else:
        reads(V, cls, data)


@unit('C18', 'bits', reach=['refused', 'whole'])
def bits(V):
    m = V.mod(MA)
    a, b = V.int('a', 1, LIMIT, soft=20), V.int('b', 1, LIMIT, soft=20)
    V.assume(V.modulo(a + b, 8) == 0)
    size = V.div(a + b, 8)
    how = V.choice('how', ['sequence', 'padded', 'positions', 'gap', 'declared'])
    if how == 'sequence':
        f = m.BitFields(m.BitField('x', a), m.BitField('y', b))
    elif how == 'padded':
        f = m.BitFields(m.BitField('x', a), m.BitPadding(b))
    elif how == 'positions':
        f = m.BitFields(m.BitField('x', slice(0, a)), m.BitField('y', slice(a, a + b)))
    elif how == 'gap':
        f = m.BitFields(m.BitField('y', slice(a, a + b)))
    else:
        f = V.mod('struct.bit').PositionalBitFieldListContainer(a + b, [m.BitField('x', slice(0, a))])
    cls = struct(V, [f])
    data = V.bytes('data', n=size)
    if V.choice('cut?', [True, False]):
        cut(V, cls, data)
    else:
        reads(V, cls, data)


@unit('C18', 'selected', reach=['refused'])
def selected(V):
    """a selector over types that refuse their truncated encodings"""
    S = V.mod('struct')
    u16 = number(V, 'UBInt16')[0]
    e, v = leaf(V, 'v')
    V.assume(V.len(v.data) <= LIMIT)
    types = [struct(V, [S.Field('k', u16), S.Field('v', e)])]
    if V.choice('how', ['mapping', 'function']) == 'mapping':
        m = V.do(V.mod(MA).StructSelector, u16, {5: types[0]})
    else:
        def func(stream, context):
            n = V.choice('peek', [0, 1, 2])
            V.do(stream.read, n)
            return types[0]
        m = V.do(V.mod('struct.selector').FuncStructSelectorMarshal, func)
    data = V.cat(V.encode_int(5, 2, 'big'), v.data)
    cut(V, m, data)


# -- buffer sections

def section(V, size, kind):
    """a bit view shorter than that many bytes"""
    io = V.mod('buffer.io_buffer')
    buf = V.bytearray('data')
    stop = V.eighth('stop', 0, V.len(buf))
    start = V.eighth('start', 0, stop)
    V.assume(stop - start < size)
    return V.new(io.BitView if kind == 'view' else io.BitAwareByteArray, buf, start, stop)


@unit('C18', 'sections', reach=['refused'])
def sections(V):
    """numbers and text of a fixed size"""
    s = V.mod('buffer.serialize')
    what = V.choice('what', ['int', 'float', 'str', 'bits'])
    kw = {}
    if what == 'int':
        size = V.choice('size', [1, 2, 4, 8])
        f, kw = s.unpack_int, dict(sign=V.choice('sign', ['signed', 'unsigned']), endian=V.choice('endian', ['native', 'big', 'little']))
    elif what == 'float':
        size = V.choice('size', [4, 8])
        f, kw = s.unpack_float, dict(endian=V.choice('endian', ['native', 'big', 'little']))
    elif what == 'str':
        size = V.int('size', 1, LIMIT, soft=20)
        f, kw = s.unpack_str, dict(justify=V.choice('justify', ['left', 'right', 'center']), strip=b' ', padding=b' ')
    else:
        size = V.eighth('size', 0.125)
        V.cap(size, 200)
        f = s.unpack_int
    o = V.call(f, section(V, size, V.choice('kind', ['view', 'array'])), byte_size=size, **kw)
    V.check('refused', o.raised)


@unit('C18', 'element-types', reach=['refused'])
def element_types(V):
    """the named element types of lists"""
    bits = V.choice('bits', [8, 16, 32, 64])
    name = V.choice('order', ['', 'n_', 'b_', 'l_']) + V.choice('sign', ['', 'u']) + 'int%d' % bits
    pack, unpack = getattr(V.mod('buffer.macros'), name)
    o = V.call(unpack, section(V, bits // 8, 'view'))
    V.check('refused', o.raised)


@unit('C18', 'buffers', reach=['refused'])
def buffers(V):
    """a buffer unpacked from bytes that end inside one of its fixed-size fields"""
    m = V.mod('buffer')
    at = V.choice('at', [0, 1, 3])
    what = V.choice('what', ['int', 'float', 'str', 'bits', 'list'])
    size = V.choice('size', [4, 8]) if what == 'float' else V.choice('size', [1, 2, 3, 4, 8])
    where = m.bytes_ref[at:at + size]
    if what == 'int':
        f = m.be_int_field(where=where)
    elif what == 'float':
        f = m.float_field(where=where, endian='big')
    elif what == 'str':
        f = m.str_field(where=where)
    elif what == 'list':
        at, size = 1, 8
        f = m.list_field(type=m.uint32, where=m.bytes_ref[1:9], n=2)
    else:
        f = m.uint_field(where=where.bits[3:8 * size - 1])
    cls = type(m.Buffer)('B', (m.Buffer,), dict(x=f))
    n = V.int('n', 0, at + size - 1)
    if what == 'list':
        V.assume(V.and_(n > at, V.not_(V.modulo(n - at, 4) == 0)))
    o = V.call(V.new(cls).unpack, V.bytes('data', n=n))
    V.check('refused', o.raised)


@unit('C18', 'embedded', reach=['refused', 'whole'])
def embedded(V):
    """a buffer read from a stream through the struct adapter, alone and as a field"""
    V.modular()
    m = V.mod(BU)
    s, k = V.int('s', 0, LIMIT, soft=5), V.choice('k', [1, 2, 4])
    what = V.choice('field', ['raw', 'number', 'both', 'bits'])
    fields = {}
    size = s + k
    if what in ('raw', 'both'):
        fields['x'] = m.bytearray_field(where=m.bytes_ref[:s + k] if what == 'raw' else m.bytes_ref[:s])
    if what in ('number', 'both'):
        fields['y'] = m.uint_field(where=m.bytes_ref[s:s + k])
    if what == 'bits':
        fields['y'] = m.uint_field(where=m.bytes_ref[s:s + k - 1] + m.bytes_ref[s + k - 1].bits[0:3])
    c = cls(V, **fields)
    a = V.do(V.mod('buffer.compat').buffer_to_struct_adapter, c)
    data = V.bytes('data', n=size)
    alone = V.choice('where', ['alone', 'field']) == 'alone'
    if not alone:
        a = struct(V, [V.mod('struct').Field('b', a)])
    reads(V, a, data)
    cut(V, a, data, ways=('stream', 'behind') if alone else ('stream', 'string', 'behind'))
