"""C07: text, float, JSON, raw and list fields of buffers survive a round trip."""
import sys
from engine.specapi import unit
from .common import LIMIT

SE = 'buffer.serialize'
IO = 'buffer.io_buffer'
MA = 'buffer.macros'
ENDIANS = ['native', 'big', 'little', 'unspecified']


def order(endian):
    return sys.byteorder if endian in ('native', 'unspecified') else endian


def section(V, data, rest=None):
    """a section of a larger buffer that holds the data (and the rest)"""
    V.modular()
    before, behind = V.bytes('before', 0, 8), V.bytes('behind', 0, 8)
    whole = V.cat(before, data, b'' if rest is None else rest, behind)
    stop = V.len(whole) - V.len(behind)
    kind = V.choice('section', ['BitView', 'BitAwareByteArray'])
    return V.new(getattr(V.mod(IO), kind), whole if kind == 'BitView' else V.array(whole), V.len(before), stop)


# -- floats

@unit('C07', 'floats', reach=['encoding', 'back', 'consumed', 'decoded'])
def floats(V):
    """IEEE numbers of the declared size and order; 4 bytes unless declared otherwise"""
    s = V.mod(SE)
    size, endian = V.choice('size', [None, 4, 8]), V.choice('endian', ENDIANS)
    n = size or 4
    kw = dict(endian=endian) if size is None else dict(endian=endian, byte_size=size)
    f = V.float('f', n)
    data = V.do(s.pack_float, f, **kw)
    V.check_eq('encoding', data, V.encode_float(f, n, order(endian)))
    back, used = V.do(s.unpack_float, section(V, data, V.bytes('rest', 0, 9)), **kw)
    V.check_eq('back', back, f)
    V.check('consumed', V.eq(used, n))
    # and any bytes of that size are the number they encode
    raw = V.encode_float(V.float('g', n), n, order(endian))
    g, used = V.do(s.unpack_float, section(V, raw), **kw)
    V.check_eq('decoded', V.encode_float(g, n, order(endian)), raw)


# -- text

def texts(V):
    """(text, its encoding, arguments of the packer)"""
    enc, padding, strip = V.choice('kind', [('ascii', b' ', b'\0'), ('latin-1', b'\0', b'\0'), ('utf-8', b'x', b' '),
                                            ('utf-8', b' ', b'\0 '), ('ascii', b'\0', b'')])
    t = V.text('text', 0, LIMIT, encoding=enc)
    return t, V.encode_text(t, enc), dict(encoding=enc, padding=padding, strip=strip, justify=V.choice('justify', ['left', 'right', 'center']))


def is_in(V, x, chars):
    return V.or_(*[V.eq(x, c) for c in bytearray(chars)]) if chars else False


def bare(V, data, kw):
    """no padding or strip character on the padded side"""
    chars = kw['padding'] + kw['strip']
    n = V.len(data)
    V.index(n - 1)
    if kw['justify'] != 'left' and V.truth(n > 0):
        V.assume(V.not_(is_in(V, V.byte(data, 0), chars)))
    if kw['justify'] != 'right' and V.truth(n > 0):
        V.assume(V.not_(is_in(V, V.byte(data, n - 1), chars)))


def padded(V, name, got, data, size, kw):
    """the text, padded to the size on the side (or sides) opposite its justification"""
    n = V.len(data)
    extra = V.max_(size - n, 0)
    V.check(name, V.eq(V.len(got), n + extra))
    if kw['justify'] == 'left':
        left = 0
    elif kw['justify'] == 'right':
        left = extra
    else:
        half = V.div(extra, 2)
        for p in (half, extra - half):
            V.index(p)
            V.index(p + n - 1)
        V.check(name, V.or_(V.eq(got, V.cat(V.fill(half, ord(kw['padding'])), data, V.fill(extra - half, ord(kw['padding'])))),
                            V.eq(got, V.cat(V.fill(extra - half, ord(kw['padding'])), data, V.fill(half, ord(kw['padding']))))))
        return
    V.check_eq(name, got, V.cat(V.fill(left, ord(kw['padding'])), data, V.fill(extra - left, ord(kw['padding']))))


@unit('C07', 'text', reach=['stored', 'back', 'consumed'])
def text(V):
    """text of a known size that does not end in what is stripped"""
    s = V.mod(SE)
    t, data, kw = texts(V)
    bare(V, data, kw)
    size = V.int('size', 0, LIMIT, soft=30)
    got = V.do(s.pack_str, t, byte_size=size, **kw)
    padded(V, 'stored', got, data, size, kw)
    V.assume(size >= V.len(data))
    back, used = V.do(s.unpack_str, section(V, got, V.bytes('rest', 0, 9)), byte_size=size, **kw)
    V.check_eq('back', back, t)
    V.check('consumed', V.eq(used, size))


def lossy(V, pairs):
    s = V.mod(SE)
    enc = V.choice('encoding', ['ascii', 'latin-1'])
    t = V.text('text', 0, LIMIT, encoding=enc)
    data = V.encode_text(t, enc)
    padding, strip = V.choice('padding', pairs)
    kw = dict(encoding=enc, padding=padding, strip=strip, justify=V.choice('justify', ['left', 'right', 'center']))
    size = V.len(data) + V.int('extra', 0, LIMIT, soft=30)
    got = V.do(s.pack_str, t, byte_size=size, **kw)
    back, used = V.do(s.unpack_str, section(V, got), byte_size=size, **kw)
    left, right = kw['justify'] != 'left', kw['justify'] != 'right'
    chars = kw['padding'] + kw['strip']
    V.check_eq('back', V.stripped(V.encode_text(back, enc), chars, left, right), V.stripped(data, chars, left, right))
    V.check('consumed', V.eq(used, size))


@unit('C07', 'text-any', reach=['back', 'consumed'])
def text_any(V):
    """any text: what is lost are padding and strip characters on the padded side"""
    lossy(V, [(b' ', b' '), (b'\0', b'\0'), (b'\0', b'')])


@unit('C07', 'text-any-two', reach=['back', 'consumed'], sym=False,
      bounded='random texts where padding and strip characters differ (proved for one character that is both, and for texts without them at the edge)')
def text_any_two(V):
    lossy(V, [(b' ', b'\0'), (b'x', b' '), (b'\0', b' x')])


@unit('C07', 'text-open', reach=['stored', 'back', 'consumed'])
def text_open(V):
    """text without a known size: all of the section"""
    s = V.mod(SE)
    t, data, kw = texts(V)
    got = V.do(s.pack_str, t, **kw)
    V.check_eq('stored', got, data)
    back, used = V.do(s.unpack_str, section(V, got), **kw)
    V.check_eq('back', back, t)
    V.check('consumed', V.eq(used, V.len(data)))


# -- JSON and raw bytes

@unit('C07', 'json', reach=['stored', 'back', 'consumed'])
def json_(V):
    s = V.mod(SE)
    v = V.json('value')
    data = V.encode_json(v)
    kw = dict(encoding='ascii', padding=b' ', strip=b'\0', justify=V.choice('justify', ['left', 'right', 'center']))
    if V.choice('sized', [False, True]):
        size = V.len(data) + V.int('extra', 0, LIMIT, soft=30)
        got = V.do(s.pack_json, v, byte_size=size, **kw)
        padded(V, 'stored', got, data, size, kw)
        kw['byte_size'] = size
    else:
        size = V.len(data)
        got = V.do(s.pack_json, v, **kw)
        V.check_eq('stored', got, data)
    back, used = V.do(s.unpack_json, section(V, got), **kw)
    V.check_eq('back', back, v)
    V.check('consumed', V.eq(used, size))


@unit('C07', 'raw', reach=['stored', 'back', 'consumed'])
def raw(V):
    s = V.mod(SE)
    kind = V.choice('kind', ['bytes', 'bytearray', 'list'])
    data = V.bytes('data') if kind != 'bytearray' else V.bytearray('data')
    value = V.do(V.mod(IO).BitView, data) if kind == 'list' else data
    got = V.do(s.pack_bytearray, value)
    V.check_eq('stored', got, data)
    source = V.choice('source', ['section', 'bytearray', 'bytes'])
    back, used = V.do(s.unpack_bytearray, section(V, got) if source == 'section' else got if source == 'bytearray' else V.sub(got, 0, V.len(got)))
    V.check_eq('back', back, data)
    V.check('consumed', V.eq(used, V.len(data)))


# -- lists

def codec(V, values, n):
    """the packer and unpacker of any type of element: pack(v) are its bytes, unpack of a section that starts with them
    gives (v, their number)"""
    class Codec(object):
        def __init__(self, kind):
            self.cursor, self.values, self.kind = 0, values, kind

        def __call__(self, *args, **kwargs):
            return self.pack(*args, **kwargs) if self.kind == 'pack' else self.unpack(*args, **kwargs)

        def pack(self, v, **kwargs):
            return V.snapshot(v.data)

        def unpack(self, buffer, index=None, container=None, **kwargs):
            v = V.elem(values, self.cursor)
            V.span(values, self.cursor)
            V.check('in-order', V.eq(index, self.cursor))
            V.check('in-order', V.eq(V.len(container), self.cursor))
            V.check('own-bytes', V.do(buffer.length) >= V.len(v.data))
            V.check_eq('own-bytes', V.sub(V.do(buffer.to_bytes), 0, V.len(v.data)), v.data)
            V.put(self, 'cursor', self.cursor + 1)
            return v, V.len(v.data)
    return Codec('pack'), Codec('unpack')


@unit('C07', 'lists-packed', reach=['stored'])
def lists_packed(V):
    """any number of elements of any type"""
    values = V.values('v')
    pack, unpack = codec(V, values, None)
    got = V.do(V.mod(SE).pack_list, values, elem_packer=pack)
    V.check_eq('stored', V.do(got.to_bytes), V.joined(values))
    V.check('stored', V.same_num(V.do(got.length), V.len(V.joined(values))))


@unit('C07', 'lists-unpacked', reach=['all', 'some', 'consumed'])
def lists_unpacked(V):
    """any number of elements of any type, to the end of the section or the declared count"""
    values = V.values('v', minimum=1)
    m = V.len(values)
    how = V.choice('count', ['none', 'enough', 'fewer'])
    n = None if how == 'none' else V.int('n', m) if how == 'enough' else V.int('n', 0, m)
    pack, unpack = codec(V, values, n)
    io = V.mod(IO)
    V.modular()
    before, behind = V.bytes('before', 0, 8), V.bytes('behind', 0, 8)
    whole = V.cat(before, V.joined(values), behind)
    sec = V.new(io.BitView, whole, V.len(before), V.len(whole) - V.len(behind))
    got, used = V.do(V.mod(SE).unpack_list, sec, elem_unpacker=unpack, **({} if how == 'none' else dict(n=n)))
    if how == 'fewer':
        V.check('some', V.eq(V.len(got), n))
        V.all('some', n, lambda k: V.eq(V.number_of(V.elem(got, k)), k))
        V.check('consumed', V.eq(used, V.psum(m, lambda k: V.len(V.elem(values, k).data))(n)))
    else:
        V.check_eq('all', got, values)
        V.check('consumed', V.same_num(used, V.len(V.joined(values))))


def elements(V, kinds=('b_uint16', 'l_int32', 'int8', 'uint64', 'str', 'str-right', 'buffer')):
    """(element type, values, their encodings)"""
    m = V.mod('buffer')
    V.modular()
    kind = V.choice('element', list(kinds))
    if kind.startswith('str'):
        size = V.choice('chars', [1, 4])
        just = 'right' if kind == 'str-right' else 'left'
        code = 'latin-1' if kind == 'str-right' else 'ascii'
        fill = b'*' if kind == 'str-right' else b' '
        kw = dict(encoding=code, padding=fill, strip=b'\0', justify=just)
        type_ = m.str_type_factory(byte_size=size, **kw)
        def make(name):
            t = V.text(name, 0, size, encoding=code)
            data = V.encode_text(t, code)
            bare(V, data, kw)
            pad = V.fill(size - V.len(data), fill[0])
            return t, V.cat(pad, data) if just == 'right' else V.cat(data, pad)
        return type_, make, size
    if kind == 'buffer':
        class Item(m.Buffer):
            a = m.be_uint_field(where=m.bytes_ref[0:2])
            b = m.uint_field(where=m.bytes_ref[2])
        def make(name):
            a, b = V.int(name + 'a', 0, 65535), V.int(name + 'b', 0, 255)
            o = V.new(Item, a=a, b=b)
            return o, V.cat(V.encode_int(a, 2, 'big'), V.encode_int(b, 1))
        return Item, make, 3
    size, low, high, end = dict(b_uint16=(2, 0, 65535, 'big'), l_int32=(4, -(1 << 31), (1 << 31) - 1, 'little'),
                                int8=(1, -128, 127, 'little'), uint64=(8, 0, (1 << 64) - 1, sys.byteorder))[kind]
    def make(name):
        v = V.int(name, low, high)
        return v, V.encode_int(v, size, end)
    return getattr(m, kind), make, size


def same_element(V, a, b):
    if hasattr(b, 'pack') and not isinstance(b, str):
        return V.and_(V.eq(a.a, b.a), V.eq(a.b, b.b))
    return V.eq(a, b)


@unit('C07', 'elements', reach=['bytes', 'back', 'consumed'])
def element_contract(V):
    """every element type keeps the contract assumed of elements, whatever follows it and whatever the list passes on"""
    type_, make, size = elements(V)
    s = V.mod(SE)
    pack, unpack = type_ if isinstance(type_, tuple) else (s.pack_buffer, lambda b, **kw: s.unpack_buffer(b, type=type_, **kw))
    v, data = make('v')
    outer = V.choice('outer', [None, 64])
    got = V.do(pack, v, byte_size=outer, pack_size=outer)
    V.check_eq('bytes', got, data)
    rest = V.bytes('rest', 0, 9)
    before = V.bytes('before', 0, 8)
    whole = V.cat(before, got, rest)
    sec = V.new(V.mod(IO).BitView, whole, V.len(before), V.len(whole))
    back, used = V.do(unpack, sec, byte_size=outer, unpack_size=outer, index=0, n=None, container=[])
    V.check('back', same_element(V, back, v))
    V.check('consumed', V.same_num(used, size))


@unit('C07', 'list-field', reach=['bytes', 'back'])
def list_field(V):
    """declared lists, of a small number of elements (any number is proved for the codec)"""
    m = V.mod('buffer')
    type_, make, size = elements(V, ('b_uint16', 'str', 'buffer'))
    count = V.choice('count', [0, 2])
    at = 3
    made = [make('v%d' % k) for k in range(count)]
    n, open_ = V.choice('n', [('none', True), ('none', False), ('same', True), ('same', False), ('ref', True)])
    if count == 0 and not open_:
        V.reject()
    where = m.bytes_ref[at:] if open_ else m.bytes_ref[at:at + count * size]
    cls = type(m.Buffer)('B', (m.Buffer,), dict(x=m.list_field(type_, where=where, n=None if n == 'none' else count if n == 'same' else m.num_ref(m.self_ref.many))))
    o = V.new(cls)
    o.x = [v for v, _ in made]
    data = V.cat(V.zeros(at), *[d for _, d in made])
    V.check_eq('bytes', V.do(o.pack), data)
    p = V.new(cls)
    p.many = count
    tail = V.bytes('tail', 0, 9) if n != 'none' or not open_ else b''
    V.do(p.unpack, V.cat(data, tail))
    V.check('back', V.eq(V.len(p.x), count))
    for k in range(count):
        V.check('back', same_element(V, p.x[k], made[k][0]))


def declared(V, maker, kw, v, size, stored):
    m = V.mod('buffer')
    V.modular()
    at = V.choice('at', [0, 3])
    cls = type(m.Buffer)('B', (m.Buffer,), dict(x=maker(where=m.bytes_ref[at:] if size is None else m.bytes_ref[at:at + size], **kw)))
    o = V.new(cls)
    o.x = v
    got = V.do(o.pack)
    data = V.cat(V.zeros(at), stored)
    V.check_eq('bytes', got, data)
    p = V.new(cls)
    V.do(p.unpack, data if size is None else V.cat(data, V.bytes('tail', 0, 9)))
    V.check_eq('back', p.x, v)


@unit('C07', 'text-field', reach=['bytes', 'back'])
def text_field(V):
    """the declared encoding, padding and justification reach the codec"""
    enc, padding, strip = V.choice('kind', [('ascii', b' ', b'\0'), ('latin-1', b'\0', b'\0'), ('utf-8', b'x', b' ')])
    v = V.text('text', 0, 9, encoding=enc)
    data = V.encode_text(v, enc)
    kw = dict(encoding=enc, padding=padding, strip=strip, justify=V.choice('justify', ['left', 'right', 'center']))
    size = V.choice('size', [None, 4, 9])
    stored = data
    bare(V, data, kw)
    if size is not None:
        V.assume(V.len(data) <= size)
        stored = V.do(V.mod(SE).pack_str, v, byte_size=size, **kw)
        padded(V, 'stored', stored, data, size, kw)
    declared(V, V.mod('buffer').str_field, kw, v, size, stored)


@unit('C07', 'float-field', reach=['bytes', 'back'])
def float_field(V):
    size, endian = V.choice('size', [4, 8]), V.choice('endian', ENDIANS[:3])
    v = V.float('f', size)
    kw = dict(byte_size=size) if V.choice('declared', [0, 1]) else {}
    declared(V, V.mod('buffer').float_field, dict(kw, endian=endian), v, size, V.encode_float(v, size, order(endian)))


@unit('C07', 'json-field', reach=['bytes', 'back'])
def json_field(V):
    v = V.json('value')
    data = V.encode_json(v)
    size = V.choice('size', [None, 8, 30])
    if size is not None:
        V.assume(V.len(data) <= size)
    declared(V, V.mod('buffer').json_field, {}, v, size,
             data if size is None else V.cat(data, V.fill(size - V.len(data), ord(' '))))


@unit('C07', 'raw-field', reach=['bytes', 'back'])
def raw_field(V):
    size = V.choice('size', [None, 1, 5])
    v = V.bytearray('data', 0, 9) if size is None else V.bytearray('data', size, size)
    declared(V, V.mod('buffer').bytearray_field, {}, v, size, V.snapshot(v))


@unit('C07', 'text-short', reach=['refused'])
def text_short(V):
    """a text of known size is not read from a shorter section"""
    size = V.int('size', 1, LIMIT, soft=20)
    data = V.bytes('data', 0, LIMIT)
    V.assume(V.len(data) < size)
    kw = dict(encoding='ascii', padding=b' ', strip=b'\0', justify=V.choice('justify', ['left', 'right', 'center']))
    unpack = V.choice('unpacker', ['unpack_str', 'unpack_json'])
    V.check('refused', V.call(getattr(V.mod(SE), unpack), section(V, data), byte_size=size, **kw).raised)


@unit('C07', 'empty-elements', reach=['refused', 'back'])
def empty_elements(V):
    """elements that take no bytes: as many as are asked for, but never an endless list"""
    m = V.mod('buffer')
    width = V.choice('width', [0, 1, 2, 3])
    item = type(m.Buffer)('Item', (m.Buffer,), dict(x=m.bytearray_field(where=m.bytes_ref[:width])))
    n = V.choice('n', [None, 0, 1, 3])
    where = dict(where=m.bytes_ref[1:])
    c = type(m.Buffer)('B', (m.Buffer,), dict(l=m.list_field(type=item, n=n, **where) if n is not None else m.list_field(type=item, **where)))
    size = V.choice('size', [0, 1, 6])
    data = V.cat(V.encode_int(1, 1), V.bytes('data', n=size))
    o = V.new(c)
    got = V.call(o.unpack, data)
    if width == 0:
        V.assume(n is None or not n or size > 0)        # nothing at all: nothing is said
        if n is None and size:
            V.check('refused', got.raised)
        else:
            V.check('back', got.ok)
            V.check('back', V.eq(V.len(o.l), n if n and size else 0))
        return
    V.assume(size % width == 0 if n is None else n * width <= size)
    V.check('back', got.ok)
    V.check('back', V.eq(V.len(o.l), size // width if n is None else n))
