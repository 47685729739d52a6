"""C10: declared, computed and consumed sizes agree."""
from engine.specapi import unit
from .common import LIMIT
from .c09 import BU, cls, obj, piece, spots, uint


def largest(V, *ends):
    r = 0
    for e in ends:
        r = V.max_(r, e)
    return r


def value_for(V, name, n):
    return V.bytearray(name, n, n)


def consumed(V, c, size, data):
    """any data at all is decoded, and the size reported"""
    e = obj(V, c)
    u = V.call(e.unpack, data)
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('consumed', V.same_num(u.value, size))
    return e


@unit('C10', 'fixed', reach=['class', 'packed', 'consumed', 'object'], budget=200)
def fixed(V):
    """fixed locations anywhere, of one or two parts, own and inherited"""
    V.modular()
    m = V.mod(BU)
    (a, na), (b, nb), (d, nd) = [(V.int(k, 0, LIMIT, soft=9), V.int('n' + k, 0, LIMIT, soft=5)) for k in 'abd']
    V.assume(V.or_(a + na <= b, b + nb <= a))
    order = V.choice('order', ['sum', 'list'])
    where = m.bytes_ref[a:a + na] + m.bytes_ref[b:b + nb] if order == 'sum' else m.bytes_ref[V.plist([slice(b, b + nb), slice(a, a + na)])]
    x = m.bytearray_field(where=where)
    y = m.bytearray_field(where=m.bytes_ref[d:d + nd])
    shape = V.choice('shape', ['own', 'parent first', 'parent last', 'inherited', 'single'])
    if shape == 'own':
        c = cls(V, x=x, y=y)
    elif shape == 'parent first':
        c = cls(V, 'C', (cls(V, x=x),), y=y)
    elif shape == 'parent last':
        c = cls(V, 'C', (cls(V, y=y),), x=x)
    elif shape == 'inherited':
        c = cls(V, 'D', (cls(V, 'C', (cls(V, x=x),), y=y),))
    else:
        c = cls(V, x=x)
    vals = dict(x=value_for(V, 'vx', na + nb))
    end = largest(V, a + na, b + nb)
    if shape != 'single':
        vals['y'] = value_for(V, 'vy', nd)
        end = largest(V, end, d + nd)
    V.check('class', V.same_num(c.byte_size, end))
    o = obj(V, c, **vals)
    V.check('object', V.same_num(V.do(o.calc_byte_size), end))
    p = V.call(o.pack)
    V.check('accepted', p.ok)
    if p.ok:
        V.check('packed', V.eq(V.len(p.value), end))
    consumed(V, c, end, V.bytes('data', end, LIMIT))


@unit('C10', 'fraction', reach=['class', 'packed', 'consumed', 'object'], budget=200)
def fraction(V):
    """locations that end inside a byte"""
    V.modular()
    m = V.mod(BU)
    s, k = V.int('s', 0, LIMIT, soft=5), V.int('k', 1, LIMIT, soft=5)
    a, w = V.int('a', 0, LIMIT, soft=20), V.int('w', 1, LIMIT, soft=20)
    V.assume(V.and_(a + w <= 8 * k, *[V.not_(V.eq(w, 8 * q)) for q in (1, 2, 4, 8)]))
    d, nd = V.int('d', 0, LIMIT, soft=9), V.int('nd', 0, LIMIT, soft=5)
    v = V.bigint('v')
    V.assume(V.bits_needed(v) <= w)
    x = m.uint_field(where=m.bytes_ref[s:s + k].bits[a:a + w])
    y = m.bytearray_field(where=m.bytes_ref[d:d + nd])
    c = cls(V, x=x, y=y) if V.choice('inherited', [False, True]) else cls(V, 'C', (cls(V, x=x),), y=y)
    end = V.max_(8 * s + a + w, 8 * (d + nd))
    V.check('class', V.eq(V.bits_of(c.byte_size), end))
    o = obj(V, c, x=v, y=value_for(V, 'vy', nd))
    V.check('object', V.eq(V.bits_of(V.do(o.calc_byte_size)), end))
    V.assume(V.or_(8 * s + a + w <= 8 * d, 8 * (d + nd) <= 8 * s + a))
    p = V.call(o.pack)
    V.check('accepted', p.ok)
    if p.ok:
        V.check('packed', V.eq(V.len(p.value), V.ceil_bytes(end)))
    e = obj(V, c)
    u = V.call(e.unpack, V.bytes('data', V.ceil_bytes(end), LIMIT))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('consumed', V.eq(V.bits_of(u.value), end))


@unit('C10', 'declared', reach=['class', 'packed', 'refused', 'consumed', 'padding'], budget=200)
def declared(V):
    """a class that declares its size, with fixed and variable locations"""
    V.modular()
    m = V.mod(BU)
    d = V.bytearray('d', 0, 255)
    n = V.len(d)
    kind = V.choice('kind', ['fixed', 'variable', 'open'])
    size = V.int('size', 1, LIMIT, soft=9)
    declared = size
    if V.choice('fraction', [False, True]):
        cut = V.int('cut', 0, 7)
        declared = (8 * size - cut) / 8.0
    if kind == 'variable':
        k = m.uint_field(where=m.bytes_ref[0], set_before_pack=m.len_ref(m.self_ref.d))
        c = cls(V, byte_size=declared, k=k, d=m.bytearray_field(where=m.bytes_ref[1:1 + k]))
        end = 1 + n
        data = V.cat(V.encode_int(n, 1), d)
    else:
        c = cls(V, byte_size=declared, d=m.bytearray_field(where=m.bytes_ref[2:2 + n] if kind == 'fixed' else m.bytes_ref[2:]))
        end = 2 + n
        data = V.cat(V.zeros(2), d)
    V.check('class', V.same_num(c.byte_size, declared))
    o = obj(V, c, d=d)
    V.check('object', V.same_num(V.do(o.calc_byte_size), declared))
    p = V.call(o.pack)
    if V.truth(end > size):
        V.check('refused', p.raised)
        return
    V.check('accepted', p.ok)
    if not p.ok:
        return
    V.check('packed', V.eq(V.len(p.value), size))
    got = V.snapshot(p.value)
    V.all('padding', 8 * (size - end), lambda q: V.not_(V.bit(got, 8 * end + q)))
    V.all('value', 8 * end, lambda q: V.iff(V.bit(got, q), V.bit(data, q)))
    if kind != 'open':
        consumed(V, c, declared, V.cat(data, V.bytes('tail', size - end, LIMIT)))


@unit('C10', 'declared-inherit', reach=['class', 'packed'])
def declared_inherit(V):
    """the size that a class declares covers the fields it inherits"""
    m = V.mod(BU)
    (x, xe), (y, ye) = uint(V, 'x', 2), uint(V, 'y', 1)
    at = V.int('at', 2, LIMIT, soft=5)
    size = V.int('size', 1, LIMIT, soft=9)
    c = cls(V, 'C', (cls(V, x=m.le_uint_field(where=m.bytes_ref[0:2])),), byte_size=size, y=m.uint_field(where=m.bytes_ref[at]))
    V.check('class', V.eq(c.byte_size, size))
    p = V.call(obj(V, c, x=x, y=y).pack)
    if V.truth(at + 1 > size):
        V.check('refused', p.raised)
    else:
        V.check('accepted', p.ok)
        if p.ok:
            V.check('packed', V.eq(V.len(p.value), size))


@unit('C10', 'none', reach=['class'])
def none(V):
    """no fields; locations that are not fixed"""
    m = V.mod(BU)
    V.check('class', V.eq(cls(V).byte_size, 0))
    V.check('class', V.eq(V.len(V.do(obj(V, cls(V)).pack)), 0))
    a = V.int('a', 0, LIMIT, soft=5)
    n = m.uint_field(where=m.bytes_ref[0])
    open_ = m.bytearray_field(where=m.bytes_ref[a:])
    ref = m.bytearray_field(where=m.bytes_ref[a:a + n])
    late = m.bytearray_field(where_when_pack=m.bytes_ref[a:a + 3], where_when_unpack=m.bytes_ref[a:a + n])
    early = m.bytearray_field(where_when_pack=m.bytes_ref[a:a + n], where_when_unpack=m.bytes_ref[a:a + 3])
    for c in (cls(V, d=open_), *[cls(V, 'C', (cls(V, n=n), ), d=x) for x in (ref, late, early)]):
        V.check('class', c.byte_size is None)
        V.check('class', cls(V, 'S', (c,), x=m.uint_field(where=m.bytes_ref[1])).byte_size is None)


@unit('C10', 'variable', reach=['total', 'after', 'packed', 'consumed', 'object'], budget=200)
def variable(V):
    """sizes that depend on values: total_size, after_ref, calc_byte_size and what unpack reports"""
    V.modular()
    m = V.mod(BU)
    d, r = V.bytearray('d', 0, 255), V.bytearray('r', 0, LIMIT)
    n, nr = V.len(d), V.len(r)
    at = V.int('at', 9, LIMIT, soft=20)
    layout = V.choice('layout', ['closed', 'open', 'high fixed', 'parts', 'open parts'])
    inherited = V.choice('inherited', [False, True])
    k = m.uint_field(where=m.bytes_ref[0])
    t = m.be_uint_field(where=m.bytes_ref[1:5], set_before_pack=m.total_size)
    extra = {}
    vals = dict(k=n, d=d)
    if layout == 'closed':
        data = m.bytearray_field(where=m.bytes_ref[at:at + k])
        end = at + n
    elif layout == 'open':
        data = m.bytearray_field(where=m.bytes_ref[at:])
        end = at + n
    elif layout == 'high fixed':
        V.assume(at > 300)
        data = m.bytearray_field(where=m.bytes_ref[9:9 + k])
        extra['z'] = m.uint_field(where=m.bytes_ref[at])
        vals['z'] = V.int('z', 0, 255)
        end = at + 1
    elif layout == 'parts':
        V.assume(n > 2)         # a part without any bytes has no end
        data = m.bytearray_field(where=m.bytes_ref[at:at + k - 2] + m.bytes_ref[7:9])
        end = at + n - 2
    else:
        V.assume(n > 2)
        data = m.bytearray_field(where=m.bytes_ref[at:] + m.bytes_ref[7:9])
        end = at + n - 2
    V.assume(end < 1 << 31)
    last = end if layout != 'high fixed' else 9 + n
    f = m.be_uint_field(where=m.bytes_ref[5:7], set_before_pack=m.after_ref(k))
    g = {}
    follow = V.choice('follow', [False, True])
    if follow:
        g['g'] = m.bytearray_field(where=m.bytes_ref[m.after_ref(data):m.after_ref(data) + 1] if layout != 'high fixed' else m.bytes_ref[at + 1:at + 2])
        vals['g'] = V.bytearray('vg', 1, 1)
        end = end + 1
        last = last + 1
    if inherited:
        c = cls(V, 'C', (cls(V, k=k, d=data, **extra),), t=t, f=f, **g)
    else:
        c = cls(V, k=k, t=t, f=f, d=data, **dict(extra, **g))
    V.check('class', c.byte_size is None)
    o = obj(V, c, **vals)
    V.check('object', V.same_num(V.do(o.calc_byte_size), end))
    p = V.call(o.pack)
    V.check('accepted', p.ok)
    if not p.ok:
        return
    V.check('packed', V.eq(V.len(p.value), end))
    V.check('total', V.eq(o.t, end))
    V.check('after', V.eq(o.f, 1))
    got = V.snapshot(p.value)
    te = V.encode_int(end, 4, 'big')
    V.all('total', 32, lambda q: V.iff(V.bit(got, 8 + q), V.bit(te, q)))
    e = obj(V, c)
    ne = V.encode_int(n, 1)
    tail = V.bytes('tail', 0, LIMIT) if layout in ('closed', 'high fixed', 'parts') else V.bytes('tail', 0, 0)
    body = V.bytes('body', end - 1, end - 1)
    if follow and layout in ('open', 'open parts'):
        return          # what follows an open location is part of it
    u = V.call(e.unpack, V.cat(ne, body, tail))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('consumed', V.same_num(u.value, end))


@unit('C10', 'absent', reach=['packed', 'consumed', 'object', 'total'])
def absent(V):
    """fields that are not there have no part in the size"""
    m = V.mod(BU)
    V.modular()
    d = V.bytearray('d', 0, 255)
    n = V.len(d)
    f = V.int('f', 0, 255)
    x = V.int('x', 0, 255)
    at = V.int('at', 300, LIMIT, soft=310)
    flag = m.uint_field(where=m.bytes_ref[0])
    k = m.uint_field(where=m.bytes_ref[1])
    t = m.be_uint_field(where=m.bytes_ref[2:4], set_before_pack=m.min_ref(m.total_size, 60000))
    name = V.choice('name', ['a', 'x'])
    on = flag == 1
    c = cls(V, **{'f': flag, 'k': k, 't': t, 'd': m.bytearray_field(where=m.bytes_ref[4:4 + k]), name: m.uint_field(where=m.bytes_ref[at], pack_if=on, unpack_if=on)})
    here = V.truth(V.eq(f, 1))
    end = at + 1 if here else 4 + n
    o = obj(V, c, **{'f': f, 'k': n, 'd': d, name: x})
    V.check('object', V.same_num(V.do(o.calc_byte_size), end))
    p = V.call(o.pack)
    V.check('accepted', p.ok)
    if p.ok:
        V.check('packed', V.eq(V.len(p.value), end))
        V.check('total', V.eq(o.t, V.min_(end, 60000)))
    e = obj(V, c)
    u = V.call(e.unpack, V.cat(V.encode_int(f, 1), V.encode_int(n, 1), V.bytes('rest', end - 2, LIMIT)))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('consumed', V.same_num(u.value, end))


@unit('C10', 'nested', reach=['packed', 'consumed', 'object', 'after'], budget=150)
def nested(V):
    """the size of a buffer inside another"""
    V.modular()
    m = V.mod(BU)
    d, y = V.bytearray('d', 0, 255), V.bytearray('y', 1, 1)
    n = V.len(d)
    at = V.int('at', 0, LIMIT, soft=5)
    kind = V.choice('kind', ['variable', 'fixed', 'list', 'fixed list'])
    if kind in ('variable', 'list'):
        k = m.uint_field(where=m.bytes_ref[0])
        inner = cls(V, 'I', k=k, d=m.bytearray_field(where=m.bytes_ref[1:1 + k]))
        one = V.cat(V.encode_int(n, 1), d)
        make = lambda: obj(V, inner, k=n, d=d)
    else:
        inner = cls(V, 'I', (cls(V, 'P', b=m.uint_field(where=m.bytes_ref[3])),), a=m.uint_field(where=m.bytes_ref[1:3]))
        one = V.bytes('one', 4, 4)
        make = lambda: obj(V, inner, a=1, b=2)
    many = 2 if 'list' in kind else 1
    maker = m.list_field if many == 2 else m.buffer_field
    kw = dict(n=2) if many == 2 else {}
    x = maker(type=inner, where=m.bytes_ref[at:], **kw)
    z = m.bytearray_field(where=m.bytes_ref[m.after_ref(x):m.after_ref(x) + 1])
    c = cls(V, x=x, z=z)
    end = at + many * V.len(one) + 1
    o = obj(V, c, x=make() if many == 1 else [make(), make()], z=y)
    V.check('object', V.same_num(V.do(o.calc_byte_size), end))
    p = V.call(o.pack)
    V.check('accepted', p.ok)
    if p.ok:
        V.check('packed', V.eq(V.len(p.value), end))
        V.check('after', V.eq(V.byte(p.value, end - 1), V.byte(y, 0)))
    e = obj(V, c)
    u = V.call(e.unpack, V.cat(V.bytes('gap', at, at), *([one] * many + [V.bytes('rest', 1, LIMIT)])))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('consumed', V.same_num(u.value, end))
        V.check('after', V.eq(V.len(e.z), 1))


@unit('C10', 'in-struct', reach=['consumed', 'decoded', 'written', 'refused', 'variable'], budget=150)
def in_struct(V):
    """a buffer as a field of a stream struct takes exactly its bytes of the stream"""
    V.modular()
    m = V.mod(BU)
    compat = V.mod('buffer.compat')
    s = V.int('s', 0, LIMIT, soft=5)
    layout = V.choice('layout', ['whole', 'bits', 'variable'])
    x = m.bytearray_field(where=m.bytes_ref[:s])
    fields = dict(x=x)
    size = s
    vals = dict(x=V.bytearray('x', s, s))
    if layout == 'bits':
        low, n = V.choice('bits', [(0, 4), (1, 3), (7, 1)])
        fields['y'] = m.uint_field(where=m.bytes_ref[s].bits[low:low + n])
        vals['y'] = V.int('y', 0, (1 << n) - 1)
        size = s + 1
    c = cls(V, **fields)
    o = obj(V, c, **vals)
    a = V.do(compat.buffer_to_struct_adapter, c)
    data = V.do(o.pack)
    V.check_eq('written', V.do(a.write_to_string, o), data)
    V.check('written', V.eq(V.do(a.sizeof, o), V.len(data)))
    V.check('written', V.eq(V.len(data), size))
    out = V.stream(V.zeros(0))
    V.do(a.write_to_stream, o, out)
    V.check_eq('written', V.do(out.getvalue), data)
    if layout == 'variable':
        n = m.uint_field(where=m.bytes_ref[0])
        c = cls(V, 'W', n=n, x=m.bytearray_field(where=m.bytes_ref[1:1 + n]))
        V.check('variable', V.call(V.do(compat.buffer_to_struct_adapter, c).create_from_stream, V.stream(V.bytes('any', 0, LIMIT))).raised)
        return
    rest = V.bytes('rest', 0, LIMIT)
    raw = V.bytes('raw', n=size)
    before = V.choice('before', [0, 2])
    stream = V.stream(V.cat(V.zeros(before), raw, rest))
    V.do(stream.read, before)
    r = V.call(a.create_from_stream, stream)
    V.check('decoded', r.ok)
    if not r.ok:
        return
    direct = obj(V, c)
    V.do(direct.unpack, raw)
    V.check('decoded', type(r.value) is c)
    for k in fields:
        V.check_eq('decoded', getattr(r.value, k), getattr(direct, k))
    V.check_eq('consumed', V.do(stream.read), rest)
    if V.truth(size > 0):
        t = V.int('t', 0, size - 1)
        V.check('refused', V.call(a.create_from_stream, V.stream(V.sub(raw, 0, t))).raised)


class Known(object):
    """a reference with a known value"""

    def __init__(self, value, static=True):
        self.value, self.static = value, static

    def is_static(self):
        return self.static

    def deref(self, ctx):
        return self.value


@unit('C10', 'any-number', reach=['class', 'object', 'consumed', 'at-least', 'unknown', 'known'])
def any_number(V):
    """any number of fields, each somewhere: the class's size, an object's, and what was consumed"""
    m, RG = V.mod(BU), V.mod('buffer.range')
    what = V.choice('what', ['class', 'object', 'consumed'])
    kind = V.choice('kind', ['int', 'float'])
    some = what != 'class' and V.choice('conditions', [False, True])

    def one(E):
        a, n = E.int('start', 0, LIMIT, soft=12), E.int('size', 0, LIMIT, soft=5)
        if kind == 'float':
            a, n = a / 8.0, n / 8.0
        return (a, n, E.int('off', 0, 3) if some else 1, E.int('beyond', 0, 9) if what == 'consumed' else 0,
                E.int('varies', 0, 9) if what == 'class' else 9, E.int('decoded', 0, 9) if what == 'class' else 9)
    es = V.list('f', one, lo=0 if what == 'class' else 1)

    class Field(object):
        def __init__(self, e):
            a, n, off, beyond, varies, decoded = e
            where = RG.SequentialRangeList([V.new(RG.SequentialRange, a, a + n)])
            self.pack_absolute_position_ref = Known(where, varies > 0)
            # what is decoded may be less than its place
            self.unpack_absolute_position_ref = Known(RG.SequentialRangeList([V.new(RG.SequentialRange, a, a + n + beyond)]), decoded > 0)
            self.pack_if = self.unpack_if = Known(off > 0)
            self.pack_ref, self.unpack_ref = Known(None), Known((None, n))

        def attr_name(self):
            return 'field'
    fields = V.mapped(es, Field)
    n = V.len(es)
    if what == 'class':
        size = V.do(type(m.Buffer).calc_byte_size, 'B', fields)
    else:
        o = obj(V, cls(V, byte_size=None))
        T = V.mod('buffer.reference')
        RT = V.mod('buffer.reference.total_size').TotalSizeReference
        C = V.mod('buffer.reference.contexts')
        ctx = V.new(C.PackContext, o, fields) if what == 'object' else V.new(C.UnpackContext, o, fields, bytearray())
        size = V.do(V.new(RT).deref, ctx)
    varies = lambda j: V.or_(V.eq(V.elem(es, j)[4], 0), V.eq(V.elem(es, j)[5], 0))
    if size is None:        # no place of its own for some field
        V.check('unknown', V.exists('varies', n, varies))
        return
    V.all('known', n, lambda j: V.not_(varies(j)))
    end = lambda j: V.elem(es, j)[0] + V.elem(es, j)[1]
    off = lambda j: V.eq(V.elem(es, j)[2], 0)
    V.check(what, V.or_(V.same_num(size, 0), V.exists('last', n, lambda j: V.and_(V.not_(off(j)), V.same_num(size, end(j))))))

    def each(j):
        V.trace(j)
        V.check('at-least', V.or_(off(j), size >= end(j)))
    V.cases('each', n, each)
