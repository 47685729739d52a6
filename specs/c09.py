"""C09: packing puts every field at its location, and unpacking inverts it."""
from engine.specapi import unit
from .common import LIMIT

BU = 'buffer'


def cls(V, name='B', bases=(), **attrs):
    """a Buffer class"""
    m = V.mod(BU)
    return V.do(lambda: type(m.Buffer)(name, tuple(bases) or (m.Buffer,), attrs))


def obj(*args, **values):
    V, c = args
    return V.do(lambda: c(**values))


def piece(V, start, data):
    """bytes at a byte offset: (first bit, number of bits, bit q)"""
    data = V.snapshot(data)
    return 8 * start, 8 * V.len(data), lambda q: V.bit(data, q)


def placed(V, packed, pieces, size=None):
    """every piece is where it belongs, and there is nothing else"""
    packed = V.snapshot(packed)
    if size is None:
        end = 0
        for a, n, at in pieces:
            end = V.max_(end, a + n)
        size = V.ceil_bytes(end)
    V.check('size', V.eq(V.len(packed), size))
    for a, n, at in pieces:
        V.all('value', n, lambda q: V.iff(V.bit(packed, a + q), at(q)))
    V.all('elsewhere', 8 * size, lambda p: V.or_(V.not_(V.bit(packed, p)), *[V.and_(p >= a, p < a + n) for a, n, at in pieces]))


def spots(V, *sizes, order=None):
    """places for parts of the given sizes that do not overlap: any order, any gaps"""
    import itertools
    orders = list(itertools.permutations(range(len(sizes))))
    order = V.choice('order', orders) if order is None else orders[order]
    at, end = [None] * len(sizes), 0
    for j in order:
        at[j] = end + V.int('gap%d' % j, 0, LIMIT, soft=9)
        end = at[j] + sizes[j]
    return at + [end]


@unit('C09', 'place', reach=['value', 'elsewhere', 'decoded', 'again'], budget=120)
def place(V):
    """two fields of bytes, anywhere"""
    V.modular()
    m = V.mod(BU)
    x, y = V.bytearray('x', 0, LIMIT), V.bytearray('y', 0, LIMIT)
    nx, ny = V.len(x), V.len(y)
    a, b, end = spots(V, nx, ny)
    c = cls(V, x=m.bytearray_field(where=m.bytes_ref[a:a + nx]), y=m.bytearray_field(where=m.bytes_ref[b:b + ny]))
    x0, y0 = V.snapshot(x), V.snapshot(y)
    o = V.call(obj(V, c, x=x, y=y).pack)
    V.check('packed', o.ok)
    if not o.ok:
        return
    placed(V, o.value, [piece(V, a, x0), piece(V, b, y0)])
    e = obj(V, c)
    data = V.bytes('data', end, LIMIT)
    u = V.call(e.unpack, data)
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('type', V.and_(V.type(e.x) is bytearray, V.type(e.y) is bytearray))
        V.check_eq('decoded', e.x, V.sub(data, a, a + nx))
        V.check_eq('decoded', e.y, V.sub(data, b, b + ny))
        again = V.call(e.pack)
        V.check('again', again.ok)
        if again.ok:
            placed(V, again.value, [piece(V, a, e.x), piece(V, b, e.y)])


def uint(V, name, size, order='little'):
    """(value, its encoding)"""
    v = V.int(name, 0, (1 << 8 * size) - 1)
    return v, V.encode_int(v, size, order)


@unit('C09', 'scattered', reach=['value', 'elsewhere', 'decoded'], budget=120)
def scattered(V):
    """a field in two parts, in any order, beside another field"""
    V.modular()
    m = V.mod(BU)
    x, y = V.bytearray('x', 0, LIMIT), V.bytearray('y', 0, LIMIT)
    nx, ny, cut = V.len(x), V.len(y), V.int('cut', 0, LIMIT, soft=4)
    V.assume(cut <= nx)
    a, b, at, end = spots(V, cut, nx - cut, ny)
    one, two = m.bytes_ref[a:a + cut], m.bytes_ref[b:b + nx - cut]
    c = cls(V, x=m.bytearray_field(where=one + two), y=m.bytearray_field(where=m.bytes_ref[at:at + ny]))
    x0, y0 = V.snapshot(x), V.snapshot(y)
    o = V.call(obj(V, c, x=x, y=y).pack)
    V.check('packed', o.ok)
    if o.ok:
        placed(V, o.value, [piece(V, a, V.sub(x0, 0, cut)), piece(V, b, V.sub(x0, cut, nx)), piece(V, at, y0)])
    data = V.bytes('data', end, LIMIT)
    e = obj(V, c)
    u = V.call(e.unpack, data)
    V.check('unpacked', u.ok)
    if u.ok:
        V.check_eq('decoded', e.x, V.cat(V.sub(data, a, a + cut), V.sub(data, b, b + nx - cut)))
        V.check_eq('decoded', e.y, V.sub(data, at, at + ny))


@unit('C09', 'open-part', reach=['value', 'elsewhere', 'decoded'], budget=120)
def open_part(V):
    """a field in two parts one of which is open, in either order"""
    V.modular()
    m = V.mod(BU)
    x = V.bytearray('x', 0, LIMIT)
    nx, cut, a, gap = V.len(x), V.int('cut', 0, LIMIT, soft=4), V.int('a', 0, LIMIT, soft=4), V.int('gap', 0, LIMIT, soft=4)
    V.assume(cut <= nx)
    b = a + cut + gap
    closed, open_ = m.bytes_ref[a:a + cut], m.bytes_ref[b:]
    first = V.choice('first', ['closed', 'open'])
    c = cls(V, x=m.bytearray_field(where=closed + open_ if first == 'closed' else open_ + closed))
    x0 = V.snapshot(x)
    o = V.call(obj(V, c, x=x).pack)
    V.check('packed', o.ok)
    at = cut if first == 'closed' else nx - cut
    parts = [V.sub(x0, 0, at), V.sub(x0, at, nx)]
    if o.ok:
        placed(V, o.value, [piece(V, a, parts[0]), piece(V, b, parts[1])] if first == 'closed' else [piece(V, b, parts[0]), piece(V, a, parts[1])])
    data = V.bytes('data', b, LIMIT)
    e = obj(V, c)
    u = V.call(e.unpack, data)
    V.check('unpacked', u.ok)
    if u.ok:
        got = [V.sub(data, a, a + cut), V.sub(data, b, V.len(data))]
        V.check_eq('decoded', e.x, V.cat(*(got if first == 'closed' else got[::-1])))


def two_numbers(V, order):
    """two numbers in bits of a section, anywhere in it"""
    V.modular()
    m = V.mod(BU)
    s, w, z = V.int('s', 0, LIMIT, soft=9), V.int('w', 1, LIMIT, soft=20), V.int('z', 1, LIMIT, soft=20)
    for n in (w, z):
        V.assume(V.and_(*[V.not_(V.eq(n, 8 * q)) for q in (1, 2, 4, 8)]))
    a, b, end = spots(V, w, z, order=order)
    k = V.ceil_bytes(end) + V.int('k', 0, LIMIT, soft=3)
    section = m.bytes_ref[s:s + k]
    return s, w, z, a, b, k, cls(V, x=m.uint_field(where=section.bits[a:a + w]), y=m.uint_field(where=section.bits[b:b + z]))


def bits_packed(V, order):
    s, w, z, a, b, k, c = two_numbers(V, order)
    v, u = V.bigint('v'), V.bigint('u')
    V.assume(V.and_(V.bits_needed(v) <= w, V.bits_needed(u) <= z))
    o = V.call(obj(V, c, x=v, y=u).pack)
    V.check('packed', o.ok)
    if o.ok:
        placed(V, o.value, [(8 * s + a, w, lambda q: V.bit(v, q)), (8 * s + b, z, lambda q: V.bit(u, q))])


def bits_unpacked(V, order):
    s, w, z, a, b, k, c = two_numbers(V, order)
    data = V.bytes('data', s + k, LIMIT)
    e = obj(V, c)
    r = V.call(e.unpack, data)
    V.check('unpacked', r.ok)
    if r.ok:
        V.all_bits('decoded', e.x, w, lambda p: V.bit(data, 8 * s + a + p))
        V.all_bits('decoded', e.y, z, lambda p: V.bit(data, 8 * s + b + p))


for _k in (0, 1):
    unit('C09', 'bits-packed-%d' % _k, reach=['value', 'elsewhere'], budget=300)(lambda V, k=_k: bits_packed(V, k))
    unit('C09', 'bits-unpacked-%d' % _k, reach=['decoded'], budget=300)(lambda V, k=_k: bits_unpacked(V, k))


@unit('C09', 'conditions', reach=['value', 'elsewhere', 'none', 'decoded'])
def conditions(V):
    """a field that is there when another says so, by a reference, a function or a constant"""
    m = V.mod(BU)
    f, fe = uint(V, 'f', 1)
    x, xe = uint(V, 'x', 2)
    y, ye = uint(V, 'y', 1)
    first = V.choice('flag at', [0, 4])          # decoded before and after what depends on it
    flag = m.uint_field(where=m.bytes_ref[first])
    how = V.choice('how', ['reference', 'constant', 'member', 'forward'])
    t = V.int('t', 0, 255)
    on = V.eq(f, t)
    if how == 'reference':
        cond = flag == t
    elif how == 'constant':
        on = cond = V.choice('constant', [True, False])
    elif how == 'member':
        cond = m.member_func_ref(lambda o: o.here(t))
    else:
        cond = m.num_ref(m.self_ref.f) == t
    given, read = V.choice('when', [(True, True), (True, False), (False, True)])
    name = V.choice('name', ['a', 'x'])          # fields are visited by name
    kw = {}
    if given:
        kw['pack_if'] = cond
    if read:
        kw['unpack_if'] = cond
    attrs = {'f': flag, name: m.be_uint_field(where=m.bytes_ref[1:3], **kw), 'y': m.uint_field(where=m.bytes_ref[3])}
    c = cls(V, here=lambda self, n: self.f == n, **attrs)
    packed = V.call(obj(V, c, **{'f': f, name: x, 'y': y}).pack)
    V.check('packed', packed.ok)
    on = V.truth(on)
    if packed.ok:
        here = [piece(V, 1, V.encode_int(x, 2, 'big'))] if on or not given else []
        placed(V, packed.value, [piece(V, first, fe), piece(V, 3, ye)] + here, 5 if first else 4)
    e = obj(V, c)
    if how == 'member':
        e.f = f
    stale = V.choice('stale', [False, True])
    if stale:
        setattr(e, name, 77)
    zero = V.zeros(1)
    data = V.cat(zero if first else fe, V.encode_int(x, 2, 'big'), ye, fe if first else zero, V.bytes('tail', 0, 9))
    u = V.call(e.unpack, data)
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('decoded', V.eq(e.f, f))
        V.check('decoded', V.eq(e.y, y))
        if on or not read:
            V.check('decoded', V.eq(getattr(e, name), x))
        else:
            V.check('none', getattr(e, name) is None)


@unit('C09', 'disabled-used', reach=['none'])
def disabled_used(V):
    """a field that is not there is None even when another refers to it"""
    m = V.mod(BU)
    names = V.choice('names', [('a', 'b'), ('b', 'a')])
    n = m.uint_field(where=m.bytes_ref[0], unpack_if=False)
    kind = V.choice('kind', ['location', 'condition', 'after'])
    d = (m.bytearray_field(where=m.bytes_ref[1:1 + n]) if kind == 'location' else
         m.uint_field(where=m.bytes_ref[1], unpack_if=n == 2) if kind == 'condition' else m.uint_field(where=m.bytes_ref[m.after_ref(n)]))
    c = cls(V, **{names[0]: n, names[1]: d})
    e = obj(V, c)
    u = V.call(e.unpack, V.cat(V.encode_int(2, 1), V.bytes('data', 2, 9)))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('none', getattr(e, names[0]) is None)


def computed(V, hows, afters):
    """values set before packing and after unpacking"""
    m = V.mod(BU)
    V.modular()
    d = V.bytearray('d', 0, 30000)
    t, te = uint(V, 't', 2)
    V.assume(t < 30000)
    how, after = V.choice('how', [(h, a) for h in hows for a in afters])
    data = m.bytearray_field(where=m.bytes_ref[4:])
    before = dict(length=m.len_ref(data), function=lambda o: V.len(o.d), constant=t, zero=0, size=m.total_size,
                  member=m.member_func_ref(lambda o: o.size()), other=m.num_ref(m.self_ref.t), sum=m.len_ref(data) + m.num_ref(m.self_ref.t))[how]
    name, stale = V.choice('name', [('a', False), ('n', True)])
    kw = {}
    if after == 'add':
        kw['set_after_unpack'] = lambda v: v + t
    elif after == 'none':
        kw['set_after_unpack'] = lambda v: None
    elif after == 'ref':
        kw['set_after_unpack'] = m.len_ref(data)
    c = cls(V, **{'size': lambda self: V.len(self.d), name: m.be_uint_field(where=m.bytes_ref[0:2], set_before_pack=before, **kw),
                  't': m.be_uint_field(where=m.bytes_ref[2:4]), 'd': data})
    d0 = V.snapshot(d)
    o = obj(V, c, d=d, t=t)
    if stale:
        setattr(o, name, 31)
    n = V.len(d)
    want = dict(length=n, function=n, constant=t, zero=0, size=n + 4, member=n, other=t, sum=n + t)[how]
    p = V.call(o.pack)
    V.check('packed', p.ok)
    if not p.ok:
        return
    pieces = [piece(V, 0, V.encode_int(want, 2, 'big')), piece(V, 2, V.encode_int(t, 2, 'big')), piece(V, 4, d0)]
    placed(V, p.value, pieces)
    V.check('stored', V.eq(getattr(o, name), want))
    e = obj(V, c)
    u = V.call(e.unpack, V.cat(V.encode_int(want, 2, 'big'), V.encode_int(t, 2, 'big'), d0))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check_eq('decoded', e.d, d0)
        V.check('decoded', V.eq(e.t, t))
        got = getattr(e, name)
        if after == 'none':
            V.check('decoded', got is None)
        else:
            V.check('decoded', V.eq(got, want + t if after == 'add' else n if after == 'ref' else want))
        again = V.call(e.pack)
        V.check('again', again.ok)
        if again.ok:
            placed(V, again.value, pieces)


unit('C09', 'computed', reach=['value', 'stored', 'decoded'], budget=150)(
    lambda V: computed(V, ['length', 'function', 'constant', 'zero', 'size', 'member', 'other', 'sum'], [None]))
unit('C09', 'computed-after', reach=['value', 'stored', 'decoded'], budget=150)(
    lambda V: computed(V, ['length', 'zero'], ['add', 'none', 'ref']))


@unit('C09', 'inherit', reach=['value', 'decoded'])
def inherit(V):
    """fields of a base class, overridden ones, and those of two bases"""
    m = V.mod(BU)
    (x, xe), (y, ye), (z, ze) = uint(V, 'x', 1), uint(V, 'y', 2), uint(V, 'z', 4, 'big')
    shape = V.choice('shape', ['chain', 'override', 'override-twice', 'two', 'diamond', 'plain', 'mixin', 'mixin-first'])
    if shape in ('mixin', 'mixin-first'):
        Mixin = type('Mixin', (object,), dict(x=m.uint_field(where=m.bytes_ref[0])))
        A = cls(V, 'A', (Mixin, m.Buffer), y=m.le_uint_field(where=m.bytes_ref[1:3]))
    else:
        A = cls(V, 'A', x=m.uint_field(where=m.bytes_ref[0]), y=m.le_uint_field(where=m.bytes_ref[1:3]))
    at = 3
    if shape == 'mixin-first':
        More = type('More', (object,), dict(z=m.be_uint_field(where=m.bytes_ref[3:7])))
        B = cls(V, 'B', (More, A))
    elif shape in ('chain', 'mixin'):
        B = cls(V, 'B', (cls(V, 'M', (A,)),), z=m.be_uint_field(where=m.bytes_ref[3:7]))
    elif shape == 'override':
        B = cls(V, 'B', (A,), y=m.le_uint_field(where=m.bytes_ref[7:9]), z=m.be_uint_field(where=m.bytes_ref[3:7]))
    elif shape == 'override-twice':
        M = cls(V, 'M', (A,), y=m.be_uint_field(where=m.bytes_ref[0:2]))
        B = cls(V, 'B', (M,), y=m.le_uint_field(where=m.bytes_ref[7:9]), z=m.be_uint_field(where=m.bytes_ref[3:7]))
    elif shape == 'two':
        B = cls(V, 'B', (A, cls(V, 'O', z=m.be_uint_field(where=m.bytes_ref[3:7]))))
    elif shape == 'diamond':
        B = cls(V, 'B', (cls(V, 'L', (A,), z=m.be_uint_field(where=m.bytes_ref[3:7])), cls(V, 'R', (A,), y=m.le_uint_field(where=m.bytes_ref[7:9]))))
    else:
        class Plain(object):
            extra = 5
        B = cls(V, 'B', (A, Plain), z=m.be_uint_field(where=m.bytes_ref[3:7]))
    moved = shape in ('override', 'override-twice', 'diamond')
    want = [xe, V.zeros(2), ze, ye] if moved else [xe, ye, ze]
    p = V.call(obj(V, B, x=x, y=y, z=z).pack)
    V.check('packed', p.ok)
    if p.ok:
        V.check_eq('value', p.value, V.cat(*want))
    e = obj(V, B)
    filler = V.bytes('filler', 2, 2)
    want = [xe, filler, ze, ye] if moved else [xe, ye, ze]
    u = V.call(e.unpack, V.cat(*(want + [V.bytes('tail', 0, 5)])))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('decoded', V.and_(V.eq(e.x, x), V.eq(e.y, y), V.eq(e.z, z)))
    a = obj(V, A)
    u = V.call(a.unpack, V.cat(xe, ye))
    V.check('unpacked', u.ok)
    if u.ok:        # the base class is what it was
        V.check('decoded', V.and_(V.eq(a.x, x), V.eq(a.y, y)))


@unit('C09', 'variable', reach=['value', 'elsewhere', 'decoded'], budget=150)
def variable(V):
    """fields whose locations follow from other fields, also from later ones"""
    V.modular()
    m = V.mod(BU)
    d, r = V.bytearray('d', 0, 255), V.bytearray('r', 0, LIMIT)
    x, xe = uint(V, 'x', 2, 'big')
    n, nr = V.len(d), V.len(r)
    forward = V.choice('forward', [False, True])
    names = V.choice('names', [('a', 'b', 'c', 'e'), ('e', 'c', 'b', 'a')])
    size = m.uint_field(where=m.bytes_ref[1])
    k = m.num_ref(getattr(m.self_ref, names[0])) if forward else size
    data = m.bytearray_field(where=m.bytes_ref[2:2 + k])
    end = m.after_ref(data) if V.choice('after', [True, False]) else 2 + k
    num = m.be_uint_field(where=m.bytes_ref[end:end + 2])
    rest = m.bytearray_field(where=m.bytes_ref[end + 2:])
    c = cls(V, **dict(zip(names, (size, data, num, rest))))
    d0, r0 = V.snapshot(d), V.snapshot(r)
    o = V.call(obj(V, c, **dict(zip(names, (n, d, x, r)))).pack)
    V.check('packed', o.ok)
    ne = V.encode_int(n, 1)
    if o.ok:
        placed(V, o.value, [piece(V, 1, ne), piece(V, 2, d0), piece(V, 2 + n, xe), piece(V, 4 + n, r0)])
    e = obj(V, c)
    filler = V.bytes('filler', 1, 1)
    u = V.call(e.unpack, V.cat(filler, ne, d0, xe, r0))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('decoded', V.and_(V.eq(getattr(e, names[0]), n), V.eq(getattr(e, names[2]), x)))
        V.check_eq('decoded', getattr(e, names[1]), d0)
        V.check_eq('decoded', getattr(e, names[3]), r0)


@unit('C09', 'when', reach=['value', 'elsewhere', 'decoded'], budget=150)
def when(V):
    """a location for packing and another for unpacking"""
    V.modular()
    m = V.mod(BU)
    d = V.bytearray('d', 0, 255)
    n = V.len(d)
    ne = V.encode_int(n, 1)
    d0 = V.snapshot(d)
    kind = V.choice('kind', ['open', 'moved'])
    at = V.int('at', 1, LIMIT, soft=5)
    to = at if kind == 'open' else V.int('to', 1, LIMIT, soft=5)
    size = m.uint_field(where=m.bytes_ref[0], set_before_pack=m.len_ref(m.self_ref.d))
    data = m.bytearray_field(where_when_pack=m.bytes_ref[at:] if kind == 'open' else m.bytes_ref[at:at + size],
                             where_when_unpack=m.bytes_ref[to:to + size])
    c = cls(V, n=size, d=data)
    o = V.call(obj(V, c, d=d).pack)
    V.check('packed', o.ok)
    if o.ok:
        placed(V, o.value, [piece(V, 0, ne), piece(V, at, d0)])
    e = obj(V, c)
    gap = V.bytes('gap', to - 1, to - 1)
    u = V.call(e.unpack, V.cat(ne, gap, d0, V.bytes('tail', 0, LIMIT)))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('decoded', V.eq(e.n, n))
        V.check_eq('decoded', e.d, d0)


def kinds(V, kind):
    """(field maker and its arguments, a value, its encoding)"""
    m = V.mod(BU)
    if kind == 'int':
        size = V.choice('width', [1, 2, 4, 8])
        v = V.int('v', -(1 << 8 * size - 1), (1 << 8 * size - 1) - 1)
        order = V.choice('endian', ['big', 'little'])
        return m.int_field, dict(endian=order), v, V.encode_int(v, size, order)
    if kind == 'float':
        size = V.choice('width', [4, 8])
        v = V.float('v', size)
        return m.float_field, dict(endian='big'), v, V.encode_float(v, size, 'big')
    if kind == 'text':
        v = V.text('v', 0, 9, encoding='ascii')
        data = V.encode_text(v, 'ascii')
        room = V.choice('room', [0, 3])
        V.assume(V.not_(V.eq(V.len(data), 0)) if room == 0 else True)
        if V.truth(V.len(data) > 0):
            for j in (0, V.len(data) - 1):
                V.assume(V.and_(V.not_(V.eq(V.byte(data, j), 32)), V.not_(V.eq(V.byte(data, j), 0))))
        return m.str_field, {}, v, V.cat(data, V.fill(room, ord(' ')))
    if kind == 'json':
        v = V.json('v')
        return m.json_field, {}, v, V.encode_json(v)
    if kind == 'list':
        vs = [uint(V, 'v%d' % k, 2, 'big') for k in range(V.choice('count', [1, 3]))]
        return m.list_field, dict(type=m.b_uint16), [v for v, _ in vs], V.cat(*[e for _, e in vs])
    if kind == 'buffer':
        inner = cls(V, 'I', a=m.be_uint_field(where=m.bytes_ref[1:3]), b=m.uint_field(where=m.bytes_ref[0]))
        (a, ae), (b, be) = uint(V, 'va', 2, 'big'), uint(V, 'vb', 1)
        return m.buffer_field, dict(type=inner), obj(V, inner, a=a, b=b), V.cat(be, ae)
    raise ValueError(kind)


def same_value(V, kind, got, want):
    if kind == 'buffer':
        return V.and_(V.type(got) is V.type(want), V.eq(got.a, want.a), V.eq(got.b, want.b))
    if kind == 'list':
        return V.and_(V.eq(V.len(got), len(want)), *[V.eq(V.elem(got, k), w) for k, w in enumerate(want)])
    return V.eq(got, want)


def every_kind(V, kind):
    """a field of each kind beside bytes, at any place"""
    m = V.mod(BU)
    V.modular()
    maker, kw, v, data = kinds(V, kind)
    y = V.bytearray('y', 1, LIMIT)
    n, ny = V.len(data), V.len(y)
    a, b, end = spots(V, n, ny)
    scheme = V.choice('scheme', ['where', 'both'])
    where = m.bytes_ref[a:a + n]
    c = cls(V, x=maker(**dict(kw, where=where) if scheme == 'where' else dict(kw, where_when_pack=where, where_when_unpack=where)),
            y=m.bytearray_field(where=m.bytes_ref[b:b + ny]))
    y0 = V.snapshot(y)
    o = V.call(obj(V, c, x=v, y=y).pack)
    V.check('packed', o.ok)
    if not o.ok:
        return
    pieces = [piece(V, a, data), piece(V, b, y0)]
    placed(V, o.value, pieces)
    e = obj(V, c)
    gaps = [V.bytes('fill%d' % k, g, g) for k, g in enumerate([V.min_(a, b), end - n - ny - V.min_(a, b)])]
    first, second = (data, y0) if V.truth(a < b) else (y0, data)
    u = V.call(e.unpack, V.cat(gaps[0], first, gaps[1], second, V.bytes('tail', 0, LIMIT)))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('decoded', same_value(V, kind, e.x, v))
        V.check_eq('decoded', e.y, y0)
        again = V.call(e.pack)
        V.check('again', again.ok)
        if again.ok:
            placed(V, again.value, pieces)


for _k in ('int', 'float', 'text', 'json', 'list', 'buffer'):
    unit('C09', 'kind-' + _k, reach=['value', 'elsewhere', 'decoded', 'again'], budget=200)(lambda V, k=_k: every_kind(V, k))


@unit('C09', 'default', reach=['value', 'kept'])
def default(V):
    """fields not given have the declared default, each object its own"""
    m = V.mod(BU)
    (x, xe), (y, ye) = uint(V, 'x', 1), uint(V, 'y', 1)
    c = cls(V, x=m.uint_field(where=m.bytes_ref[0], default=x), y=m.uint_field(where=m.bytes_ref[1], default=7), z=m.uint_field(where=m.bytes_ref[2]))
    o = obj(V, c, y=y)
    V.check('kept', V.and_(V.eq(o.x, x), V.eq(o.y, y), o.z is None))
    V.check('kept', V.call(lambda: c(w=3)).raised)
    o.z = 5
    V.check_eq('value', V.do(o.pack), V.cat(xe, ye, V.encode_int(5, 1)))
    V.check('kept', V.call(obj(V, c, y=y).pack).raised)      # no value


@unit('C09', 'nested', reach=['value', 'elsewhere', 'decoded'], budget=150)
def nested(V):
    """a buffer of variable size inside another, at an open location or followed by more"""
    V.modular()
    m = V.mod(BU)
    d, y = V.bytearray('d', 0, 255), V.bytearray('y', 0, LIMIT)
    n = V.len(d)
    ne, d0, y0 = V.encode_int(n, 1), V.snapshot(d), V.snapshot(y)
    at = V.int('at', 0, LIMIT, soft=5)
    k = m.uint_field(where=m.bytes_ref[0], set_before_pack=m.len_ref(m.self_ref.d))
    inner = cls(V, 'I', k=k, d=m.bytearray_field(where=m.bytes_ref[1:1 + k]))
    layout = V.choice('layout', ['open', 'followed', 'twice'])
    x = m.buffer_field(inner, where=m.bytes_ref[at:])
    attrs = dict(x=x)
    pieces = [piece(V, at, V.cat(ne, d0))]
    vals = dict(x=obj(V, inner, d=d))
    if layout == 'followed':
        attrs['y'] = m.bytearray_field(where=m.bytes_ref[m.after_ref(x):])
        pieces.append(piece(V, at + 1 + n, y0))
        vals['y'] = y
    elif layout == 'twice':
        attrs['a'] = m.buffer_field(inner, where=m.bytes_ref[m.after_ref(x):])
        pieces.append(piece(V, at + 1 + n, V.cat(ne, d0)))
        vals['a'] = obj(V, inner, d=d)
    c = cls(V, **attrs)
    o = V.call(obj(V, c, **vals).pack)
    V.check('packed', o.ok)
    if not o.ok:
        return
    placed(V, o.value, pieces)
    e = obj(V, c)
    rest = y0 if layout == 'followed' else V.cat(ne, d0) if layout == 'twice' else V.zeros(0)
    u = V.call(e.unpack, V.cat(V.bytes('gap', at, at), ne, d0, rest))
    V.check('unpacked', u.ok)
    if u.ok:
        V.check('type', V.type(e.x) is inner)
        V.check('decoded', V.eq(e.x.k, n))
        V.check_eq('decoded', e.x.d, d0)
        if layout == 'followed':
            V.check_eq('decoded', e.y, y0)
        elif layout == 'twice':
            V.check_eq('decoded', e.a.d, d0)


@unit('C09', 'three', reach=['value', 'elsewhere', 'decoded'], budget=200)
def three(V):
    """a middle field that may be absent, between two others"""
    V.modular()
    m = V.mod(BU)
    x, y, z = [V.bytearray(n, 0, LIMIT) for n in 'xyz']
    nx, ny, nz = V.len(x), V.len(y), V.len(z)
    a, b, c_, end = spots(V, nx, ny, nz, order=V.choice('first', [0, 3, 5]))
    on, read = V.choice('on', [(True, True), (False, False), (True, False), (False, True)])
    c = cls(V, x=m.bytearray_field(where=m.bytes_ref[a:a + nx]), y=m.bytearray_field(where=m.bytes_ref[b:b + ny], pack_if=on, unpack_if=read),
            z=m.bytearray_field(where=m.bytes_ref[c_:c_ + nz]))
    pieces = [piece(V, a, x), piece(V, b, y), piece(V, c_, z)]
    o = V.call(obj(V, c, x=x, y=y, z=z).pack)
    V.check('packed', o.ok)
    if o.ok:
        placed(V, o.value, pieces if on else [pieces[0], pieces[2]], end)
    e = obj(V, c)
    data = V.bytes('data', end, LIMIT)
    u = V.call(e.unpack, data)
    V.check('unpacked', u.ok)
    if u.ok:
        V.check_eq('decoded', e.x, V.sub(data, a, a + nx))
        V.check_eq('decoded', e.z, V.sub(data, c_, c_ + nz))
        if read:
            V.check_eq('decoded', e.y, V.sub(data, b, b + ny))
        else:
            V.check('decoded', e.y is None)


def choice_of(V, seen):
    """a chooser of the type by a field read before: (fields of the object, chooser, types)"""
    m = V.mod(BU)
    one = cls(V, 'One', a=m.be_uint_field(where=m.bytes_ref[0:2]))
    n = m.uint_field(where=m.bytes_ref[0])
    two = cls(V, 'Two', n=n, d=m.bytearray_field(where=m.bytes_ref[1:1 + n]))

    def chooser(o, buffer, **kw):
        seen.append((o, o.k, buffer, kw))
        if V.truth(V.eq(o.k, 1)):
            return one
        if V.truth(V.eq(o.k, 2)):
            return two
        if V.truth(V.eq(o.k, 3)):
            return buffer.to_bytes()[0:3], 3
        return None
    return one, two, chooser


@unit('C09', 'chosen', reach=['type', 'decoded', 'nothing'], budget=150)
def chosen(V):
    """a field whose type is chosen when unpacking, and what follows it"""
    V.modular()
    m = V.mod(BU)
    seen = []
    one, two, chooser = choice_of(V, seen)
    at = V.int('at', 1, LIMIT, soft=4)
    kind = V.choice('kind', [1, 2, 3, 0])
    k = V.int('k', kind, kind) if kind else V.int('other', 4, 255)
    ke = V.encode_int(k, 1)
    kf = m.uint_field(where=m.bytes_ref[0])
    xf = m.buffer_field(V.choice('declared', [one, two]), unpack_selector=chooser, unpack_after=kf, where=m.bytes_ref[at:])
    attrs = [('k', kf), ('x', xf), ('y', m.bytearray_field(where=m.bytes_ref[m.after_ref(xf):]))]
    if V.choice('order', [False, True]):
        attrs = attrs[::-1]
    c = cls(V, **dict(attrs))
    d = V.bytes('d', 0, 255)
    a, ae = uint(V, 'a', 2, 'big')
    body = ae if kind == 1 else V.cat(V.encode_int(V.len(d), 1), d) if kind == 2 else V.bytes('raw', n=3) if kind == 3 else V.zeros(0)
    rest = V.bytes('rest', 0, LIMIT)
    e = obj(V, c)
    u = V.call(e.unpack, V.cat(ke, V.bytes('gap', at - 1, at - 1), body, rest))
    V.check('unpacked', u.ok)
    if not u.ok:
        return
    V.check('once', len(seen) == 1)
    V.check('once', seen[0][0] is e and V.eq(seen[0][1], k))
    V.check_eq('section', V.do(seen[0][2].to_bytes), V.cat(body, rest))
    V.check_eq('decoded', e.y, rest)
    if kind == 1:
        V.check('type', type(e.x) is one and V.eq(e.x.a, a))
    elif kind == 2:
        V.check('type', type(e.x) is two and V.eq(e.x.n, V.len(d)))
        V.check_eq('decoded', e.x.d, d)
    elif kind == 3:
        V.check_eq('decoded', e.x, body)
    else:
        V.check('nothing', e.x is None)


@unit('C09', 'chosen-list', reach=['type', 'decoded'], sym=False, bounded='lists of up to three elements (the list codec for any number: C07.lists-unpacked)')
def chosen_list(V):
    """a list of elements each of which has its own type"""
    m = V.mod(BU)
    one = cls(V, 'One', t=m.uint_field(where=m.bytes_ref[0]), a=m.be_uint_field(where=m.bytes_ref[1:3]))
    two = cls(V, 'Two', t=m.uint_field(where=m.bytes_ref[0]), b=m.uint_field(where=m.bytes_ref[1]))
    told = []

    def chooser(o, buffer, index=None, container=None, n=None, **kw):
        told.append((o, index, len(container), n))
        return one if V.truth(V.eq(V.byte(buffer.to_bytes(), 0), 1)) else two
    types = V.choice('types', [(), (1,), (2,), (1, 2), (2, 1), (2, 2, 1), (1, 2, 1)])
    counted = V.choice('count', ['none', 'given', 'fewer'])
    n = None if counted == 'none' else len(types) if counted == 'given' else max(0, len(types) - 1)
    f = m.list_field(V.choice('declared', [one, two]), n=n, unpack_selector=chooser, where=m.bytes_ref[1:])
    c = cls(V, k=m.uint_field(where=m.bytes_ref[0]), x=f)
    values, parts = [], []
    for j, t in enumerate(types):
        v, ve = uint(V, 'v%d' % j, 2 if t == 1 else 1, 'big')
        values.append(obj(V, one, t=1, a=v) if t == 1 else obj(V, two, t=2, b=v))
        parts.append(V.cat(V.encode_int(t, 1), ve))
    data = V.cat(V.encode_int(7, 1), *parts)
    V.check_eq('packed', V.do(obj(V, c, k=7, x=V.plist(values)).pack), data)
    e = obj(V, c)
    V.do(e.unpack, data)
    expect = values if n is None else values[:n]
    V.check('count', V.eq(V.len(e.x), len(expect)))
    V.check('told', len(told) == len(expect))
    for j, v in enumerate(expect):
        V.check('told', told[j][0] is e and told[j][1] == j and told[j][2] == j and told[j][3] == n)
        x = V.elem(e.x, j)
        V.check('type', type(x) is type(v))
        V.check('decoded', V.eq(x.a, v.a) if types[j] == 1 else V.eq(x.b, v.b))


@unit('C09', 'overlap', reach=['refused', 'accepted', 'decoded'], budget=120)
def overlap(V):
    """a field whose own parts share a bit has no place"""
    V.modular()
    m = V.mod(BU)
    parts = [(V.int('a%d' % j, 0, LIMIT, soft=6), V.int('n%d' % j, 0, LIMIT, soft=4)) for j in range(2)]
    how = V.choice('how', ['sum', 'list', 'counted', 'bits', 'open'])
    (a, n), (b, k) = parts
    fields, vals = {}, {}
    x = V.bytearray('x', n + k, n + k)
    if how in ('sum', 'list'):
        where = m.bytes_ref[a:a + n] + m.bytes_ref[b:b + k] if how == 'sum' else m.bytes_ref[V.plist([slice(a, a + n), slice(b, b + k)])]
        fields['x'] = m.bytearray_field(where=where)
    elif how == 'counted':
        V.assume(V.and_(a >= 1, b >= 1, n <= 255))
        c = m.uint_field(where=m.bytes_ref[0])
        fields = dict(c=c, x=m.bytearray_field(where=m.bytes_ref[a:a + c] + m.bytes_ref[b:b + k]))
        vals['c'] = n
    elif how == 'open':
        V.assume(V.and_(b >= a, V.or_(n == 0, b >= a + n)) if V.choice('apart', [True, False]) else V.and_(n > 0, b < a + n))
        fields['x'] = m.bytearray_field(where=m.bytes_ref[a:a + n] + m.bytes_ref[b:])
    else:
        V.assume(V.and_(n <= 3, k <= 3, a <= 20, b <= 20))
        n, k = 8 * n, 8 * k
        fields['x'] = m.bytearray_field(where=m.bytes_ref[3:50].bits[a:a + n] + m.bytes_ref[3:50].bits[b:b + k])
        V.assume(V.and_(n > 0, k > 0))
    end = V.max_(a + n, b + k) if how != 'bits' else 60
    data = V.bytes('data', end, LIMIT)
    shared = V.and_(n > 0, k > 0 if how != 'open' else True, V.max_(a, b) < (V.min_(a + n, b + k) if how != 'open' else a + n))
    made = V.call(lambda: type(m.Buffer)('B', (m.Buffer,), fields))
    if made.raised:
        V.check('refused', shared)
        return
    o = V.call(obj(V, made.value, x=x, **vals).pack)
    V.check('refused', V.implies(shared, o.raised))
    V.check('accepted', V.implies(V.not_(shared), o.ok))
    e = obj(V, made.value)
    if how == 'counted':
        data = V.cat(V.encode_int(n, 1), data)
    u = V.call(e.unpack, data)
    V.check('refused', V.implies(shared, u.raised))
    V.check('decoded', V.implies(V.not_(shared), u.ok))


class Known(object):
    """a reference with a known value"""

    def __init__(self, value):
        self.value = value

    def deref(self, ctx):
        return self.value


def any_fields(V, kind):
    """(fields of arbitrary values at arbitrary disjoint places, any number of them, the places, the values)"""
    m, RG = V.mod(BU), V.mod('buffer.range')

    def one(E):
        start = E.int('start', 0, 8 * LIMIT, soft=96)
        return (start / 8.0 if kind == 'float' else start), E.bytes('data', 0, LIMIT), V.eq(E.int('off', 0, 3), 0) if kind == 'conditions' else False
    es = V.list('f', one)
    spot = lambda e: V.new(RG.SequentialRange, e[0], e[0] + (0 if kind == 'conditions' and V.truth(e[2]) else V.len(e[1])))
    places = V.mapped(es, spot)

    class Field(object):
        """what the loop over the fields uses of one"""

        def __init__(self, e):
            self.pack_if, self.pack_ref = Known(True), Known(e[1])
            if kind == 'conditions' and V.truth(e[2]):
                self.pack_if = Known(False)
            self.pack_absolute_position_ref = Known(RG.SequentialRangeList([spot(e)]))

        def attr_name(self):
            return 'field'
    return es, places, V.mapped(es, Field)


@unit('C09', 'any-number', reach=['value', 'elsewhere', 'declared', 'refused'], budget=200)
def any_number(V):
    """packing a class with any number of fields"""
    V.modular()
    m = V.mod(BU)
    kind = V.choice('kind', ['int', 'float', 'conditions', 'declared'])
    declared = V.int('declared', 1, LIMIT, soft=16) if kind == 'declared' else None
    es, places, fields = any_fields(V, kind)
    owner = V.disjoint(places)
    if V.symbolic:
        class Type(type(m.Buffer)):
            def all_fields(c):
                return c.known_fields
        c = Type('B', (m.Buffer,), dict(known_fields=[], byte_size=declared))
        c.known_fields = fields
        o = object.__new__(c)
    else:
        def field(e):
            a, n = e[0] * 8, 8 * V.len(e[1])
            return m.bytearray_field(where=m.bytes_ref[0:(1 << 40)].bits[int(a):int(a) + n], pack_if=not e[2])
        c = cls(V, byte_size=declared, **dict(('f%d' % j, field(e)) for j, e in enumerate(es)))
        o = obj(V, c, **dict(('f%d' % j, bytearray(e[1])) for j, e in enumerate(es)))
    n = V.len(es)
    out = V.call(o.pack)
    if kind == 'declared' and out.raised:
        V.check('refused', V.exists('stop', n, lambda j: V.elem(places, j).stop > declared))
        return
    V.check('accepted', out.ok)
    packed = V.snapshot(out.value)
    size = V.len(packed)
    stored = lambda j: V.not_(V.elem(es, j)[2])
    end = lambda j: V.bits_of(V.elem(places, j).stop)
    V.all('size', n, lambda j: V.or_(V.not_(stored(j)), end(j) <= 8 * size))
    if kind == 'declared':
        V.check('declared', V.eq(size, declared))
    else:
        V.check('no-larger', V.or_(V.eq(size, 0), V.exists('stop', n, lambda j: V.and_(stored(j), V.eq(V.ceil_bytes(end(j)), size)))))

    def value(j):
        a = V.bits_of(V.elem(es, j)[0])
        data = V.elem(es, j)[1]
        V.all('value', 8 * V.len(data), lambda q: V.or_(V.not_(stored(j)), V.iff(V.bit(packed, a + q), V.bit(data, q))))
    V.cases('each', n, value)
    V.all('elsewhere', 8 * size, lambda p: V.or_(owner(p) >= 0, V.not_(V.bit(packed, p))))
