"""C16: a struct is the concatenation of its fields and round-trips."""
from engine.specapi import unit
from .common import NUMBERS, Refused, abstract_fields, element, number, one, struct, varint


@unit('C16', 'list', reach=['bytes', 'all-read'])
def any_list(V):
    """any list of fields that encode their part of the object as some bytes"""
    values = V.values('f')
    fields, reader = abstract_fields(V, values)
    cls = V.do(struct, V, fields, __init__=lambda self: V.put(reader, 'obj', self))
    obj = V.do(cls)
    before = V.bytes('before', 0, 3)
    s = V.stream(b'')
    V.do(s.write, before)
    V.do(cls.write_to_stream, obj, s)
    V.check_eq('bytes', V.written(s), V.cat(before, V.joined(values)))
    V.check_eq('to_bytes', V.do(obj.to_bytes), V.joined(values))
    rest = V.bytes('rest', 0, 3)
    t = V.stream(V.cat(V.joined(values), rest))
    back = V.do(cls.create_from_stream, t)
    V.check_eq('rest', V.do(t.read), rest)
    V.check('all-read', V.eq(reader.cursor, V.len(values)))
    V.check('own-object', back is reader.obj and back is not obj)


def parts(V, n, context=None):
    """n named fields with an abstract type and value each"""
    m = V.mod('struct')
    values = [V.value('v%d' % i) for i in range(n)]
    return values, [m.Field('f%d' % i, element(V, V.plist([v]), context=context)) for i, v in enumerate(values)]


def restores(V, cls, names, values, data):
    """reading data gives the values and consumes all of it"""
    rest = V.bytes('rest', 0, 3)
    t = V.stream(V.cat(data, rest))
    back = V.do(cls.create_from_stream, t)
    V.check_eq('rest', V.do(t.read), rest)
    for n, v in zip(names, values):
        V.check('back', V.eq(getattr(back, n), v))
    return back


@unit('C16', 'fields', reach=['bytes', 'back'])
def fields(V):
    """named fields, however the values are given"""
    n = V.choice('n', [0, 1, 2, 3, 4])
    seen = []
    values, fs = parts(V, n, lambda c: seen.append(c.get('struct', None)))
    cls = struct(V, fs)
    names = ['f%d' % i for i in range(n)]
    if V.choice('how', ['arguments', 'attributes']) == 'arguments':
        obj = V.do(cls, **dict(zip(names, values)))
    else:
        obj = V.do(cls)
        for k, v in zip(names, values):
            setattr(obj, k, v)
    got = V.do(cls.write_to_string, obj)
    V.check_eq('bytes', got, V.cat(*[v.data for v in values]))
    V.check('context', len(seen) == n and all(x is obj for x in seen))
    for k, v in zip(names, values):
        V.check('kept', V.eq(getattr(obj, k), v))
    del seen[:]
    back = restores(V, cls, names, values, got)
    V.check('context', len(seen) == n and all(x is back for x in seen))


@unit('C16', 'const', reach=['bytes', 'accepted', 'refused', 'fixed'])
def const(V):
    """a constant field: written whatever happens, any other value is refused"""
    name = V.choice('type', NUMBERS)
    m, size, order = number(V, name)
    value, other = V.int('value', 0, (1 << (8 * size)) - 1), V.int('other', 0, (1 << (8 * size)) - 1)
    values, (first, last) = parts(V, 2)
    f = V.do(V.mod('struct_macros').ConstField, 'c', value, m)
    cls = struct(V, [first, f, last])
    obj = V.do(cls, f0=values[0], f1=values[1])
    V.check('value', V.eq(obj.c, value))
    enc = lambda x: V.cat(values[0].data, V.encode_int(x, size, order), values[1].data)
    V.check_eq('bytes', V.do(cls.write_to_string, obj), enc(value))
    V.check('sizeof', V.eq(V.do(cls.sizeof, obj), V.len(enc(value))))
    o = V.call(cls.create_from_string, enc(other))
    if V.truth(other == value):
        V.check('accepted', o.ok)
        if o.ok:
            V.check('back', V.and_(V.eq(o.value.f0, values[0]), V.eq(o.value.c, value), V.eq(o.value.f1, values[1])))
    else:
        V.check('refused', o.raised)
    o = V.call(setattr, obj, 'c', other)
    V.check('fixed', V.iff(o.ok, other == value))
    V.check('value', V.eq(obj.c, value))


@unit('C16', 'const-struct', reach=['bytes', 'accepted', 'refused'])
def const_struct(V):
    """a constant field whose value is a struct"""
    n = V.mod('numeric_macros')
    inner = struct(V, [n.UBInt8('p')])
    p, x = V.int('p', 0, 255), V.int('x', 0, 255)
    (last,), (f,) = parts(V, 1)
    cls = struct(V, [V.do(V.mod('struct_macros').ConstField, 'c', V.new(inner, p=p)), f])
    V.check_eq('bytes', V.do(cls.write_to_string, V.new(cls, f0=last)), V.cat(one(V, p), last.data))
    o = V.call(cls.create_from_string, V.cat(one(V, x), last.data))
    if V.truth(x == p):
        V.check('accepted', o.ok)
        if o.ok:
            V.check('back', V.and_(V.eq(o.value.c.p, p), V.eq(o.value.f0, last)))
    else:
        V.check('refused', o.raised)


@unit('C16', 'optional', reach=['bytes', 'back', 'absent'])
def optional(V):
    """an optional field is absent exactly when unset, or when its predicate fails on read"""
    m = V.mod('struct_macros')
    flag = V.int('flag', 0, 255)
    value, last = V.value('v'), V.value('last')
    asked = []

    def predicate(obj, stream, context):
        asked.append((obj.flag, V.do(stream.tell), context.get('struct', None) is obj))
        return obj.flag != 0
    f = m.OptionalField('o', element(V, V.plist([value])), predicate)
    cls = struct(V, [V.mod('numeric_macros').UBInt8('flag'), f, V.mod('struct').Field('last', element(V, V.plist([last])))])
    obj = V.do(cls, flag=flag, last=last)
    there = V.choice('set', [True, False])
    if there:
        obj.o = value
    V.check('unset', there or obj.o is None)
    enc = lambda there: V.cat(one(V, flag), value.data if there else b'', last.data)
    got = V.do(cls.write_to_string, obj)
    V.check_eq('bytes', got, enc(there))
    V.check('sizeof', V.eq(V.do(cls.sizeof, obj), V.len(got)))
    if V.truth(flag != 0):
        back = restores(V, cls, ['o', 'last'], [value, last], enc(True))
    else:
        back = restores(V, cls, ['last'], [last], enc(False))
        V.check('absent', back.o is None)
    V.check('asked', len(asked) == 1 and V.truth(V.and_(V.eq(asked[0][0], flag), V.eq(asked[0][1], 1))) and asked[0][2])


@unit('C16', 'mapping', reach=['bytes', 'back', 'unmapped', 'unknown'])
def mapping(V):
    """mapped values are written as their number and read back as themselves"""
    name = V.choice('type', NUMBERS)
    m, size, order = number(V, name)
    keys = ['a', 'b', 'c']
    nums = [V.int('x%d' % i, 0, (1 << (8 * size)) - 1) for i in range(3)]
    V.assume(V.and_(*[V.not_(nums[i] == nums[j]) for i in range(3) for j in range(i)]))
    mm = V.new(V.mod('mapping').FixedSizeMappingMarshal, V.new(dict, zip(keys, nums)), m)
    cls = struct(V, [V.mod('struct').Field('k', mm)])
    i = V.choice('i', [0, 1, 2])
    got = V.do(cls.write_to_string, V.new(cls, k=keys[i]))
    V.check_eq('bytes', got, V.encode_int(nums[i], size, order))
    back = V.do(cls.create_from_string, got)
    V.check('back', back.k == keys[i])
    V.check('sizeof', V.eq(V.do(cls.sizeof, back), size))
    V.check('unmapped', V.call(cls.write_to_string, V.new(cls, k='d')).raised)
    y = V.int('y', 0, (1 << (8 * size)) - 1)
    o = V.call(cls.create_from_string, V.encode_int(y, size, order))
    V.check('unknown', V.iff(o.ok, V.or_(*[y == x for x in nums])))


ACCESS = [[], [0], [1], [2], [0, 1, 2], [2, 1, 0], [1, 1, 0, 2], [2, 0]]


@unit('C16', 'lazy', reach=['bytes', 'same', 'back'])
def lazy(V):
    """a lazily decoded group: same as decoding eagerly, whatever is accessed or set, and when"""
    m, n = V.mod('struct_macros'), V.mod('struct')
    sizes = [V.int('s%d' % i, 0, 1 << 30, soft=4) for i in range(3)]
    values = [V.value('v%d' % i, n=s) for i, s in enumerate(sizes)]
    ends = [V.value('before'), V.value('after')]
    end = [n.Field(k, element(V, V.plist([v]))) for k, v in zip(['first', 'last'], ends)]
    seen = []
    group = [n.Field('f%d' % i, element(V, V.plist([v]), (s, s), context=lambda c: seen.append(c.get('struct', None))))
             for i, (v, s) in enumerate(zip(values, sizes))]
    cls = struct(V, [end[0], V.do(m.Lazy, *group), end[1]])
    enc = V.cat(ends[0].data, *([v.data for v in values] + [ends[1].data]))
    obj = V.do(cls, first=ends[0], last=ends[1], f0=values[0], f1=values[1])
    V.do(setattr, obj, 'f2', values[2])
    V.check_eq('bytes', V.do(cls.write_to_string, obj), enc)
    V.check('context', len(seen) == 3 and all(x is obj for x in seen))
    back = restores(V, cls, ['first', 'last'], ends, enc)
    del seen[:]
    for i in V.choice('access', ACCESS):
        V.check('same', V.eq(V.do(getattr, back, 'f%d' % i), values[i]))
    if V.choice('then', ['write', 'set']) == 'set':
        i = V.choice('which', [0, 1, 2])
        new = V.value('new', n=sizes[i])
        V.do(setattr, back, 'f%d' % i, new)
        values[i] = new
        enc = V.cat(ends[0].data, *([v.data for v in values] + [ends[1].data]))
        V.check('same', V.eq(V.do(getattr, back, 'f%d' % i), new))
    V.check('sizeof', V.eq(V.do(cls.sizeof, back), V.len(enc)))
    V.check_eq('again', V.do(cls.write_to_string, back), enc)
    V.check('context', all(x is back for x in seen))
    for i in range(3):
        V.check('back', V.eq(V.do(getattr, back, 'f%d' % i), values[i]))


@unit('C16', 'lazy-two', reach=['bytes', 'same', 'kept'])
def lazy_two(V):
    """two lazily decoded groups of one struct, and of one object and another, do not disturb each other"""
    m, n = V.mod('struct_macros'), V.mod('struct')
    size = V.int('size', 0, 1 << 30, soft=4)
    values = [V.bytes('v%d' % i, n=size) for i in range(4)]
    t = V.new(V.mod('string').FixedSizeBufferMarshal, size)
    cls = struct(V, [V.do(m.Lazy, n.Field('a', t), n.Field('b', t)), V.do(m.Lazy, n.Field('c', t), n.Field('d', t))])
    data = values
    one_, other = V.do(cls.create_from_string, V.cat(*data)), V.do(cls.create_from_string, V.cat(*reversed(data)))
    names = V.choice('order', ['abcd', 'cdab', 'dacb', 'c', 'a'])
    if V.choice('other', [0, 1]):
        V.check('same', V.eq(V.do(getattr, other, 'b'), values[2]))
    for k in names:
        V.check('same', V.eq(V.do(getattr, one_, k), values['abcd'.index(k)]))
    V.check_eq('bytes', V.do(cls.write_to_string, one_), V.cat(*data))
    V.check_eq('bytes', V.do(cls.write_to_string, other), V.cat(*reversed(data)))
    new = V.bytes('new', n=size)
    third = V.do(cls.create_from_string, V.cat(*data))
    V.do(setattr, third, 'b', new)
    V.check('kept', V.and_(V.eq(V.do(getattr, third, 'b'), new), V.eq(V.do(getattr, third, 'c'), values[2]), V.eq(V.do(getattr, one_, 'b'), values[1])))


@unit('C16', 'lazy-defaults', reach=['default', 'bytes', 'const', 'wrong'])
def lazy_defaults(V):
    """unset fields of a lazy group have their defaults, constants stay constant, as when decoded eagerly"""
    m, f = V.mod('struct_macros'), V.mod('struct').Field
    sizes = [V.int('s%d' % i, 0, 1 << 30, soft=4) for i in range(2)]
    a, d = [V.value(k, n=s) for k, s in zip('ad', sizes)]
    c, x = V.int('c', 0, 255), V.int('x', 0, 255)
    fs = [f('a', element(V, V.plist([a]), (sizes[0], sizes[0])), a), m.ConstField('c', c, V.mod('numeric_macros').UBInt8),
          f('d', element(V, V.plist([d]), (sizes[1], sizes[1])))]
    cls = struct(V, [V.do(m.Lazy, *fs)] if V.choice('kind', ['lazy', 'eager']) == 'lazy' else fs)
    enc = lambda x: V.cat(a.data, one(V, x), d.data)
    obj = V.do(cls)
    V.check('default', V.and_(V.eq(V.do(getattr, obj, 'a'), a), V.do(getattr, obj, 'd') is None))
    obj = V.do(cls, d=d)
    V.check('const', V.eq(V.do(getattr, obj, 'c'), c))
    V.check_eq('bytes', V.do(cls.write_to_string, obj), enc(c))
    V.check('const', V.iff(V.call(setattr, obj, 'c', x).ok, x == c))
    V.check('const', V.eq(V.do(getattr, obj, 'c'), c))
    if V.choice('read', ['right', 'any']) == 'right':
        back = V.do(cls.create_from_string, enc(c))
        V.check('back', V.and_(V.eq(V.do(getattr, back, 'a'), a), V.eq(V.do(getattr, back, 'c'), c), V.eq(V.do(getattr, back, 'd'), d)))
    else:
        o = V.call(lambda: V.new(cls.create_from_string, enc(x)).c)
        V.check('wrong', V.iff(o.ok, x == c))


@unit('C16', 'pointer', reach=['bytes', 'back'])
def pointer(V):
    """a length read from another field of the same struct, also when that is nested in another"""
    m, n = V.mod('struct_macros'), V.mod('numeric_macros')
    size = V.int('size', 0, 65535, soft=6)
    data = V.bytes('data', n=size)
    fields = [n.UBInt16('length'), V.new(V.mod('string_macros').VarSizeBuffer, 'content', m.ReadPointer('length'))]
    inner = struct(V, fields, **V.choice('own context', [dict(), dict(_context_=dict(a=1))]))
    enc = V.cat(V.encode_int(size, 2, 'big'), data)
    obj = V.new(inner, length=size, content=data)
    names, values = ['length', 'content'], [size, data]
    if V.choice('nested', [0, 1]):
        outer = struct(V, [n.UBInt8('length'), V.mod('struct').Field('inner', inner)])
        x = V.int('x', 0, 255)
        enc = V.cat(one(V, x), enc)
        V.check_eq('bytes', V.do(outer.write_to_string, V.new(outer, length=x, inner=obj)), enc)
        back = restores(V, outer, ['length'], [x], enc)
        V.check('back', V.and_(V.eq(back.inner.length, size), V.eq(back.inner.content, data)))
    else:
        V.check_eq('bytes', V.do(inner.write_to_string, obj), enc)
        restores(V, inner, names, values, enc)


@unit('C16', 'nested', reach=['bytes', 'back'])
def nested(V):
    """a struct as the type of a field, two levels deep"""
    f = V.mod('struct').Field
    values, (a, b, c, d) = parts(V, 4)
    low = struct(V, [b, c])
    mid = struct(V, [f('low', low)])
    top = struct(V, [a, f('mid', mid), d])
    enc = V.cat(*[v.data for v in values])
    obj = V.new(top, f0=values[0], mid=V.new(mid, low=V.new(low, f1=values[1], f2=values[2])), f3=values[3])
    V.check_eq('bytes', V.do(top.write_to_string, obj), enc)
    V.check('sizeof', V.eq(V.do(top.sizeof, obj), V.len(enc)))
    back = restores(V, top, ['f0', 'f3'], [values[0], values[3]], enc)
    V.check('back', V.and_(V.eq(back.mid.low.f1, values[1]), V.eq(back.mid.low.f2, values[2])))
    V.check('types', type(back) is top and type(back.mid) is mid and type(back.mid.low) is low)


@unit('C16', 'inherited', reach=['bytes', 'back'])
def inherited(V):
    """declarations found through the bases"""
    values, (a, b) = parts(V, 2)
    base = struct(V, [a])
    how = V.choice('how', ['same', 'other', 'extended', 'mixin'])
    names = ['f0', 'f1']
    if how == 'same':
        cls, k = type(base)('T', (base,), {}), 1
    elif how == 'extended':
        cls, k = type(base)('T', (base,), dict(_fields_=base._fields_ + [b])), 2
    elif how == 'other':
        cls, names, values, k = type(base)('T', (base,), dict(_fields_=[b])), ['f1'], values[1:], 1
    else:
        mix = type('Mixin', (object,), dict(_fields_=[a, b]))
        cls, k = type(base)('T', (mix, V.mod('struct').Struct), {}), 2
    values = values[:k]
    obj = V.do(cls, **dict(zip(names, values)))
    got = V.do(cls.write_to_string, obj)
    V.check_eq('bytes', got, V.cat(*[v.data for v in values]))
    V.check('type', type(restores(V, cls, names, values, got)) is cls)


def told_field(V, seen, counted):
    """(field of some kind, encoding, value, number of elements): every element tells the context and arguments it was given"""
    S, m, b, A = V.mod('struct'), V.mod('struct_macros'), V.mod('base'), V.mod('array')

    class Told(b.Marshal):
        unit_ = 1

        def min_max_sizeof(self):
            return b.MinMax(self.unit_, self.unit_)

        def sizeof(self, obj):
            return self.unit_

        def create_from_stream(self, stream, context=None, *args, **kwargs):
            seen.append((context.get('color', None), args, kwargs))
            return V.do(stream.read, self.unit_)

        def write_to_stream(self, obj, stream, context=None):
            seen.append((context.get('color', None), (), {}))
            V.do(stream.write, *([obj] if self.unit_ == 1 else [obj, 8]))

        def to_repr(self, obj, context=None):
            seen.append((context.get('color', None), (), {}))
            return 'x'

    class ToldNumber(Told):
        def create_from_stream(self, *args, **kwargs):
            return V.byte(Told.create_from_stream(self, *args, **kwargs), 0)

        def write_to_stream(self, obj, *args, **kwargs):
            return Told.write_to_stream(self, one(V, obj), *args, **kwargs)

    class ToldBits(Told):
        unit_ = 8

    class Counter(b.Marshal):
        def min_max_sizeof(self):
            return b.MinMax(1, 1)

        def sizeof(self, obj):
            return 1

        def create_from_stream(self, stream, context=None, *args, **kwargs):
            counted.append(context.get('color', None))
            return V.byte(V.do(stream.read, 1), 0)

        def write_to_stream(self, obj, stream, context=None):
            counted.append(context.get('color', None))
            V.do(stream.write, one(V, obj))

        def to_repr(self, obj, context=None):
            return 'n'
    t, n = V.new(Told), V.new(Counter)
    kind = V.choice('kind', ['plain', 'const', 'optional', 'lazy', 'unnamed', 'array', 'counted array', 'summed array', 'struct', 'selected',
                             'by function', 'wrapped', 'mapped', 'bits', 'list'])
    byte = V.bytes('byte', n=1)
    V.assume(V.byte(byte, 0) < 128)         # (also the key of a selected struct)
    enc, count, value = byte, 1, byte
    Inner = struct(V, [S.Field('v', t)])
    if kind == 'plain':
        f = S.Field('x', t)
    elif kind == 'const':
        f = V.do(m.ConstField, 'x', byte, t)
    elif kind == 'optional':
        f = m.OptionalField('x', t, lambda obj, stream, context: True)
    elif kind == 'lazy':
        f = m.Lazy(S.Field('x', t))
    elif kind == 'unnamed':
        f = S.AnonymousField(t)
    elif kind == 'list':
        f = S.FieldListContainer([S.Field('x', t)])
    elif kind == 'array':
        f, enc, count, value = S.Field('x', V.new(A.FixedSizeArrayMarshal, 2, t)), V.cat(byte, byte), 2, V.plist([byte, byte])
    elif kind == 'counted array':
        f, enc, count, value = S.Field('x', V.new(A.VarSizeArrayMarshal, n, t)), V.cat(one(V, 2), byte, byte), 2, V.plist([byte, byte])
    elif kind == 'summed array':
        f, enc, count, value = S.Field('x', V.new(A.SumSizeArrayMarshal, n, t)), V.cat(one(V, 2), byte, byte), 2, V.plist([byte, byte])
    elif kind == 'struct':
        f = S.Field('x', Inner)
    elif kind == 'selected':
        f = S.Field('x', V.do(m.StructSelector, n, {}, Inner))
    elif kind == 'by function':
        f = V.do(m.SelectStructByFunc, 'x', lambda obj, stream, context: Inner)
    elif kind == 'mapped':
        V.assume(V.byte(byte, 0) > 0)
        f, value = S.Field('x', V.new(V.mod('mapping').FixedSizeMappingMarshal, V.new(dict, zip(['A', 'B'], [V.byte(byte, 0), 0])), V.new(ToldNumber))), 'A'
    elif kind == 'bits':
        f, value = V.do(m.BitFields, S.Field('x', V.new(ToldBits))), V.byte(byte, 0)
    else:
        f = V.do(V.new(V.mod('numeric_macros').MarshalWithField, V.new(V.mod('numeric_macros').MarshalWithField, t)), 'x')
    if kind in ('struct', 'selected', 'by function'):
        value = None if seen is None else ('struct', Inner)
    return kind, f, enc, value, count


@unit('C16', 'passed-on', reach=['context', 'arguments', 'initialiser'])
def passed_on(V):
    """the context and the arguments given when reading reach the initialiser and the type of every field, through every kind of container"""
    b = V.mod('base')
    seen, counted, inits = [], [], []
    kind, f, enc, value, count = told_field(V, seen, counted)
    args, kwargs = V.choice('given', [((), {}), ((5,), {}), ((5, 6), dict(q=7)), ((), dict(q=7))])

    def init(self, *a, **k):
        inits.append((a, k))
    takes = dict(__init__=init) if args or kwargs else {}
    if takes and kind in ('struct', 'selected', 'by function'):
        V.reject()
    c = struct(V, [f], **takes)
    ctx = V.new(b.WritableContext, dict(color=3) if V.choice('context', [0, 1]) else dict())
    color = ctx.get('color', None)
    data = V.cat(enc, V.bytes('rest', 0, 9))
    how = V.choice('how', ['stream', 'string'])
    o = V.do(c.create_from_stream, V.stream(data), ctx, *args, **kwargs) if how == 'stream' else V.do(c.create_from_string, enc, ctx, *args, **kwargs)
    if kind == 'lazy':
        V.check('context', not seen)
        V.check_eq('arguments', o.x, value)
    V.check('context', len(seen) == count and all(s[0] == color for s in seen) and all(k == color for k in counted))
    V.check('arguments', all(s[1] == args and s[2] == kwargs for s in seen))
    if takes:
        V.check('initialiser', inits == [(args, kwargs)])


@unit('C16', 'passed-on-written', reach=['context', 'written', 'shown'])
def passed_on_written(V):
    """the context given when writing or formatting reaches the type of every field, through every kind of container"""
    b = V.mod('base')
    seen, counted = [], []
    kind, f, enc, value, count = told_field(V, seen, counted)
    if kind == 'unnamed':
        V.reject()                  # (written by types that need no value)
    c = struct(V, [f])
    o = V.new(c)
    if kind in ('struct', 'selected', 'by function'):
        inner = V.new(value[1])
        inner.v = enc
        value = inner
    if kind != 'const':
        o.x = value
    ctx = V.new(b.WritableContext, dict(color=3) if V.choice('context', [0, 1]) else dict())
    color = ctx.get('color', None)
    how = V.choice('how', ['stream', 'string', 'repr'])
    if how == 'repr':
        if kind == 'mapped':
            V.reject()
        V.do(c.to_repr, o, ctx)
        V.check('shown', len(seen) == count and all(s[0] == color for s in seen))
        return
    if how == 'stream':
        out = V.stream(b'')
        V.do(c.write_to_stream, o, out, ctx)
        got = V.written(out)
    else:
        got = V.do(c.write_to_string, o, ctx)
    V.check('context', len(seen) == count and all(s[0] == color for s in seen) and all(k == color for k in counted))
    V.check_eq('written', got, enc)