"""C17: predicted stream sizes are exact and within declared bounds."""
import sys

from engine.specapi import unit
from .common import LIMIT, NUMBERS, abstract_fields, bounds_of, element, number, one, sized, struct, varint

MAX = sys.maxsize


@unit('C17', 'bounds', reach=['min', 'refused', 'one', 'copy'])
def bounds(V):
    """what a pair of bounds stands for"""
    M = V.mod('base').MinMax
    a, b = V.int('a', None, MAX), V.int('b')
    how = V.choice('how', ['two', 'tuple', 'list', 'one', 'none'])
    if how == 'one':
        x = V.do(M, a)
        V.check('one', V.and_(V.eq(x.min, V.max_(a, 0)), V.eq(x.max, MAX)))
        return
    if how == 'none':
        x = V.do(M)
        V.check('one', V.and_(V.eq(x.min, 0), V.eq(x.max, MAX)))
        return
    o = V.call(M, a, b) if how == 'two' else V.call(M, (a, b) if how == 'tuple' else V.plist([a, b]))
    if V.truth(a > b):
        V.check('refused', o.raised)
        return
    V.check('accepted', o.ok)
    if not o.ok:
        return
    x = o.value
    if V.truth(b < 0):
        return                  # no size
    V.check('min', V.eq(x.min, V.max_(a, 0)))
    V.check('max', V.eq(x.max, V.min_(b, MAX)))
    V.check('unbounded', V.iff(V.do(x.is_unbounded), b >= MAX))
    y = V.do(M, x)
    V.check('copy', V.and_(V.eq(y.min, x.min), V.eq(y.max, x.max)))
    V.check('items', V.and_(V.eq(x[0], x.min), V.eq(x[1], x.max)))


@unit('C17', 'adding', reach=['min', 'max'])
def adding(V):
    """bounds are added, the largest size is never exceeded"""
    M = V.mod('base').MinMax

    def draw(i):
        lo, hi = V.int('lo%d' % i, 0, MAX), V.int('hi%d' % i, 0, MAX)
        V.assume(lo <= hi)
        return lo, hi
    (a, b), (c, d) = draw(0), draw(1)
    V.assume(a + c <= MAX)
    x, y = V.do(M, a, b), V.do(M, c, d)
    z = V.do(lambda: x + y)
    V.check('min', V.eq(z.min, a + c))
    V.check('max', V.eq(z.max, V.min_(b + d, MAX)))
    V.check('kept', V.and_(V.eq(x.min, a), V.eq(x.max, b), V.eq(y.min, c), V.eq(y.max, d)))
    V.check('type', isinstance(z, M))


TYPES = [s + e + 'Int' + w for s in 'US' for e in 'BLN' for w in ('8', '16', '32', '64')]
FLOATS = [e + 'Float' + w for e in 'BLN' for w in ('32', '64')]


@unit('C17', 'numbers', reach=['exact', 'fixed-size'])
def numbers(V):
    name = V.choice('type', TYPES + FLOATS)
    m = getattr(V.mod('numeric'), name + 'Marshal')
    w = int(name.lstrip('USBLNIntFloat'))
    if 'F' in name:
        v = V.float('v', w // 8)
    else:
        lo = -(1 << (w - 1)) if name[0] == 'S' else 0
        v = V.int('v', lo, lo + (1 << w) - 1)
    sized(V, m, v, w // 8)
    V.check('fixed-size', V.truth(V.do(m.is_fixed_size)))


def counter(V, numbers):
    """what tells the length, and the largest it can tell"""
    kind = V.choice('prefix', numbers + ['varint', 'pointer', 'callable'])
    if kind == 'varint':
        return varint(V), (1 << 15) - 1
    if kind == 'pointer':
        return V.do(V.mod('struct.pointer').ReadPointer, 'count'), LIMIT
    if kind == 'callable':
        return V.do(V.mod('base').CallableReader, lambda stream, context: 0), LIMIT
    m, size, _ = number(V, kind)
    return m, min((1 << (8 * size)) - 1, LIMIT)


@unit('C17', 'strings', reach=['exact'])
def strings(V):
    """variable sizes, whatever the prefix"""
    m = V.mod('string')
    prefix, top = counter(V, NUMBERS)
    text = V.bytes('text')
    if V.choice('what', ['string', 'buffer']) == 'buffer':
        w = V.do(m.VarSizeBufferMarshal, prefix)
        n = V.len(text)
    else:
        side = V.choice('side', ['RIGHT', 'LEFT', 'BOTH', 'NONE'])
        chars = V.choice('chars', [b'\x00', b' ', b' -'])
        w = V.do(m.VarSizeStringMarshal, prefix, chars, getattr(m, 'PADDING_DIRECTION_' + side))
        n = V.len(V.stripped(text, chars, side in ('LEFT', 'BOTH'), side in ('RIGHT', 'BOTH')))
    V.assume(n <= top)
    sized(V, w, text, None)


@unit('C17', 'fixed-strings', reach=['exact', 'fixed-size'])
def fixed_strings(V):
    m = V.mod('string')
    size = V.int('size', 0, LIMIT, soft=40)
    text = V.bytes('text', 0, size)
    what = V.choice('what', ['string', 'buffer', 'padding'])
    if what == 'buffer':
        V.assume(V.len(text) == size)
        w = V.do(m.FixedSizeBufferMarshal, size)
    elif what == 'padding':
        w = V.do(V.mod('padding').BytePaddingMarshal, size, V.choice('char', [b'\x00', b'x']))
    else:
        w = V.do(m.PaddedStringMarshal, size, b' ', getattr(m, 'PADDING_DIRECTION_' + V.choice('side', ['RIGHT', 'LEFT', 'BOTH'])))
    sized(V, w, text, size)
    V.check('fixed-size', V.truth(V.do(w.is_fixed_size)))


@unit('C17', 'silent', reach=['exact', 'fixed-size'])
def silent(V):
    """readers that leave nothing in the stream"""
    b = V.mod('base')
    v = V.int('v')
    how = V.choice('how', ['const', 'callable', 'pointer'])
    m = (V.do(b.ConstReader, v) if how == 'const' else V.do(b.CallableReader, lambda stream, context: v) if how == 'callable'
         else V.do(V.mod('struct.pointer').ReadPointer, 'f'))
    sized(V, m, v, 0)
    V.check('fixed-size', V.truth(V.do(m.is_fixed_size)))


@unit('C17', 'mapping', reach=['exact', 'fixed-size'])
def mapping(V):
    name = V.choice('type', NUMBERS)
    m, size, _ = number(V, name)
    nums = [V.int('x%d' % i, 0, (1 << (8 * size)) - 1) for i in range(2)]
    V.assume(V.not_(nums[0] == nums[1]))
    w = V.do(V.mod('mapping').FixedSizeMappingMarshal, {'a': nums[0], 'b': nums[1]}, m)
    sized(V, w, V.choice('value', ['a', 'b']), size)
    V.check('fixed-size', V.truth(V.do(w.is_fixed_size)))


def total(V, values):
    """the sum of the sizes, and that it is at most what the bounds allow"""
    return V.len(V.joined(values))


@unit('C17', 'arrays', reach=['exact'])
def arrays(V):
    """elements of any type whose sizes lie within its bounds"""
    m = V.mod('array')
    hi = V.choice('hi', [0, 1, 2, 3, 5, 8, 100])
    lo = V.choice('lo', [0, 1, hi])
    if lo > hi:
        V.reject()
    values = V.values('e', minimum=lo, maximum=hi)
    n = V.len(values)
    size = V.psum(n, lambda k: V.len(V.elem(values, k).data))
    V.induction('total', n, lambda k: V.and_(size(k) >= lo * k, size(k) <= hi * k))
    V.check('sum', V.eq(size(n), V.len(V.joined(values))))
    V.assume(n <= LIMIT)
    how = V.choice('how', ['fixed', 'counted', 'sized'])
    e = element(V, values, bounds=(lo, hi))
    if how == 'fixed':
        w = V.do(m.FixedSizeArrayMarshal, n, e)
        prefix = 0
    else:
        p, top = counter(V, NUMBERS[:3])
        V.assume((n if how == 'counted' else size(n)) <= top)
        w = V.do(m.VarSizeArrayMarshal if how == 'counted' else m.SumSizeArrayMarshal, p, e)
    sized(V, w, values, None)
    if how == 'fixed':
        V.check('fixed-size', V.implies(lo == hi, V.truth(V.do(w.is_fixed_size))))


@unit('C17', 'structs', reach=['exact', 'bounds'])
def structs(V):
    """any list of fields, each with bounds of its own"""
    values = V.values('f', bounded=True)
    fields, reader = abstract_fields(V, values)
    cls = V.do(struct, V, fields, __init__=lambda self: V.put(reader, 'obj', self))
    obj = V.do(cls)
    n = V.len(values)
    size = V.psum(n, lambda k: V.len(V.elem(values, k).data))
    lo, hi = V.psum(n, lambda k: V.elem(values, k).lo), V.psum(n, lambda k: V.elem(values, k).hi)
    V.assume(lo(n) <= LIMIT)
    V.induction('bounds', n, lambda k: V.and_(lo(k) <= size(k), size(k) <= hi(k)))
    V.assume(size(n) <= LIMIT)
    how = V.choice('how', ['plain', 'derived', 'base class', 'field'])
    if how == 'derived':
        cls = type(cls)('D', (cls,), {})
        obj = V.do(cls)
    m = cls
    if how == 'base class':
        m = V.mod('struct').Struct
        V.check('exact', V.eq(V.do(m.sizeof, obj), V.len(V.do(m.write_to_string, obj))))
        return
    if how == 'field':
        m = struct(V, [V.mod('struct').Field('x', cls)])
        obj = V.do(m, x=obj)
    sized(V, m, obj, None)
    b = V.do(m.min_max_sizeof)
    V.check('bounds', V.and_(V.eq(b.min, lo(n)), V.eq(b.max, V.min_(hi(n), MAX))))


def leaf(V, name, fixed=False):
    """an abstract type with one value: (type, value, smallest, largest)"""
    v = V.value(name)
    n = V.len(v.data)
    lo = n if fixed else V.int(name + '.lo', 0, n)
    hi = n if fixed else V.int(name + '.hi', n, LIMIT)
    V.assume(n <= LIMIT)
    return element(V, V.plist([v]), bounds=(lo, hi)), v, lo, hi


@unit('C17', 'own-type', reach=['exact'])
def own_type(V):
    """an object of a class derived from the declared one takes as many bytes as are written"""
    f = V.mod('struct').Field
    ta, a, _, _ = leaf(V, 'a')
    tb, b, _, _ = leaf(V, 'b')
    base = struct(V, [f('a', ta)])
    derived = type(base)('D', (base,), dict(_fields_=[f('a', ta), f('b', tb)] if V.choice('more', [0, 1]) else [f('b', tb)]))
    obj = V.do(derived, a=a, b=b)
    how = V.choice('how', ['stream', 'string', 'field', 'array'])
    if how == 'stream':
        out = V.stream(b'')
        V.do(base.write_to_stream, obj, out)
        V.check('exact', V.eq(V.do(base.sizeof, obj), V.len(V.written(out))))
        return
    m = base if how == 'string' else struct(V, [f('x', base if how == 'field' else V.new(V.mod('array').FixedSizeArrayMarshal, 1, base))])
    if how != 'string':
        obj = V.do(m, x=obj if how == 'field' else V.plist([obj]))
    V.check('exact', V.eq(V.do(m.sizeof, obj), V.len(V.do(m.write_to_string, obj))))


@unit('C17', 'optional', reach=['exact', 'bounds'])
def optional(V):
    e, v, lo, hi = leaf(V, 'v')
    f, w, lo2, hi2 = leaf(V, 'w')
    m = V.mod('struct_macros')
    default = V.choice('default', [None, 'value'])
    args = [] if default is None else [v]
    cls = struct(V, [m.OptionalField('o', e, lambda obj, stream, context: True, *args), V.mod('struct').Field('x', f)])
    there = V.choice('set', ['value', 'none', 'not'])
    obj = V.do(cls, x=w, **({} if there == 'not' else dict(o=None if there == 'none' else v)))
    sized(V, cls, obj, None)
    b = V.do(cls.min_max_sizeof)
    V.check('bounds', V.and_(V.eq(b.min, lo2), V.eq(b.max, hi + hi2)))


@unit('C17', 'fields', reach=['exact', 'bounds'])
def fields(V):
    """constants, unnamed fields, pointers, nested structs"""
    m = V.mod('struct_macros')
    e, v, lo, hi = leaf(V, 'v')
    how = V.choice('how', ['const', 'const struct', 'anonymous', 'nested', 'pointer', 'inherited'])
    first = number(V, 'UBInt16')[0]
    S = V.mod('struct')
    if how == 'const':
        fs, kw, more = [m.ConstField('c', 7, first), S.Field('x', e)], dict(x=v), 2
    elif how == 'const struct':
        fs, kw, more = [m.ConstField('c', V.new(struct(V, [S.Field('p', first)]), p=3)), S.Field('x', e)], dict(x=v), 2
    elif how == 'anonymous':
        fs, kw, more = [V.mod('struct_macros').BytePadding(3), S.Field('x', e)], dict(x=v), 3
    elif how == 'nested':
        inner = struct(V, [S.Field('p', first), S.Field('x', e)])
        fs, kw, more = [S.Field('n', inner)], dict(n=V.do(inner, p=1, x=v)), 2
    elif how == 'pointer':
        fs, kw, more = [S.Field('p', first), V.mod('array_macros').VarSizeArray('a', m.ReadPointer('p'), first), S.Field('x', e)], dict(p=2, a=V.plist([1, 2]), x=v), 6
    else:
        base = struct(V, [S.Field('p', first), S.Field('x', e)])
        cls = type(base)('D', (base,), {})
        fs, kw, more = None, dict(p=1, x=v), 2
    if fs is not None:
        cls = struct(V, fs)
    obj = V.do(cls, **kw)
    sized(V, cls, obj, None)
    if how != 'pointer':
        b = V.do(cls.min_max_sizeof)
        V.check('bounds', V.and_(V.eq(b.min, lo + more), V.eq(b.max, hi + more)))


@unit('C17', 'lazy', reach=['exact', 'always'])
def lazy(V):
    """a lazy group has its size, decoded or not"""
    es = [leaf(V, 'v%d' % i, fixed=True) for i in range(2)]
    m = V.mod('struct_macros')
    values = [x[1] for x in es]
    cls = struct(V, [m.Lazy(*[V.mod('struct').Field('f%d' % i, x[0]) for i, x in enumerate(es)])])
    total = V.len(V.cat(*[v.data for v in values]))
    if V.choice('how', ['built', 'read']) == 'built':
        obj = V.do(cls, f0=values[0], f1=values[1])
    else:
        obj = V.do(cls.create_from_string, V.cat(*[v.data for v in values]))
    got = V.do(cls.sizeof, obj)
    V.check('declared', V.eq(got, total))
    sized(V, cls, obj, total)


@unit('C17', 'bits', reach=['exact', 'always'])
def bits(V):
    """bit groups, with a field of any type before them"""
    m = V.mod('struct_macros')
    a, b = V.int('a', 1, LIMIT, soft=20), V.int('b', 1, LIMIT, soft=20)
    V.assume(V.modulo(a + b, 8) == 0)
    v = V.bigint('v')
    how = V.choice('how', ['sequence', 'padded', 'positions'])
    if how == 'positions':
        bf = m.BitFields(m.BitField('x', slice(0, a)), m.BitField('y', slice(a, a + b)))
        kw = dict(x=v, y=v)
    elif how == 'padded':
        bf = m.BitFields(m.BitField('x', a), m.BitPadding(b))
        kw = dict(x=v)
    else:
        bf = m.BitFields(m.BitField('x', a), m.BitField('y', b))
        kw = dict(x=v, y=v)
    e, w, lo, hi = leaf(V, 'w')
    group = struct(V, [bf])
    sized(V, group, V.do(group, **kw), V.div(a + b, 8))
    V.check('fixed-size', V.truth(V.do(lambda: bf.is_fixed_size())))
    cls = struct(V, [V.mod('struct').Field('w', e), bf])
    sized(V, cls, V.do(cls, w=w, **kw), None)


@unit('C17', 'selected', reach=['exact', 'bounds'])
def selected(V):
    """a selector: the size of the object's own type, within the bounds of all types"""
    S = V.mod('struct')
    n = V.choice('n', [1, 2, 3])
    es = [leaf(V, 'v%d' % i) for i in range(n)]
    types = [struct(V, [S.Field('x', e[0])]) for e in es]
    which = V.choice('which', range(n))
    obj = V.do(types[which], x=es[which][1])
    how = V.choice('how', ['mapping', 'mapping, default', 'function'])
    if how == 'mapping':
        m = V.do(V.mod('struct_macros').StructSelector, number(V, 'UBInt8')[0], dict(enumerate(types)))
    elif how == 'mapping, default':
        m = V.do(V.mod('struct_macros').StructSelector, number(V, 'UBInt8')[0], dict(list(enumerate(types))[1:]), types[0])
    else:
        m = V.do(V.mod('struct.selector').FuncStructSelectorMarshal, lambda s, c: types[which], (es[which][2], es[which][3]))
    sized(V, m, obj, None)
    if how != 'function':
        b = V.do(m.min_max_sizeof)
        lo, hi = es[0][2], es[0][3]
        for e in es[1:]:
            lo, hi = V.min_(lo, e[2]), V.max_(hi, e[3])
        V.check('bounds', V.and_(V.eq(b.min, lo), V.eq(b.max, hi)))
    outer = struct(V, [S.Field('s', m)])
    sized(V, outer, V.do(outer, s=obj), None)
