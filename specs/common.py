"""Abstract types for the specifications of composites: a composite is verified against the contract of its parts.

An Element is any stream type that encodes each of the given values as given bytes: writing a value appends exactly its
bytes, reading at its bytes yields the value and consumes exactly them, reading where they are cut short raises. Reading
anywhere else is outside the contract, so what an Element is given to read is an obligation of the composite."""

LIMIT = 1 << 40         # sizes stay below sys.maxsize

NUMBERS = ['UBInt8', 'UBInt16', 'ULInt32', 'UBInt64', 'UNInt16']


class Refused(Exception):
    """what an Element raises"""


def number(V, name):
    """(marshal, bytes, byte order) of a numeric type used as a prefix"""
    return getattr(V.mod('numeric_macros'), name), int(name[5:]) // 8, {'B': 'big', 'L': 'little', 'N': __import__('sys').byteorder}[name[1]]


def element(V, values, bounds=None, context=None):
    """a marshal for the given list of values, read in that order; context(c) is told the contexts it is given"""
    told = context
    base = V.mod('base').Marshal

    class Element(base):
        def __init__(self):
            self.cursor = 0
            self.values = values

        def sizeof(self, v):
            return V.len(v.data)

        def min_max_sizeof(self):
            return base.min_max_sizeof(self) if bounds is None else bounds_of(V, *bounds)

        def write_to_stream(self, v, stream, context=None):
            if told is not None:
                told(context)
            stream.write(v.data)

        def create_from_stream(self, stream, context=None, *args, **kwargs):
            if told is not None:
                told(context)
            v = V.elem(values, self.cursor)
            V.span(values, self.cursor)
            data = stream.read(V.len(v.data))
            if V.truth(V.len(data) < V.len(v.data)):
                raise Refused('short')
            V.check_eq('own-bytes', data, v.data)
            V.put(self, 'cursor', self.cursor + 1)
            return v

        def to_repr(self, v, context=None):
            return '<value>'
    return Element()


def struct(V, fields, **attrs):
    S = V.mod('struct').Struct
    return type(S)('S', (S,), dict(attrs, _fields_=fields))


def bounds_of(V, lo, hi):
    """a pair of bounds that are in order and in range"""
    return tuple.__new__(V.mod('base').MinMax, (lo, hi))


def varint(V):
    """a length prefix of one or two bytes, for lengths below 2**15"""
    base = V.mod('base').Marshal

    class Varint(base):
        def sizeof(self, n):
            return V.ite(n < 128, 1, 2)

        def min_max_sizeof(self):
            return bounds_of(V, 1, 2)

        def write_to_stream(self, n, stream, context=None):
            if V.truth(n < 128):
                stream.write(V.encode_int(n, 1))
            else:
                stream.write(V.encode_int(n + (1 << 15), 2, 'big'))

        def create_from_stream(self, stream, context=None, *args, **kwargs):
            first = stream.read(1)
            if V.truth(V.len(first) < 1):
                raise Refused('short')
            if V.truth(V.byte(first, 0) < 128):
                return V.byte(first, 0)
            second = stream.read(1)
            if V.truth(V.len(second) < 1):
                raise Refused('short')
            return (V.byte(first, 0) - 128) * 256 + V.byte(second, 0)
    return Varint()


def sized(V, m, v, size):
    """the computed size is the written one and within the bounds"""
    got = V.do(m.sizeof, v)
    V.check('exact', V.eq(got, V.len(V.do(m.write_to_string, v))))
    if size is not None:
        V.check('declared', V.eq(got, size))
    b = V.do(m.min_max_sizeof)
    V.check('within', V.and_(b.min <= got, got <= b.max))
    if V.truth(V.do(m.is_fixed_size)) if hasattr(m, 'is_fixed_size') else V.truth(b.min == b.max):
        V.check('always', V.and_(V.eq(got, b.min), V.eq(got, b.max)))


def one(V, x):
    return V.encode_int(x, 1)


def abstract_fields(V, values):
    """fields that encode their part of an object as the given bytes (the contract of a field), and who watches them"""
    base = V.mod('struct').FieldMarshal

    class Reader(object):
        """every field is read once, in order, into the same object"""
        def __init__(self):
            self.cursor, self.obj, self.values = 0, None, values

    class AField(base):
        def __init__(self, v):
            self.v, self.reader = v, reader

        def write_fields(self, obj, stream, context=None):
            V.check('own-object', obj is reader.obj)
            stream.write(self.v.data)

        def read_fields(self, obj, stream, context=None, *args, **kwargs):
            V.span(values, V.number_of(self.v))
            V.check('in-order', V.eq(V.number_of(self.v), reader.cursor))
            data = stream.read(V.len(self.v.data))
            if V.truth(V.len(data) < V.len(self.v.data)):
                raise Refused('short')
            V.check_eq('own-bytes', data, self.v.data)
            V.put(reader, 'cursor', reader.cursor + 1)
            V.check('own-object', obj is reader.obj)

        def sizeof(self, obj):
            return V.len(self.v.data)

        def min_max_sizeof(self):
            return bounds_of(V, self.v.lo, self.v.hi)

        def to_repr(self, obj, context=None):
            return '<field>'
    reader = Reader()
    fields = V.mapped(values, AField)
    reader.fields = fields
    return fields, reader


def limited(V, values):
    """the sizes of the values add up to less than the largest one there is"""
    n = V.len(values)
    lo, hi = V.psum(n, lambda k: V.elem(values, k).lo), V.psum(n, lambda k: V.elem(values, k).hi)
    V.assume(lo(n) <= LIMIT)
    V.induction('bounds', n, lambda k: lo(k) <= hi(k))
    return values
