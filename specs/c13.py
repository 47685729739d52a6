"""C13: bit-field groups store each field in its own bits."""
from engine.specapi import unit

ST = 'struct_macros'
BASE = 'struct'
LIMIT = 1 << 40         # sizes stay below sys.maxsize


def struct(V, fields):
    S = V.mod(BASE).Struct
    return type(S)('S', (S,), dict(_fields_=fields))


def offsets(widths):
    out, at = [], 0
    for w in widths:
        out.append(at)
        at = at + w
    return out, at


def group(V, kinds, prefix='', whole=False):
    """the declarations of a sequential group and its widths; whole: they add up to whole bytes"""
    m = V.mod(ST)
    widths, fields = [], []
    for i, k in enumerate(kinds):
        if whole and i == len(kinds) - 1 and k != 'flag':
            q = V.int(prefix + 'bytes', 0, LIMIT, soft=9)
            w = 8 * q
            for x in widths:
                w = w - x
            V.assume(w >= 0)
        elif k != 'flag':
            w = V.int('%sw%d' % (prefix, i), 0, LIMIT, soft=25)
        else:
            w = 1
        widths.append(w)
        fields.append(m.BitField('f%d' % i, w) if k == 'field' else m.BitFlag('f%d' % i) if k == 'flag' else m.BitPadding(w))
    return fields, widths


KINDS = [['field'], ['field', 'field'], ['flag', 'field'], ['padding', 'field'], ['field', 'padding', 'field'],
         ['flag', 'field', 'flag'], ['field', 'field', 'field', 'field'], ['padding']]


def sized(V, cls, o, nbits):
    size = V.div(nbits, 8)
    V.check('sizeof', V.same_num(V.do(cls.sizeof, o), size))
    mm = V.do(cls.min_max_sizeof)
    V.check('min_max', V.and_(V.same_num(mm.min, size), V.same_num(mm.max, size)))


@unit('C13', 'write', reach=['bits', 'refused'])
def write(V):
    kinds = V.choice('kinds', KINDS)
    fields, widths = group(V, kinds, whole=V.choice('whole', [True, False]))
    offs, total = offsets(widths)
    o = V.call(V.mod(ST).BitFields, *fields)
    if not V.truth(V.modulo(total, 8) == 0):
        V.check('refused', o.raised)
        return
    V.check('accepted', o.ok)
    if not o.ok:
        return
    cls = struct(V, [o.value])
    obj = V.new(cls)
    values = []
    for i, k in enumerate(kinds):
        v = V.bigint('v%d' % i) if k != 'padding' else 0
        values.append(v)
        if k != 'padding':
            setattr(obj, 'f%d' % i, v)
    got = V.do(cls.write_to_string, obj)
    V.check('size', V.eq(8 * V.len(got), total))
    V.all('bits', total, lambda p: V.iff(V.bit(got, p), V.or_(*[
        V.and_(p >= offs[i], p < offs[i] + widths[i], V.bit(values[i], p - offs[i])) for i, k in enumerate(kinds) if k != 'padding'] or [False])))
    sized(V, cls, obj, total)


@unit('C13', 'read', reach=['value', 'short'])
def read(V):
    kinds = V.choice('kinds', KINDS[:-1])
    fields, widths = group(V, kinds, whole=True)
    offs, total = offsets(widths)
    V.assume(V.modulo(total, 8) == 0)
    cls = struct(V, [V.do(V.mod(ST).BitFields, *fields)])
    data = V.bytes('data') if V.choice('any', [0, 1]) else V.cat(V.bytes('own', n=V.div(total, 8)), V.bytes('more'))
    s = V.stream(data)
    o = V.call(cls.create_from_stream, s)
    if not V.truth(total <= 8 * V.len(data)):
        V.check('short', o.raised)
        return
    V.check('accepted', o.ok)
    if not o.ok:
        return
    for i, k in enumerate(kinds):
        if k != 'padding':
            V.all_bits('value', getattr(o.value, 'f%d' % i), widths[i], lambda p: V.bit(data, offs[i] + p))
    V.check_eq('rest', V.do(s.read), V.sub(data, V.div(total, 8), V.len(data)))


@unit('C13', 'round-trip', reach=['back'])
def round_trip(V):
    kinds = V.choice('kinds', KINDS[:5] + KINDS[6:7])
    fields, widths = group(V, kinds, whole=True)
    offs, total = offsets(widths)
    cls = struct(V, [V.do(V.mod(ST).BitFields, *fields)])
    values = {}
    for i, k in enumerate(kinds):
        if k != 'padding':
            values[i] = V.bigint('v%d' % i, maxbits=widths[i])
    obj = V.new(cls, **{'f%d' % i: v for i, v in values.items()})
    back = V.do(cls.create_from_string, V.do(cls.write_to_string, obj))
    for i, v in values.items():
        V.all_bits('back', getattr(back, 'f%d' % i), widths[i], lambda p: V.bit(v, p))


def places(V, shape):
    """slices of positional fields, pairwise disjoint; shape: number of slices of each field"""
    out = []
    for i, n in enumerate(shape):
        sl = []
        for j in range(n):
            a = V.int('a%d.%d' % (i, j), 0, LIMIT, soft=40)
            w = V.int('w%d.%d' % (i, j), 1, LIMIT, soft=16)
            sl.append((a, a + w))
        out.append(sl)
    flat = [s for f in out for s in f]
    for i in range(len(flat)):
        for j in range(i):
            V.assume(V.or_(flat[i][1] <= flat[j][0], flat[j][1] <= flat[i][0]))
    return out, flat


SHAPES = [[1], [2], [3], [1, 1], [2, 1], [1, 2]]


def positional(V, shape, spelling='Bits'):
    m = V.mod(ST)
    where, flat = places(V, shape)

    def spell(sl):
        s = [slice(a, b) for a, b in sl]
        if len(s) == 1 and spelling == 'slice':
            return s[0]
        if spelling == 'tuple':
            return tuple(s)
        return m.Bits[tuple(s) if len(s) > 1 else s[0]]
    return [m.BitField('f%d' % i, spell(sl)) for i, sl in enumerate(where)], where, flat


def top(V, flat):
    t = 0
    for a, b in flat:
        t = V.max_(t, b)
    return t


def at_place(V, sl, value_bit, p):
    """bit p of the group as far as this field's slices hold it"""
    done, terms = 0, []
    for a, b in sl:
        terms.append(V.and_(p >= a, p < b, value_bit(p - a + done)))
        done = done + (b - a)
    return V.or_(*terms)


@unit('C13', 'positional-write', reach=['bits', 'refused'])
def positional_write(V):
    shape = V.choice('shape', SHAPES)
    fields, where, flat = positional(V, shape, V.choice('spelling', ['Bits', 'slice', 'tuple']))
    total = top(V, flat)
    o = V.call(V.mod(ST).BitFields, *fields)
    if not V.truth(V.modulo(total, 8) == 0):
        V.check('refused', o.raised)
        return
    V.check('accepted', o.ok)
    if not o.ok:
        return
    cls = struct(V, [o.value])
    values = [V.bigint('v%d' % i) for i in range(len(shape))]
    obj = V.new(cls, **{'f%d' % i: v for i, v in enumerate(values)})
    got = V.do(cls.write_to_string, obj)
    V.check('size', V.eq(8 * V.len(got), total))
    V.all('bits', total, lambda p: V.iff(V.bit(got, p), V.or_(*[
        at_place(V, where[i], lambda q: V.bit(values[i], q), p) for i in range(len(shape))])))
    sized(V, cls, obj, total)


@unit('C13', 'positional-read', reach=['value'])
def positional_read(V):
    shape = V.choice('shape', SHAPES)
    fields, where, flat = positional(V, shape)
    total = top(V, flat)
    V.assume(V.modulo(total, 8) == 0)
    cls = struct(V, [V.do(V.mod(ST).BitFields, *fields)])
    data = V.cat(V.bytes('data', n=V.div(total, 8)), V.bytes('rest'))
    s = V.stream(data)
    o = V.do(cls.create_from_stream, s)
    for i, sl in enumerate(where):
        width = 0
        for a, b in sl:
            width = width + (b - a)

        def bit(p):
            done, r = 0, False
            for a, b in sl:
                r = V.or_(r, V.and_(p >= done, p < done + (b - a), V.bit(data, p - done + a)))
                done = done + (b - a)
            return r
        V.all_bits('value', getattr(o, 'f%d' % i), width, bit)
    V.check_eq('rest', V.do(s.read), V.sub(data, V.div(total, 8), V.len(data)))


@unit('C13', 'declared-size', reach=['size', 'refused'])
def declared_size(V):
    """a positional group with its size given"""
    size = V.int('size', 0, LIMIT, soft=64)
    fields, where, flat = positional(V, [1, 1])
    m = V.mod('struct.bit')
    o = V.call(m.PositionalBitFieldListContainer, size, fields)
    if V.truth(V.and_(V.modulo(size, 8) == 0, size >= top(V, flat))):
        V.check('accepted', o.ok)
        if o.ok:
            cls = struct(V, [o.value])
            obj = V.new(cls, f0=0, f1=0)
            V.check('size', V.eq(V.do(cls.write_to_string, obj), V.zeros(V.div(size, 8))))
            sized(V, cls, obj, size)
    else:
        V.check('refused', o.raised)
