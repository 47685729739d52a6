"""C19: selected structs decode as if the type had been known."""
from engine.specapi import unit
from .common import LIMIT, abstract_fields, element, limited, number, struct

MA = 'struct_macros'


def at(V, data, a, b, behind=0):
    """a peeking stream that has delivered the first a bytes and holds those up to b"""
    s = V.stream(data)
    r = V.do(V.mod('utils.read_ahead_stream').ReadAheadStream, s)
    V.do(r.set_read_ahead, True)
    V.check_eq('prepared', V.do(r.read, b), V.sub(data, 0, b))
    V.do(r.set_read_ahead, False)
    V.check_eq('prepared', V.do(r.read, a), V.sub(data, 0, a))
    return s, r


def state(V, name, s, r, s2, r2):
    """two peeking streams are in the same state, so they behave the same from here on"""
    x, y = vars(r), vars(r2)
    V.lemma(name, sorted(x) == sorted(y))
    for k in sorted(x):
        if x[k] is s:
            V.lemma(name, y[k] is s2 and V.eq(V.do(s.tell), V.do(s2.tell)))
        else:
            V.lemma(name, V.eq(x[k], y[k]))


@unit('C19', 'read-ahead', reach=['same', 'peeked', 'delivered', 'empty', 'next', 'write'])
def read_ahead(V):
    """one operation in any reachable state leads to the state of the specification: D, delivered <= peeked, mode"""
    data = V.bytes('data')
    n = V.len(data)
    b = V.int('peeked', 0, n)
    a = V.int('delivered', 0, b)
    s, r = at(V, data, a, b)
    mode = V.choice('mode', [False, True])
    V.do(r.set_read_ahead, mode)
    op = V.choice('op', ['read', 'mode', 'write'])
    if op == 'write':
        o = V.call(r.write, b'')
        V.check('write', V.iff(o.ok, V.and_(a == b, not mode)))
    elif op == 'mode':
        V.check('empty', V.iff(V.do(r.is_read_ahead_empty), a == b))
        mode = V.choice('other mode', [False, True])
        V.do(r.set_read_ahead, mode)
    else:
        size = V.int('size', 0)
        got = V.do(r.read, size)
        if mode:
            V.check_eq('peeked', got, V.sub(data, b, V.min_(n, b + size)))
            b = V.min_(n, b + size)
        else:
            V.check_eq('delivered', got, V.sub(data, a, V.min_(n, a + size)))
            a = V.min_(n, a + size)
            b = V.max_(a, b)
    V.check('empty', V.iff(V.do(r.is_read_ahead_empty), a == b))
    s2, r2 = at(V, data, a, b)
    V.do(r2.set_read_ahead, mode)
    state(V, 'same', s, r, s2, r2)
    then = V.choice('then', [False, True])
    V.do(r.set_read_ahead, then)
    size = V.int('next size', 0)
    start = b if then else a
    V.check_eq('next', V.do(r.read, size), V.sub(data, start, V.min_(n, start + size)))
    if not then:
        a = V.min_(n, a + size)
    else:
        b = V.min_(n, b + size)
    V.check('empty', V.iff(V.do(r.is_read_ahead_empty), a >= b))


@unit('C19', 'history', sym=False, bounded='random histories: the induction step is C19.read-ahead')
def history(V):
    data = V.bytes('data')
    r = V.do(V.mod('utils.read_ahead_stream').ReadAheadStream, V.stream(data))
    a = b = 0
    n, mode = len(data), False
    for i in range(V.choice('operations', [3, 6, 12])):
        if V.choice('op%d' % i, [0, 1, 2]) == 0:
            mode = not mode
            r.set_read_ahead(mode)
        else:
            size = V.int('size%d' % i, 0, 9)
            start = b if mode else a
            V.check_eq('read', V.do(r.read, size), data[start:start + size])
            if mode:
                b = min(n, b + size)
            else:
                a = min(n, a + size)
                b = max(a, b)
        V.check('empty', r.is_read_ahead_empty() == (a == b))


def peeker(V, data, start, keys, told):
    """a key of any type: reads any number of bytes in two parts and yields any key"""
    base = V.mod('base').Marshal

    class Key(base):
        def create_from_stream(self, stream, context=None, *args, **kwargs):
            told(context)
            first, second = V.int('peek1', 0, LIMIT), V.int('peek2', 0, LIMIT)
            a, n = V.min_(V.len(data), start + first), V.len(data)
            V.check_eq('key-bytes', stream.read(first), V.sub(data, start, a))
            V.check_eq('key-bytes', stream.read(second), V.sub(data, a, V.min_(n, a + second)))
            V.put(self, 'peeked', V.min_(n, start + first + second) - start)
            return keys

        def to_repr(self, key, context=None):
            return '<key>'
    return Key()


def source(V, encoding):
    """the encoding behind and before other bytes"""
    before, behind = V.bytes('before'), V.bytes('behind')
    data = V.cat(before, encoding, behind)
    s = V.stream(data)
    start = V.len(before)
    V.do(s.read, start)
    return data, s, start


def selector(V, key, types, default, chosen, told):
    """a selector that selects that type"""
    if key is not None:
        return V.do(V.mod(MA).StructSelector, key, types, *([] if default is None else [default]))

    def func(stream, context):
        key.create_from_stream(stream, context)
        return chosen
    return V.do(V.mod('struct.selector').FuncStructSelectorMarshal, func)


@unit('C19', 'selected', reach=['consumed', 'selected', 'excess', 'unmapped'])
def selected(V):
    """any key, any number of peeked bytes, types of any fields"""
    values, others = limited(V, V.values('f', bounded=True)), limited(V, V.values('g', bounded=True))
    (fields, reader), (ofields, _) = abstract_fields(V, values), abstract_fields(V, others)
    chosen = V.do(struct, V, fields, __init__=lambda self: V.put(reader, 'obj', self))
    other = V.do(struct, V, ofields)
    encoding = V.joined(values)
    data, s, start = source(V, encoding)
    context = V.mod('base').WritableContext(dict(a=1))

    def told(c):
        V.check('context', c.get('a', None) == 1)
    which = V.choice('which', ['mapped', 'default', 'unmapped', 'function'])
    key = peeker(V, data, start, 7, told)
    if which == 'function':
        def func(stream, context):
            V.new(key.create_from_stream, stream, context)
            return chosen
        m = V.do(V.mod('struct.selector').FuncStructSelectorMarshal, func)
    elif which == 'mapped':
        m = V.do(V.mod(MA).StructSelector, key, {3: other, 7: chosen}, *V.choice('default', [[], [other]]))
    elif which == 'default':
        m = V.do(V.mod(MA).StructSelector, key, {3: other, 8: other}, chosen)
    else:
        m = V.do(V.mod(MA).StructSelector, key, {3: other, 8: chosen})
    o = V.call(m.create_from_stream, s, context)
    if which == 'unmapped':
        V.check('unmapped', o.raised)
    elif V.truth(key.peeked > V.len(encoding)):
        V.check('excess', o.raised)
    else:
        V.check('consumed', o.ok)
        V.check('consumed', V.eq(V.do(s.tell), start + V.len(encoding)))
        V.check('consumed', V.eq(reader.cursor, V.len(values)))
        V.check('selected', o.value is reader.obj and type(o.value) is chosen)


@unit('C19', 'key-types', reach=['selected', 'unmapped'])
def key_types(V):
    """keys of any type and value"""
    mine, its, another = V.choice('keys', [(7, 8, 3), (0, 1, 2), ('', 'a', 'b'), (None, 0, 1), (b'', b'\0', b' '), ((1, 2), (), (1,)), (False, 1, -1)])
    v, w = V.value('v'), V.value('w')
    one = struct(V, [V.mod('struct').Field('v', element(V, V.plist([v])))])
    two = struct(V, [V.mod('struct').Field('w', element(V, V.plist([w])))])
    which = V.choice('which', ['mapped', 'default', 'unmapped'])
    mapping, rest = {'mapped': ({another: two, mine: one}, V.choice('default', [[], [two]])),
                     'default': ({another: two, its: two}, [one]), 'unmapped': ({another: one, its: two}, [])}[which]
    data, s, start = source(V, v.data)
    key = peeker(V, data, start, mine, lambda context: None)
    o = V.call(V.do(V.mod(MA).StructSelector, key, mapping, *rest).create_from_stream, s)
    if which == 'unmapped' or V.truth(key.peeked > V.len(v.data)):
        V.check('unmapped', o.raised)
    else:
        V.check('selected', o.ok)
        V.check('selected', type(o.value) is one and o.value.v is v)
        V.check('selected', V.eq(V.do(s.tell), start + V.len(v.data)))


@unit('C19', 'keys', reach=['selected', 'value', 'unmapped'])
def keys(V):
    """a real key in the bytes of the type"""
    S, m = V.mod('struct'), V.mod(MA)
    name = V.choice('key', ['UBInt8', 'ULInt32', 'UBInt16'])
    u, n, order = number(V, name)
    v, w = V.value('v'), V.value('w')
    e, f = element(V, V.plist([v])), element(V, V.plist([w]))
    key = V.int('value', 0, (1 << (8 * n)) - 1)
    where = V.choice('where', ['first', 'second', 'shared'])
    if where == 'first':
        one = struct(V, [S.Field('k', u), S.Field('v', e)])
        two = struct(V, [S.Field('k', u), S.Field('w', f)])
        km = u
    elif where == 'second':
        one = struct(V, [S.Field('p', number(V, 'UBInt16')[0]), S.Field('k', u), S.Field('v', e)])
        two = struct(V, [S.Field('p', number(V, 'UBInt16')[0]), S.Field('k', u), S.Field('w', f)])

        class Skip(V.mod('base').Marshal):
            def create_from_stream(self, stream, context=None, *args, **kwargs):
                V.do(stream.read, 2)
                return V.do(u.create_from_stream, stream)
        km = Skip()
    else:
        one = struct(V, [m.BitFields(m.BitField('k', 8 * n - 3), m.BitField('p', 3)), S.Field('v', e)])
        two = struct(V, [S.Field('k', u), S.Field('w', f)])
        km = u
    default = V.choice('default', [None, 'one', 'two'])
    first = V.choice('first', [1, 0])
    args = [] if default is None else [one if default == 'one' else two]
    sel = V.do(m.StructSelector, km, {first: one, 2: two, 9: two}, *args)
    if V.truth(key == first):
        expect = one
    elif V.truth(V.or_(key == 2, key == 9)):
        expect = two
    else:
        expect = args[0] if args else None
    number_ = V.encode_int(key, n, order)
    head = V.cat(V.encode_int(513, 2, 'big'), number_) if where == 'second' else number_
    encoding = V.cat(head, v.data if expect is one else w.data)
    data, s, start = source(V, encoding)
    o = V.call(sel.create_from_stream, s)
    if expect is None:
        V.check('unmapped', o.raised)
        return
    V.check('selected', o.ok)
    V.check('selected', V.eq(V.do(s.tell), start + V.len(encoding)))
    V.check('selected', type(o.value) is expect)
    V.check('value', (o.value.v is v) if expect is one else (o.value.w is w))
    if where == 'shared' and expect is one:
        V.check('value', V.eq(o.value.p, V.div(V.byte(number_, n - 1), 32)))
    else:
        V.check('value', V.eq(o.value.k, key))


@unit('C19', 'nested', reach=['selected', 'excess'])
def nested(V):
    """a selected struct that contains a selector, peeking through the peeked bytes"""
    S = V.mod('struct')
    v, w, x = V.value('v'), V.value('w'), V.value('x')
    inner = struct(V, [S.Field('w', element(V, V.plist([w])))])
    encoding = V.cat(v.data, w.data, x.data)
    data, s, start = source(V, encoding)

    def told(c):
        pass
    ikey = peeker(V, data, start + V.len(v.data), 5, told)
    isel = V.do(V.mod('struct.selector').FuncStructSelectorMarshal, lambda stream, context: (V.new(ikey.create_from_stream, stream, context), inner)[1])
    outer = struct(V, [S.Field('v', element(V, V.plist([v]))), S.Field('n', isel), S.Field('x', element(V, V.plist([x])))])
    n = V.int('peek', 0, LIMIT)
    osel = V.do(V.mod('struct.selector').FuncStructSelectorMarshal, lambda stream, context: (V.new(stream.read, n), outer)[1])
    o = V.call(osel.create_from_stream, s)
    if V.truth(V.or_(ikey.peeked > V.len(w.data), V.min_(n, V.len(data) - start) > V.len(encoding))):
        V.check('excess', o.raised)
    else:
        V.check('selected', o.ok)
        V.check('selected', o.value.v is v and o.value.n.w is w and o.value.x is x)
        V.check('selected', V.eq(V.do(s.tell), start + V.len(encoding)))


@unit('C19', 'writing', reach=['written'])
def writing(V):
    """a selector writes what the object's own type writes"""
    values = limited(V, V.values('f', bounded=True))
    fields, reader = abstract_fields(V, values)
    cls = V.do(struct, V, fields, __init__=lambda self: V.put(reader, 'obj', self))
    obj = V.do(cls)
    u = number(V, 'UBInt8')[0]
    m = V.do(V.mod(MA).StructSelector, u, {1: cls}) if V.choice('how', ['mapping', 'function']) == 'mapping' else \
        V.do(V.mod('struct.selector').FuncStructSelectorMarshal, lambda stream, context: cls)
    V.check_eq('written', V.do(m.write_to_string, obj), V.joined(values))


@unit('C19', 'by-function', reach=['told', 'selected', 'consumed', 'excess', 'written'])
def by_function(V):
    """a field whose type a function chooses from the fields read before, the bytes that follow and the context"""
    S, m = V.mod('struct'), V.mod(MA)
    v, w, x = V.value('v'), V.value('w'), V.value('x')
    one = struct(V, [S.Field('v', element(V, V.plist([v])))])
    two = struct(V, [S.Field('w', element(V, V.plist([w])))])
    u, n, order = number(V, V.choice('key', ['UBInt8', 'ULInt16']))
    k = V.int('k', 0, (1 << (8 * n)) - 1)
    peek = V.int('peek', 0, LIMIT)
    head = V.encode_int(k, n, order)
    seen = []

    def choose(obj, stream, context):
        seen.append((obj, obj.k, V.do(stream.read, peek), context.get('color', None), context.get('shape', None)))
        return one if V.truth(obj.k < 100) else two
    own = V.choice('own context', [None, dict(color=3), dict(shape=4)])
    attrs = {} if own is None else dict(_context_=own)
    cls = struct(V, [S.Field('k', u), V.do(m.SelectStructByFunc, 'p', choose), S.Field('x', element(V, V.plist([x])))], **attrs)
    chosen, mine = (one, v) if V.truth(k < 100) else (two, w)
    encoding = V.cat(head, mine.data, x.data)
    obj = V.do(cls, k=k, p=V.do(chosen, **({'v': v} if chosen is one else {'w': w})), x=x)
    V.check_eq('written', V.do(cls.write_to_string, obj), encoding)
    V.check('written', V.eq(V.do(cls.sizeof, obj), V.len(encoding)))
    top, first = cls, V.zeros(0)
    if V.choice('nested', [False, True]):
        j = V.int('j', 0, 255)
        top = struct(V, [S.Field('k', number(V, 'UBInt8')[0]), S.Field('inner', cls)])
        first = V.encode_int(j, 1)
    data, s, start = source(V, V.cat(first, encoding))
    args = V.choice('context', [[], [dict(color=5)]])
    o = V.call(top.create_from_stream, s, *[V.new(V.mod('base').ReadOnlyContext, a) for a in args])
    behind = start + V.len(first) + n
    V.check('told', len(seen) == 1)
    obj, key, peeked, color, shape = seen[0]
    V.check('told', isinstance(obj, cls) and V.eq(key, k))
    V.check('told', color == (5 if args else 3 if own == dict(color=3) else None) and shape == (4 if own == dict(shape=4) else None))
    stop = V.min_(behind + peek, V.len(data))
    V.check_eq('told', peeked, V.sub(data, behind, stop))
    if V.truth(stop > behind + V.len(mine.data)):
        V.check('excess', o.raised)
        return
    V.check('selected', o.ok)
    back = o.value if top is cls else o.value.inner
    V.check('selected', back is obj and type(back.p) is chosen)
    V.check('selected', (back.p.v is v if chosen is one else back.p.w is w) and back.x is x)
    V.check('consumed', V.eq(V.do(s.tell), start + V.len(first) + V.len(encoding)))
