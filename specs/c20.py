"""C20: construction gives each field its argument or its own default."""
from engine.specapi import unit
from .common import element, number, struct

MA = 'struct_macros'
KINDS = ['plain', 'optional', 'bits', 'positions', 'lazy', 'counted', 'const']


def one_field(V, kind, name, default):
    """a field of that kind (its default is None without one)"""
    S, m = V.mod('struct'), V.mod(MA)
    u8 = number(V, 'UBInt8')[0]
    args = [] if default is None else [default]
    if kind == 'plain':
        return S.Field(name, u8, *args)
    if kind == 'optional':
        return m.OptionalField(name, u8, lambda obj, stream, context: True, *args)
    if kind == 'bits':
        return m.BitFields(m.BitField(name, 5, *args), m.BitPadding(3))
    if kind == 'positions':
        return m.BitFields(m.BitField(name, slice(0, 8), *args))
    if kind == 'lazy':
        return m.Lazy(S.Field(name, u8, *args), S.Field(name + '2', u8))
    if kind == 'counted':
        return S.Field(name, V.mod('string').VarSizeStringMarshal(u8), *args)
    return m.ConstField(name, 77, u8)


@unit('C20', 'fields', reach=['argument', 'default', 'initialiser', 'positional', 'rest'])
def fields(V):
    """every kind of field, every subset of arguments, every way to write the initialiser"""
    kind = V.choice('kind', KINDS)
    v, w, dv, dw = V.value('v'), V.value('w'), V.value('dv'), V.value('dw')
    has = V.choice('defaults', [True, False])
    fs = [one_field(V, kind, 'a', dv if has else None), V.mod('struct').Field('b', number(V, 'UBInt16')[0], *([dw] if has else [])),
          V.mod('struct').Field('c', number(V, 'UBInt16')[0])]
    given = dict((k, x) for k, x in (('a', v), ('b', w)) if V.choice('given ' + k, [True, False]) and not (k == 'a' and kind == 'const'))
    how = V.choice('init', ['none', 'plain', 'names a field', 'keyword only', 'keeps all', 'sets a field', 'inherited'])
    seen = []
    attrs = {}
    x, y = V.value('x'), V.value('y')
    args, extra = [], {}
    if how == 'plain':
        def init(self, p, q=None):
            seen.append((p, q))
        attrs, args, extra = dict(__init__=init), [x], dict(q=y)
    elif how == 'names a field':
        def init(self, a=None, p=None):
            seen.append((a, p))
        attrs, extra = dict(__init__=init), dict(p=x)
    elif how == 'keyword only':
        def init(self, p, *, a=None, **rest):
            seen.append((a, p, rest))
        attrs, args, extra = dict(__init__=init), [x], dict(q=y)
    elif how == 'keeps all':
        def init(self, *args, **kwargs):
            seen.append((args, kwargs))
        attrs, args, extra = dict(__init__=init), [x, y], dict(q=y)
    elif how == 'sets a field':
        def init(self):
            seen.append((self.a, self.b, self.c))
            self.c = x
        attrs = dict(__init__=init)
    cls = V.do(struct, V, fs, **attrs)
    if how == 'inherited':
        base = cls

        def init(self, p):
            seen.append(p)
            base.__init__(self)
        cls = type(base)('D', (base,), dict(__init__=init))
        args = [x]
    kw = dict(given)
    kw.update(extra)
    obj = V.do(cls, *args, **kw)
    a = 77 if kind == 'const' else given.get('a', dv if has else None)
    b = given.get('b', dw if has else None)
    for name, value in (('a', a), ('b', b)):
        got = V.do(getattr, obj, name)
        V.check('argument' if name in given else 'default', V.eq(got, 77) if name == "a" and kind == "const" else got is value)
    if how == 'sets a field':
        V.check('initialiser', obj.c is x and len(seen) == 1 and seen[0][1] is b and seen[0][2] is None)
        V.check('initialiser', V.eq(seen[0][0], 77) if kind == 'const' else seen[0][0] is a)
    else:
        V.check('default', obj.c is None)
    if kind == 'lazy':
        V.check('default', obj.a2 is None)
    if how == 'plain':
        V.check('positional', len(seen) == 1 and seen[0][0] is x and seen[0][1] is y)
    elif how == 'names a field':
        V.check('initialiser', len(seen) == 1 and seen[0][0] is given.get('a') and seen[0][1] is x)
    elif how == 'keeps all':
        V.check('rest', len(seen) == 1 and list(seen[0][0])[0] is x and list(seen[0][0])[1] is y and len(seen[0][0]) == 2)
        V.check('rest', dict(seen[0][1]).get('q') is y and sorted(seen[0][1]) == ['q'])
    elif how == 'keyword only':
        V.check('initialiser', len(seen) == 1 and seen[0][0] is given.get('a') and seen[0][1] is x)
        V.check('rest', dict(seen[0][2]).get('q') is y and sorted(seen[0][2]) == ['q'])
    elif how == 'inherited':
        V.check('initialiser', len(seen) == 1 and seen[0] is x)


@unit('C20', 'falsy', reach=['argument', 'default'])
def falsy(V):
    """an argument is an argument whatever its value; the default is used for no other reason than its absence"""
    kind = V.choice('kind', [k for k in KINDS if k != 'const'] + ['buffer'])
    value = V.choice('value', [None, 0, False, b'', 'number'])
    if value == 'number':
        value = V.int('n')
    default = V.int('default')
    if kind == 'buffer':
        m = V.mod('buffer')
        cls = type(m.Buffer)('B', (m.Buffer,), dict(a=m.int_field(where=m.bytes_ref[0:4], default=default), b=m.int_field(where=m.bytes_ref[4:8], default=default)))
    else:
        cls = V.do(struct, V, [one_field(V, kind, 'a', default), V.mod('struct').Field('b', number(V, 'UBInt8')[0], default)])
    obj = V.do(cls, a=value)
    V.check('argument', obj.a is None if value is None else V.eq(obj.a, value))
    V.check('default', V.eq(obj.b, default))
    obj = V.do(cls, b=value)
    V.check('argument', obj.b is None if value is None else V.eq(obj.b, value))
    V.check('default', V.eq(obj.a, default))


def mutable(V, kind):
    """(default, change(x), check(name, x) that it was not changed)"""
    n = V.int('n')
    if kind == 'list':
        return V.plist([n, V.plist([n])]), lambda x: (x[1].append(5), x.append(6)), lambda x: V.and_(V.len(x) == 2, V.eq(x[0], n), V.len(x[1]) == 1, V.eq(x[1][0], n))
    if kind == 'dict':
        return {'k': {'j': n}}, lambda x: (x['k'].update(j=5, m=7), x.update(q=6)), lambda x: V.and_(sorted(x) == ['k'], sorted(x['k']) == ['j'], V.eq(x['k']['j'], n))
    if kind == 'bytearray':
        b = V.bytearray('b', 1, 40)
        old = V.snapshot(b)
        return b, lambda x: x.append(6), lambda x: V.eq(x, old)
    if kind == 'tuple':
        return (V.plist([n]), 3), lambda x: x[0].append(5), lambda x: V.and_(V.len(x[0]) == 1, V.eq(x[0][0], n))
    inner = struct(V, [V.mod('struct').Field('p', number(V, 'UBInt8')[0]), V.mod('struct').Field('l', None)])
    d = V.new(inner, p=n, l=V.plist([n]))

    def change(x):
        V.put(x, 'p', 5)
        x.l.append(6)
    return d, change, lambda x: V.and_(V.eq(x.p, n), V.len(x.l) == 1)


@unit('C20', 'isolation', reach=['default', 'others', 'shared'])
def isolation(V):
    """whatever is done to an instance, those made before and after it have what they were given"""
    d, change, unchanged = mutable(V, V.choice('default', ['list', 'dict', 'bytearray', 'tuple', 'struct']))
    kind = V.choice('kind', ['plain', 'optional', 'lazy', 'buffer', 'derived'])
    if kind == 'buffer':
        m = V.mod('buffer')
        cls = type(m.Buffer)('B', (m.Buffer,), dict(x=m.list_field(type=m.uint8, where=m.bytes_ref[0:1], default=d)))
    else:
        cls = V.do(struct, V, [one_field(V, 'plain' if kind == 'derived' else kind, 'x', d), V.mod('struct').Field('y', number(V, 'UBInt8')[0])])
    first = V.do(cls)
    made = cls if kind != 'derived' else type(cls)('D', (cls,), {})
    obj = V.do(made)
    V.check('default', unchanged(V.do(getattr, obj, 'x')))
    if V.choice('how', ['change', 'assign']) == 'change':
        change(obj.x)
    else:
        V.do(setattr, obj, 'x', 9)
    V.check('shared', unchanged(d))
    V.check('others', unchanged(first.x))
    V.check('others', unchanged(V.do(cls).x))
    V.check('others', unchanged(V.do(made).x))


@unit('C20', 'assignments', reach=['own', 'others'])
def assignments(V):
    """setting the fields of one instance, in any order, leaves the others alone"""
    kinds = V.choice('kinds', [['plain', 'lazy'], ['bits', 'optional'], ['positions', 'counted'], ['buffer', 'buffer']])
    names = ['a', 'b']
    if kinds[0] == 'buffer':
        m = V.mod('buffer')
        cls = type(m.Buffer)('B', (m.Buffer,), dict((k, m.int_field(where=m.bytes_ref[i:i + 1])) for i, k in enumerate(names)))
    else:
        cls = V.do(struct, V, [one_field(V, kind, name, None) for kind, name in zip(kinds, names)])
    values = dict(((i, k), V.value('%s%d' % (k, i))) for i in range(2) for k in names)
    objs = [V.do(cls, **dict((k, values[i, k]) for k in names)) for i in range(2)]
    for step in range(3):
        i, k = V.choice('object%d' % step, [0, 1]), V.choice('field%d' % step, names)
        values[i, k] = V.value('new%d' % step)
        V.do(setattr, objs[i], k, values[i, k])
    for (i, k), v in sorted(values.items(), key=lambda p: p[0]):
        V.check('own' if i == 0 else 'others', getattr(objs[i], k) is v)


@unit('C20', 'buffers', reach=['argument', 'default', 'unknown'])
def buffers(V):
    """every subset of the fields of a buffer and of the one it derives from"""
    m = V.mod('buffer')
    v, w, dv, dw = V.value('v'), V.value('w'), V.value('dv'), V.value('dw')
    has = V.choice('defaults', [True, False])
    kw = dict(default=dv) if has else {}
    kind = V.choice('kind', ['int', 'str', 'list', 'bytes', 'float'])
    where = dict(where=m.bytes_ref[0:4])
    a = dict(int=lambda: m.int_field(**dict(where, **kw)), str=lambda: m.str_field(**dict(where, **kw)),
             list=lambda: m.list_field(type=m.uint8, **dict(where, **kw)), bytes=lambda: m.bytearray_field(**dict(where, **kw)),
             float=lambda: m.float_field(**dict(where, **kw)))[kind]()
    b = m.be_uint_field(where=m.bytes_ref[4:6], **(dict(default=dw) if has else {}))
    how = V.choice('how', ['plain', 'derived', 'empty derived', 'grandchild'])
    base = type(m.Buffer)
    if how == 'plain':
        cls = base('B', (m.Buffer,), dict(a=a, b=b))
    elif how == 'derived':
        cls = base('D', (base('B', (m.Buffer,), dict(a=a)),), dict(b=b))
    elif how == 'empty derived':
        cls = base('D', (base('B', (m.Buffer,), dict(a=a, b=b)),), {})
    else:
        cls = base('E', (base('D', (base('B', (m.Buffer,), dict(b=b)),), {}),), dict(a=a))
    given = dict((k, x) for k, x in (('a', v), ('b', w)) if V.choice('given ' + k, [True, False]))
    if V.choice('unknown', [False, True]):
        o = V.call(cls, **dict(given, **{V.choice('name', ['c', 'pack', '_all_fields', 'byte_size']): 1}))
        V.check('unknown', o.raised)
        return
    obj = V.do(cls, **given)
    for name, default in (('a', dv), ('b', dw)):
        V.check('argument' if name in given else 'default', getattr(obj, name) is given.get(name, default if has else None))
    other = V.do(cls)
    V.check('default', other.a is (dv if has else None) and other.b is (dw if has else None))


@unit('C20', 'already-set', reach=['argument', 'default', 'kept'])
def already_set(V):
    """what a class or an initialiser of the user's own has set is not replaced by the default"""
    m = V.mod('buffer')
    v, w, dv = V.value('v'), V.value('w'), V.value('dv')
    base = type(m.Buffer)
    B = base('B', (m.Buffer,), dict(a=m.bytearray_field(where=m.bytes_ref[0:4], default=dv), b=m.be_uint_field(where=m.bytes_ref[4:6], default=dv)))
    if V.choice('how', ['class', 'initialiser']) == 'class':
        C = base('C', (B,), dict(a=v))
    else:
        def init(self, **kwargs):
            self.a = v
            B.__init__(self, **kwargs)
        C = base('C', (B,), dict(__init__=init))
    same_as_set(V, C, v, w, dv)


def same_as_set(V, C, v, w, dv):
    obj = V.do(C)
    V.check('kept', obj.a is v)
    V.check('default', obj.b is dv)
    V.check('argument', V.do(C, a=w).a is w)


@unit('C20', 'already-set-struct', reach=['argument', 'default', 'kept'])
def already_set_struct(V):
    """the same for structs: what the class sets is not replaced by the default"""
    f = V.mod('struct').Field
    v, w, dv = V.value('v'), V.value('w'), V.value('dv')
    fields = [f('a', element(V, V.plist([v])), dv), f('b', element(V, V.plist([v])), dv)]
    B = struct(V, fields)
    C = struct(V, fields, a=v) if V.choice('how', ['own', 'derived']) == 'own' else type(B)('C', (B,), dict(a=v))
    same_as_set(V, C, v, w, dv)


@unit('C20', 'arguments', reach=['partial', 'helpers'])
def arguments(V):
    """the helpers that pass arguments on"""
    k = V.mod('utils.kwargs')
    v, w, x, y = V.value('v'), V.value('w'), V.value('x'), V.value('y')
    seen = []

    def func(*args, **kwargs):
        seen.append((args, kwargs))
        return x
    kept = dict((n, z) for n, z in (('p', v), ('q', w)) if V.choice('kept ' + n, [True, False]))
    given = dict((n, z) for n, z in (('p', x), ('r', y)) if V.choice('given ' + n, [True, False]))
    pos, more = V.choice('positional', [[], [v]]), V.choice('more', [[], [w, y]])
    f = V.do(k.keep_kwargs_partial, func, *pos, **kept)
    V.check('partial', V.do(f, *more, **given) is x)
    args, kwargs = seen[0]
    expect = dict(given, **kept)
    V.check('partial', len(args) == len(pos + more) and all(p is q for p, q in zip(args, pos + more)))
    V.check('partial', sorted(kwargs) == sorted(expect) and all(kwargs[n] is expect[n] for n in expect))
    before = dict(kept)
    got = V.do(k.copy_defaults_and_override_with_kwargs, kept, given)
    expect = dict(kept, **given)
    V.check('helpers', sorted(got) == sorted(expect) and all(got[n] is expect[n] for n in expect))
    V.check('helpers', sorted(kept) == sorted(before) and all(kept[n] is before[n] for n in before))
    got = V.do(k.copy_and_remove_kwargs, expect, ['p', 'z'])
    V.check('helpers', sorted(got) == sorted(n for n in expect if n != 'p') and all(got[n] is expect[n] for n in got))
    o = V.call(k.assert_kwarg_exactly_single_out_of, expect, ['p', 'q'])
    V.check('helpers', o.ok == (('p' in expect) != ('q' in expect)))
    o = V.call(k.assert_kwargs_not_conflicting, expect, 'p', ['q', 'z'])
    V.check('helpers', o.ok == (not ('p' in expect and 'q' in expect)))
    o = V.call(k.assert_kwarg_required, expect, 'r')
    V.check('helpers', o.ok == ('r' in expect))


@unit('C20', 'declared', reach=['default', 'argument', 'written'])
def declared(V):
    """every way to declare a field with a default: the default is the field's value and is what is written"""
    m = V.mod('macros')
    n = V.int('n', 1, 20, soft=5)
    text, count = V.bytes('text', n=n), V.int('count', 0, 255)
    V.assume(V.and_(V.byte(text, 0) != 0, V.byte(text, n - 1) != 0))
    numbers = V.plist([V.int('e%d' % k, 0, 255) for k in range(V.choice('len', [0, 1, 3]))])
    some = V.cat(V.zeros(0), *[V.encode_int(x, 1) for x in numbers])
    kind = V.choice('kind', ['string', 'long string', 'counted string', 'buffer', 'counted buffer', 'array', 'counted array', 'summed array', 'mapping',
                             'number', 'bit', 'flag', 'function'])
    k = len(list(numbers))
    one = V.encode_int
    inner = struct(V, [m.UBInt8('v')])
    made = dict([
        ('string', lambda d: (m.PaddedString('x', n, default=d), text, text)),
        ('long string', lambda d: (m.FixedSizeString('x', n + 2, b'\0', m.PADDING_DIRECTION_RIGHT, d), text, V.cat(text, V.zeros(2)))),
        ('counted string', lambda d: (m.VarSizeString('x', m.UBInt8, default=d), text, V.cat(one(n, 1), text))),
        ('buffer', lambda d: (m.FixedSizeBuffer('x', n, d), text, text)),
        ('counted buffer', lambda d: (m.VarSizeBuffer('x', m.UBInt16, d), text, V.cat(one(n, 2, 'big'), text))),
        ('array', lambda d: (m.FixedSizeArray('x', k, m.UBInt8, d), numbers, some)),
        ('counted array', lambda d: (m.VarSizeArray('x', m.UBInt8, m.UBInt8, d), numbers, V.cat(one(k, 1), some))),
        ('summed array', lambda d: (m.SumSizeArray('x', m.UBInt16, m.UBInt8, d), numbers, V.cat(one(k, 2, 'big'), some))),
        ('mapping', lambda d: (m.MappingField('x', m.UBInt8, dict(red=7, blue=9), d), 'blue', one(9, 1))),
        ('number', lambda d: (m.ULInt16('x', d), count, one(count, 2, 'little'))),
        ('bit', lambda d: (m.BitFields(m.BitField('x', 8, d)), count, one(count, 1))),
        ('flag', lambda d: (m.BitFields(m.BitFlag('x', d), m.BitPadding(7)), 1, one(1, 1))),
        ('function', lambda d: (m.SelectStructByFunc('x', lambda obj, stream, context: inner, default=d), V.do(inner, v=count), one(count, 1))),
    ])[kind]
    value, data = made(None)[1:]
    same = lambda x: V.eq(x.v, value.v) if kind == 'function' else V.and_(V.eq(V.len(x), k), *[V.eq(V.elem(x, j), V.elem(value, j)) for j in range(k)]) if 'array' in kind else V.eq(x, value)
    cls = struct(V, [made(value)[0], m.UBInt8('y')])
    obj = V.do(cls)
    V.check('default', same(obj.x))
    V.do(setattr, obj, 'y', 3)
    V.check_eq('written', V.do(cls.write_to_string, obj), V.cat(data, one(3, 1)))
    plain = struct(V, [made(None)[0], m.UBInt8('y')])
    V.check('default', V.do(plain).x is None)
    given = V.do(plain, x=value, y=3)
    V.check('argument', same(given.x))
    V.check_eq('written', V.do(plain.write_to_string, given), V.cat(data, one(3, 1)))
