"""C08: references evaluate once, in any order, and cycles are reported."""
import operator
from engine.specapi import unit

RE = 'buffer.reference'


class Failed(Exception):
    pass


def node(V, name, action, numeric=True):
    """a reference that does something known when it is evaluated, and counts"""
    class Node(V.mod(RE).Reference):
        def evaluate(self, ctx):
            V.put(self, 'count', self.count + 1)
            V.put(self, 'seen', ctx)
            return action(ctx)

        def __safe_repr__(self):
            return name
    r = V.new(Node, numeric)
    r.count, r.seen, r.name = 0, None, name
    return r


def value_of(v):
    def action(ctx):
        return v
    return action


def context(V):
    return V.new(V.mod(RE).Context)


# -- one evaluation

@unit('C08', 'once', reach=['value', 'once', 'failure', 'again', 'others'])
def once(V):
    """a reference inside others that are being evaluated, beside others already known; it succeeds or fails"""
    ctx = context(V)
    u = V.int('u')
    what = V.choice('what', ['fails', 'number', None, False, '', b'', 'object'])
    fails = what == 'fails'
    v = V.int('v') if what in ('number', 'fails') else object() if what == 'object' else what
    error = Failed()

    def evaluate(c):
        if fails:
            raise error
        return v
    x = node(V, 'x', evaluate)
    known = [node(V, 'known%d' % k, value_of(u)) for k in range(V.choice('known', [0, 2]))]
    depth = V.choice('depth', [0, 1, 2])
    outcomes = []

    def inner(c):
        for k in known:
            V.check('others', V.eq(V.do(k.deref, c), u))
        for _ in range(2):
            outcomes.append(V.call(x.deref, c))
        for k in known:
            V.check('others', V.eq(V.do(k.deref, c), u))
            V.check('others', k.count == 1)
        return 7
    chain = [inner]
    outer = []
    for d in range(depth):
        outer.append(node(V, 'outer%d' % d, chain[-1]))
        chain.append(lambda c, o=outer[-1]: V.do(o.deref, c))
    V.do(chain[-1], ctx)
    for o in outcomes:
        if fails:
            V.check('failure', o.exc is error)
        else:
            V.check('value', o.ok)
            V.check('value', V.eq(o.value, v) if what == 'number' else o.value is v)
    V.check('once', x.count == (2 if fails else 1))
    V.check('once', x.seen is ctx)
    # nothing is left unfinished: all of them are still there to be asked
    V.check('again', V.call(x.deref, ctx).raised == fails)
    for o in outer:
        V.check('again', V.eq(V.do(o.deref, ctx), 7))
        V.check('again', o.count == 1)


@unit('C08', 'cycle', reach=['error', 'named', 'clean'])
def cycle(V):
    """any cycle of up to four references reached through up to two others"""
    ctx = context(V)
    lead, n = V.choice('lead', [0, 1, 2]), V.choice('n', [1, 2, 3, 4])
    nodes = []
    total = lead + n
    repaired = []
    for k in range(total):
        nodes.append(node(V, 'node%d' % k, lambda c, k=k: 5 if repaired and k == total - 1 else
                          aside.deref(c) + nodes[k + 1 if k + 1 < total else lead].deref(c) + 1))
    aside = node(V, 'aside', lambda c: 0)
    o = V.call(nodes[0].deref, ctx)
    V.check('error', o.raised_a(V.mod(RE).CyclicReferenceError))
    if o.raised:
        text = str(o.exc)
        V.check('named', 'aside' not in text)
        at = [text.find('node%d' % k) for k in range(total)]
        V.check('named', all(p >= 0 for p in at[lead:]))
        V.check('named', at[lead:] == sorted(at[lead:]))
        V.check('named', text.rfind('node%d' % lead) > max(at[lead:]) or n == 1)
    for x in nodes:
        V.check('clean', x.count == 1)
    # nobody kept a value, and with the last one answering all of them do
    repaired.append(True)
    for k in range(total):
        V.check('clean', V.eq(V.do(nodes[k].deref, ctx), 5 + total - 1 - k))


def graph(V, nodes, edges, ctx, base):
    def action(k):
        def evaluate(c):
            total = base[k]
            for j in edges[k]:
                total = total + nodes[j].deref(c)
            return total
        return evaluate
    for k in range(len(edges)):
        nodes.append(node(V, 'n%d' % k, action(k)))


@unit('C08', 'graphs', sym=False, reach=['value', 'once'], cases=800,
      bounded='random graphs of up to seven references asked in a random order (one evaluation in any surrounding is C08.once)')
def graphs(V):
    n = V.int('n', 1, 7)
    edges = [[j for j in range(n) if V.choice('edge', [0, 0, 0, 1])] for k in range(n)]
    base = [V.int('base', 0, 9) for _ in range(n)]
    nodes = []
    ctx = context(V)
    graph(V, nodes, edges, ctx, base)

    def want(k, path):
        if k in path:
            return None
        below = [want(j, path | {k}) for j in edges[k]]
        return None if None in below else base[k] + sum(below)
    good = {}
    for _ in range(n + 2):
        k = V.int('ask', 0, n - 1)
        o = V.call(nodes[k].deref, ctx)
        w = want(k, frozenset())
        if w is None:
            V.check('value', o.raised_a(V.mod(RE).CyclicReferenceError))
        else:
            V.check('value', o.ok and o.value == w)
            V.check('once', nodes[k].count == 1)


# -- expressions over references that keep that contract

BINARY = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq', 'ne']


def operand(V, name, v):
    return node(V, name, value_of(v))


@unit('C08', 'arithmetic', reach=['value', 'operands'])
def arithmetic(V):
    op = getattr(operator, V.choice('op', BINARY))
    shape = V.choice('shape', ['ref-ref', 'ref-number', 'number-ref', 'same', 'nested'])
    if op is operator.mul:
        a, b = V.int('a'), V.choice('b', [-3, 0, 8])
        if V.choice('swap', [False, True]):
            a, b = b, a
    elif op in (operator.floordiv, operator.truediv):
        a, b = V.choice('dividend', [0, 7, -9]), V.choice('divisor', [0, 2, -4])
        if b == 2:
            a = V.int('a')
    else:
        a, b = V.int('a'), V.int('b')
    ctx = context(V)
    ra, rb = operand(V, 'a', a), operand(V, 'b', b)
    if shape == 'same':
        rb, b = ra, a
        if op in (operator.floordiv, operator.truediv) or op is operator.mul:
            V.reject()
    x, y = (a if shape == 'number-ref' else ra), (b if shape == 'ref-number' else rb)
    e = V.do(op, x, y)
    V.check('value', isinstance(e, V.mod(RE).Reference))
    V.check('value', V.do(e.is_numeric))
    if shape == 'nested':
        e2 = V.do(operator.add, e, operand(V, 'c', 5))
        o, want = V.call(e2.deref, ctx), V.call(lambda: op(a, b) + 5)
    else:
        o, want = V.call(e.deref, ctx), V.call(op, a, b)
    if want.ok:
        V.check('value', o.ok)
        V.check('value', V.eq(o.value, want.value))
    else:
        V.check('value', o.raised_a(type(want.exc)))
    V.check('operands', V.and_(ra.count == (0 if x is not ra else 1), rb.count == (0 if y is not rb and x is not rb else 1)))


@unit('C08', 'negation', reach=['value'])
def negation(V):
    a = V.int('a')
    r = operand(V, 'a', a)
    ctx = context(V)
    e = V.do(operator.neg, r)
    V.check('value', V.eq(V.do(e.deref, ctx), -a))
    V.check('value', V.eq(V.do(V.do(lambda: 7 + e * 2).deref, ctx), 7 - 2 * a))
    V.check('value', V.do(e.is_numeric))
    V.check('value', r.count == 1)


@unit('C08', 'not-numbers', reach=['refused'])
def not_numbers(V):
    """no arithmetic and no order on references that are not numbers"""
    op = getattr(operator, V.choice('op', ['add', 'sub', 'mul', 'floordiv', 'truediv', 'lt', 'le', 'gt', 'ge']))
    x = node(V, 'x', value_of('text'), False)
    y = V.choice('y', [3, 'text', 'other'])
    if y == 'other':
        y = node(V, 'y', value_of('text'), False)
    V.check('refused', V.call(lambda: op(x, y)).raised)
    V.check('refused', V.call(lambda: op(y, x)).raised)
    V.check('refused', V.call(lambda: -x).raised)
    z = node(V, 'z', value_of(V.int('z')), True)
    V.check('refused', V.call(lambda: op(z, 'text')).raised)
    V.check('refused', V.call(lambda: op('text', z)).raised)


@unit('C08', 'field-kinds', reach=['numbers', 'others'])
def field_kinds(V):
    """which fields can be calculated with"""
    m = V.mod('buffer')

    class Inner(m.Buffer):
        a = m.uint_field(where=m.bytes_ref[0])
    where = m.bytes_ref[0:4]
    makers = dict(int=lambda: m.int_field(where=where), be_uint=lambda: m.be_uint_field(where=where), le_int=lambda: m.le_int_field(where=where),
                  float=lambda: m.float_field(where=where), be_float=lambda: m.float_field(endian='big', where=where),
                  str=lambda: m.str_field(where=where), bytearray=lambda: m.bytearray_field(where=where), json=lambda: m.json_field(where=where),
                  buffer=lambda: m.buffer_field(Inner, where=where), list=lambda: m.list_field(type=m.b_uint16, where=where))
    kind = V.choice('kind', sorted(makers))
    f = V.do(makers[kind])
    op = getattr(operator, V.choice('op', ['add', 'sub', 'mul', 'floordiv', 'truediv', 'lt', 'le', 'gt', 'ge']))
    side = V.choice('side', ['left', 'right', 'minus'])
    o = V.call(lambda: op(f, 3) if side == 'left' else op(3, f) if side == 'right' else -f)
    if kind in ('int', 'be_uint', 'le_int', 'float', 'be_float'):
        V.check('numbers', V.do(f.is_numeric))
        V.check('numbers', o.ok)
    else:
        V.check('others', V.not_(V.do(f.is_numeric)))
        V.check('others', o.raised)


@unit('C08', 'min-max', reach=['value'])
def min_max(V):
    n = V.choice('n', [2, 3])
    values = [V.int('v%d' % k) for k in range(n)]
    plain = V.choice('plain', [None, 0, n - 1])
    refs = [operand(V, 'r%d' % k, v) if k != plain else v for k, v in enumerate(values)]
    which = V.choice('which', ['min', 'max'])
    e = V.new(getattr(V.mod('buffer'), which + '_ref'), *refs)
    got = V.do(e.deref, context(V))
    for v in values:
        V.check('value', got <= v if which == 'min' else got >= v)
    V.check('value', V.or_(*[V.eq(got, v) for v in values]))
    V.check('value', V.do(e.is_numeric))


@unit('C08', 'length', reach=['value'])
def length(V):
    data = V.bytes('data')
    m = V.mod('buffer')
    how = V.choice('how', ['ref', 'name', 'self_ref'])
    if how == 'ref':
        e, ctx = m.len_ref(node(V, 'x', value_of(data), False)), context(V)
    else:
        class Obj(object):
            pass
        o = Obj()
        o.x = data
        e = m.len_ref('x' if how == 'name' else m.self_ref.x)
        ctx = V.new(V.mod(RE).PackContext, o, [])
    V.check('value', V.eq(V.do(e.deref, ctx), V.len(data)))
    V.check('value', V.do(e.is_numeric))


@unit('C08', 'calls', reach=['result', 'arguments', 'once', 'failure'])
def calls(V):
    """function, positional and keyword arguments may be references or plain values"""
    ref = V.mod(RE)
    a, b, k, r = V.int('a'), V.int('b'), V.int('k'), V.int('r')
    kinds = V.choice('kinds', [(f, x, y, z) for f in (0, 1) for x in (0, 1) for y in (0, 1) for z in (0, 1)])
    fails = V.choice('fails', [False, True])
    seen = []
    error = Failed()

    def func(*args, **kwargs):
        seen.append((args, kwargs))
        if fails:
            raise error
        return r
    given = []

    def arg(kind, v, name):
        if not kind:
            return v
        given.append(operand(V, name, v))
        return given[-1]
    e = V.new(ref.FuncCallReference, False, arg(kinds[0], func, 'f'), arg(kinds[1], a, 'a'), arg(kinds[2], b, 'b'), key=arg(kinds[3], k, 'k'))
    ctx = context(V)
    o = V.call(e.deref, ctx)
    if fails:
        V.check('failure', o.exc is error)
    else:
        V.check('result', o.ok)
        V.check('result', V.eq(o.value, r))
        V.check('result', V.eq(V.do(e.deref, ctx), r))
    V.check('once', len(seen) == 1)
    args, kwargs = seen[0]
    V.check('arguments', len(args) == 2 and list(kwargs) == ['key'])
    V.check('arguments', V.and_(V.eq(args[0], a), V.eq(args[1], b), V.eq(kwargs['key'], k)))
    for g in given:
        V.check('once', g.count == 1)


@unit('C08', 'attributes', reach=['read', 'assigned', 'set'])
def attributes(V):
    ref = V.mod(RE)

    class Obj(object):
        pass
    o = Obj()
    v, w = V.int('v'), V.int('w')
    o.x = v
    wrap = (lambda x, name: node(V, name, value_of(x))) if V.choice('refs', [False, True]) else (lambda x, name: x)
    ctx = V.new(ref.PackContext, o, [])
    get = V.new(ref.GetAttrReference, True, V.new(ref.ContextGetAttrReference, False, 'obj') if V.choice('ctx', [0, 1]) else wrap(o, 'o'), wrap('x', 'name'))
    V.check('read', V.eq(V.do(get.deref, ctx), v))
    put = V.new(ref.AssignAttrReference, True, wrap(o, 'o'), wrap('x', 'name'), wrap(w, 'w'))
    V.check('assigned', V.eq(V.do(put.deref, ctx), w))
    V.check('assigned', V.eq(o.x, w))
    V.check('read', V.eq(V.do(get.deref, ctx), v))       # evaluated before
    m = V.mod('buffer')
    c2 = V.new(ref.PackContext, o, [])
    V.check('read', V.eq(V.do(m.num_ref(m.self_ref.x).deref, c2), w))
    z = V.int('z')
    done = V.new(ref.SetAttrReference, wrap(o, 'o'), wrap('y', 'name'), wrap(z, 'z'))
    V.check('set', V.do(done.deref, c2) is None and V.eq(o.y, z))
    V.put(o, 'y', w)
    V.do(done.deref, c2)
    V.check('set', V.eq(o.y, w))         # set once
    o.f = lambda *args: args
    got = V.do(m.self_ref.f(wrap(v, 'v'), w).deref, c2)
    V.check('read', V.and_(V.eq(got[0], v), V.eq(got[1], w)))


# -- in buffers

def counted(V, calls, name, fn):
    def f(*args):
        calls[name] = calls.get(name, 0) + 1
        return fn(*args)
    return f


ORDERS = [('a', 'b', 'c'), ('a', 'c', 'b'), ('b', 'a', 'c'), ('b', 'c', 'a'), ('c', 'a', 'b'), ('c', 'b', 'a')]


@unit('C08', 'pack-once', reach=['bytes', 'once', 'kept'])
def pack_once(V):
    """computed fields that ask for one another in any order"""
    m = V.mod('buffer')
    first, second, third = V.choice('order', ORDERS)
    calls = {}
    v = V.int('v', 0, 99)
    ns = {}
    ns[third] = m.uint_field(where=m.bytes_ref[2], set_before_pack=m.member_func_ref(counted(V, calls, third, lambda o: v)))
    double = counted(V, calls, second, lambda x: 2 * x)
    ns[second] = m.uint_field(where=m.bytes_ref[1], set_before_pack=V.new(V.mod(RE).FuncCallReference, True, double, ns[third]))
    ns[first] = m.uint_field(where=m.bytes_ref[0], set_before_pack=ns[second] + ns[third] - 1 * ns[third])
    cls = type(m.Buffer)('B', (m.Buffer,), ns)
    o = V.new(cls)
    data = V.do(o.pack)
    V.check_eq('bytes', data, V.cat(V.encode_int(2 * v, 1), V.encode_int(2 * v, 1), V.encode_int(v, 1)))
    V.check('once', calls == {second: 1, third: 1})
    V.check('kept', V.and_(V.eq(getattr(o, third), v), V.eq(getattr(o, second), 2 * v), V.eq(getattr(o, first), 2 * v)))


@unit('C08', 'unpack-once', reach=['values', 'once'])
def unpack_once(V):
    """fields whose values are computed from each other's, whatever the order"""
    m = V.mod('buffer')
    first, second, third = V.choice('order', ORDERS)
    calls = {}
    ns = {}
    ns[third] = m.uint_field(where=m.bytes_ref[0], set_after_unpack=counted(V, calls, third, lambda x: x + 1))
    ns[second] = m.uint_field(where=m.bytes_ref[1], set_after_unpack=V.new(V.mod(RE).FuncCallReference, True, counted(V, calls, second, lambda x: 2 * x), ns[third]))
    ns[first] = m.uint_field(where=m.bytes_ref[2], set_after_unpack=ns[second] + ns[third])
    cls = type(m.Buffer)('B', (m.Buffer,), ns)
    o = V.new(cls)
    x = V.int('x', 0, 255)
    V.do(o.unpack, V.cat(V.encode_int(x, 1), V.bytes('more', n=2)))
    V.check('values', V.and_(V.eq(getattr(o, third), x + 1), V.eq(getattr(o, second), 2 * x + 2), V.eq(getattr(o, first), 3 * x + 3)))
    V.check('once', calls == {second: 1, third: 1})


@unit('C08', 'input-length', reach=['value', 'values'])
def input_length(V):
    """the length of the input as a number: places from the end, and values"""
    m = V.mod('buffer')
    a, k = V.int('a', 0, 40, soft=4), V.int('k', 0, 40, soft=4)
    head, body, tail = V.bytes('head', n=a), V.bytes('body'), V.bytes('tail', n=k)
    n = a + V.len(body) + k
    ctx = V.new(V.mod(RE).UnpackContext, object(), [], V.cat(head, body, tail))
    V.check('value', V.eq(V.do(m.input_buffer_length.deref, ctx), n))
    V.check('value', V.eq(V.do((m.input_buffer_length - k + 1).deref, ctx), n - k + 1))
    V.check('value', not m.input_buffer_length.is_static())
    first, second, third = V.choice('order', ORDERS)
    fields = dict(a=m.bytearray_field(where=m.bytes_ref[:a]), b=m.bytearray_field(where=m.bytes_ref[a:m.input_buffer_length - k]),
                  c=m.bytearray_field(where=m.bytes_ref[m.input_buffer_length - k:m.input_buffer_length]))
    cls = type(m.Buffer)('B', (m.Buffer,), {x: fields[x] for x in (first, second, third)})
    V.check('values', cls.byte_size is None)
    o = V.new(cls)
    V.do(o.unpack, V.cat(head, body, tail))
    V.check_eq('values', o.a, head)
    V.check_eq('values', o.b, body)
    V.check_eq('values', o.c, tail)


def causes(exc):
    seen = []
    while exc is not None and exc not in seen:
        seen.append(exc)
        exc = exc.__cause__ or exc.__context__
    return seen


@unit('C08', 'buffer-cycle', reach=['refused', 'named', 'again'])
def buffer_cycle(V):
    """fields whose places or values depend on themselves"""
    m = V.mod('buffer')
    first, second, _ = V.choice('order', ORDERS[:3])
    how = V.choice('how', ['values', 'places', 'one'])
    ns = {}
    ns[first] = m.uint_field(where=m.bytes_ref[0:1])
    ns[second] = m.uint_field(where=m.bytes_ref[1:2])
    if how == 'values':
        ns[first] = m.uint_field(where=m.bytes_ref[0:1], set_before_pack=m.num_ref(getattr(m.self_ref, second)))
        ns[second] = m.uint_field(where=m.bytes_ref[1:2], set_before_pack=m.num_ref(getattr(m.self_ref, first)))
    elif how == 'one':
        ns[first] = m.uint_field(where=m.bytes_ref[0:1], set_before_pack=m.num_ref(getattr(m.self_ref, first)))
    else:
        ns[first] = m.uint_field(where=m.bytes_ref[1:m.num_ref(getattr(m.self_ref, first))])
    cls = type(m.Buffer)('B', (m.Buffer,), ns)
    o = V.new(cls)
    setattr(o, first, V.int('v', 0, 255))
    setattr(o, second, V.int('w', 0, 255))
    r = V.call(o.unpack, V.bytes('data', n=4)) if how == 'places' else V.call(o.pack)
    V.check('refused', r.raised)
    found = [e for e in causes(r.exc) if isinstance(e, V.mod(RE).CyclicReferenceError)]
    V.check('refused', len(found) > 0)
    if found:
        V.check('named', first in str(found[0]))
        V.check('named', how != 'values' or second in str(found[0]))
        V.check('named', 'repr error' not in str(found[0]))
    V.check('again', V.call(o.unpack if how == 'places' else o.pack, *([V.bytes('data2', n=4)] if how == 'places' else [])).raised)
