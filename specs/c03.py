"""C03: range lists measure, close, order and map offsets correctly."""
from engine.specapi import unit

RG = 'buffer.range'
BIG = 1 << 50


def one_range(V, E, kind, name=''):
    d = E.int if kind == 'int' else E.eighth
    if kind == 'mixed':
        d = E.pos
    s = d(name + 'start', 0, BIG)
    n = d(name + 'size', 0, BIG)
    return V.new(V.mod(RG).SequentialRange, s, s + n)


def kinds(V):
    return V.choice('kind', ['int', 'float'] + ([] if V.symbolic else ['mixed']))


def closed_list(V, kind=None, name='r'):
    k = kind or kinds(V)
    return V.list(name, lambda E: one_range(V, E, k))


def some_list(V, name='r'):
    """(range list, index of the open range or None)"""
    k = kinds(V)
    V.scale = 0 if k == 'int' else 3
    l = V.list(name, lambda E: one_range(V, E, k))
    if V.choice(name + '.open', [False, True]):
        at = V.len(l)
        o = V.mod(RG).SequentialRange(V.int('open.start', 0, BIG), None)
        l2 = V.list(name + '2', lambda E: one_range(V, E, k))
        V.index(at)
        return V.mod(RG).SequentialRangeList(l + V.plist([o]) + l2), at
    return V.mod(RG).SequentialRangeList(l), None


def size(V, r):
    return 0 if r.stop is None else r.stop - r.start


def upto(V, l):
    """sums(k): total size of the first k ranges"""
    return V.psum(V.len(l), lambda j: size(V, V.elem(l, j)), V.scale)


@unit('C03', 'construct', reach=['refused', 'start', 'stop'])
def construct(V):
    SR = V.mod(RG).SequentialRange
    a = V.choice('nostart', [False, True])
    b = V.choice('nostop', [False, True])
    start = None if a else V.pos('start', -BIG, BIG)
    stop = None if b else V.pos('stop', -BIG, BIG)
    o = V.call(SR, start, stop)
    s = 0 if a else start
    good = V.and_(s >= 0, True if b else stop >= s)
    if V.truth(good):
        V.check('accepted', o.ok)
        if o.ok:
            V.check('start', V.same_num(o.value.start, s))
            V.check('stop', (o.value.stop is None) if b else V.same_num(o.value.stop, stop))
            V.check('open', V.iff(V.do(o.value.is_open), b))
            sl = V.do(o.value.to_slice)
            V.check('slice', V.and_(V.same_num(sl.start, s), (sl.stop is None) if b else V.same_num(sl.stop, stop), V.eq(sl.step, 1)))
    else:
        V.check('refused', o.raised)


def arb(V, name):
    a = V.pos(name + '.start', 0, BIG)
    if V.choice(name + '.open', [False, True]):
        return V.mod(RG).SequentialRange(a, None)
    return V.mod(RG).SequentialRange(a, V.pos(name + '.stop', a, BIG))


@unit('C03', 'measure', reach=['length', 'stop'])
def measure(V):
    r = arb(V, 'r')
    n, m = V.do(r.byte_length), V.do(r.max_stop)
    if r.stop is None:
        V.check('length', n is None)
        V.check('stop', m is None)
    else:
        V.check('length', V.same_num(n, r.stop - r.start))
        V.check('stop', V.same_num(m, r.stop))


@unit('C03', 'close', reach=['stop', 'refused'])
def close(V):
    r = arb(V, 'r')
    t = V.pos('t', 0, BIG)
    o = V.call(r.to_closed, t)
    if r.stop is None:
        if V.truth(t >= r.start):
            V.check('accepted', o.ok)
            if o.ok:
                V.check('start', V.same_num(o.value.start, r.start))
                V.check('stop', V.same_num(o.value.stop, t))
        else:
            V.check('refused', o.raised)
    elif o.ok:
        V.check('start', V.same_num(o.value.start, r.start))
        V.check('stop', V.same_num(o.value.stop, r.stop))
    else:
        V.check('closes-when-possible', t < r.start)


def nonempty(V, r):
    return True if r.stop is None else r.stop > r.start


def share(V, a, b):
    """two ranges have a bit in common"""
    lo = V.max_(a.start, b.start)
    c = [nonempty(V, a), nonempty(V, b)]
    for r in (a, b):
        if r.stop is not None:
            c.append(lo < r.stop)
    return V.and_(*c)


@unit('C03', 'overlaps', reach=['iff'])
def overlaps(V):
    a, b = arb(V, 'a'), arb(V, 'b')
    V.assume(V.and_(nonempty(V, a), nonempty(V, b)))
    V.check('iff', V.iff(V.do(a.overlaps, b), share(V, a, b)))
    V.check('symmetric', V.iff(V.do(b.overlaps, a), share(V, a, b)))


@unit('C03', 'contains', reach=['iff'])
def contains(V):
    a = arb(V, 'a')
    p = V.pos('p', 0, BIG)
    V.check('iff', V.iff(V.do(a.contains, p), V.and_(a.start <= p, True if a.stop is None else p < a.stop)))


@unit('C03', 'order', reach=['eq', 'before'])
def order(V):
    a, b = arb(V, 'a'), arb(V, 'b')
    V.check('eq', V.iff(V.do(lambda: a == b), V.and_(V.same_num(a.start, b.start),
                        (a.stop is None) == (b.stop is None), True if a.stop is None or b.stop is None else V.same_num(a.stop, b.stop))))
    lt = V.do(lambda: a < b)
    before = V.and_(a.start < b.start, True if a.stop is not None and b.stop is None else False if a.stop is None
                    else a.stop < b.stop)
    V.check('before', V.iff(lt, before))


@unit('C03', 'list-length', reach=['sum', 'unknown'])
def list_length(V):
    l, at = some_list(V)
    n = V.do(l.byte_length)
    V.check('open', V.iff(V.do(l.is_open), at is not None))
    if at is not None:
        V.check('unknown', n is None)
    else:
        V.check('sum', False if n is None else V.same_num(n, upto(V, l)(V.len(l))))


@unit('C03', 'list-stop', reach=['largest', 'unknown'])
def list_stop(V):
    l, at = some_list(V)
    m = V.do(l.max_stop)
    if at is not None:
        V.check('unknown', m is None)
        return
    V.check('known', m is not None)
    V.all('bound', V.len(l), lambda j: V.elem(l, j).stop <= m)
    V.check('largest', V.or_(V.same_num(m, 0), V.exists('at', V.len(l), lambda j: V.same_num(V.elem(l, j).stop, m))))
    V.check('at-least-0', m >= 0)


@unit('C03', 'list-close', reach=['count'])
def list_close(V):
    l, at = some_list(V)
    t = V.pos('t', 0, BIG)
    o = V.call(l.to_closed, t)
    if at is None:
        V.assume(o.ok)
    elif V.truth(t < V.elem(l, at).start):
        V.check('refused', o.raised)
        return
    else:
        V.assume(o.ok)
    V.check('count', V.eq(V.len(o.value), V.len(l)))

    def each(j):
        a, b = V.elem(l, j), V.elem(o.value, j)
        V.check('start', V.same_num(a.start, b.start))
        V.check('stop', V.same_num(t if a.stop is None else a.stop, b.stop))
    V.cases('each', V.len(l), each)


@unit('C03', 'offset', reach=['position'])
def offset(V):
    """the position that walking the ranges in list order reaches"""
    l, at = some_list(V)
    x = V.pos('x', 0, BIG)
    sums = upto(V, l)
    n = V.len(l) if at is None else at
    total = sums(n)
    if at is None:
        V.assume(V.and_(x <= total, V.len(l) > 0))
    got = V.do(l.byte_offset, x)
    # the range reached: the first one that ends the walk
    for_j = lambda j: V.and_(V.or_(V.same_num(sums(j), 0), sums(j) < x), x <= sums(j + 1))
    hit = lambda j: V.and_(for_j(j), V.same_num(got, V.elem(l, j).start + (x - sums(j))))
    if at is None:
        V.check('position', V.exists('hit', n, hit))
    else:
        V.check('position', V.or_(V.exists('hit', n, hit),
                                  V.and_(V.or_(at == 0, x > total, V.same_num(total, 0)), V.same_num(got, V.elem(l, at).start + (x - total)))))


@unit('C03', 'container', reach=['none', 'index'])
def container(V):
    l, at = some_list(V)
    x = V.pos('x', 0, BIG)
    sums = upto(V, l)
    n = V.len(l) if at is None else at
    i, before = V.do(l.find_relative_container_index, x)
    if i is None:
        V.check('none', V.and_(at is None, x >= sums(n), V.same_num(before, sums(n))))
    else:
        V.check('in-list', V.and_(i >= 0, i < V.len(l)))
        V.check('before', V.same_num(before, sums(i)))
        V.check('index', V.and_(i <= n, sums(i) <= x))
        if at is None or V.truth(i < n):
            V.check('inside', x < sums(i + 1))


@unit('C03', 'sorted', reach=['order'])
def sorted_(V):
    l, at = some_list(V)
    s = V.do(l.sorted)
    V.check('type', V.type(s) is V.mod(RG).SequentialRangeList)
    V.check('count', V.eq(V.len(s), V.len(l)))

    def each(j):
        V.check('order', V.not_(V.do(lambda: V.elem(s, j + 1) < V.elem(s, j))))
    V.cases('each', V.len(l) - 1, each)
    if not V.symbolic:
        V.check('permutation', sorted(id(r) for r in s) == sorted(id(r) for r in l))


def overlapping(V, l):
    r = V.do(l.has_overlaps)
    n = V.len(l)
    if V.truth(r):
        V.check('some', V.exists2('pair', n, lambda i, j: V.and_(V.not_(V.eq(i, j)), share(V, V.elem(l, i), V.elem(l, j)))))
    else:
        def pair(i):
            V.trace(i)

            def other(j):
                V.trace(j)
                V.check('none', V.or_(V.eq(i, j), V.not_(share(V, V.elem(l, i), V.elem(l, j)))))
            V.cases('j', n, other)
        V.cases('i', n, pair)


@unit('C03', 'has-overlaps', reach=['none', 'some'])
def has_overlaps(V):
    overlapping(V, V.mod(RG).SequentialRangeList(closed_list(V)))


@unit('C03', 'has-overlaps-open', reach=['none', 'some'], sym=False)
def has_overlaps_open(V):
    """ranges any of which is open"""
    k = kinds(V)

    def some_range(E):
        r = one_range(V, E, k)
        if V.truth(V.eq(E.int('open', 0, 4), 0)):
            return V.new(V.mod(RG).SequentialRange, r.start, None)
        return r
    overlapping(V, V.mod(RG).SequentialRangeList(V.list('r', some_range)))


@unit('C03', 'concatenate', reach=['count'])
def concatenate(V):
    a, b = closed_list(V, 'float', 'a'), closed_list(V, 'float', 'b')
    RL = V.mod(RG).SequentialRangeList
    how = V.choice('how', ['lists', 'plain behind', 'plain before'])
    x, y = a if how == 'plain before' else RL(a), b if how == 'plain behind' else RL(b)
    r = V.do(lambda: x + y)
    V.check('type', V.type(r) is RL)
    V.check('count', V.eq(V.len(r), V.len(a) + V.len(b)))
    V.all('first', V.len(a), lambda j: V.same_num(V.elem(r, j).start, V.elem(a, j).start))
    V.all('second', V.len(b), lambda j: V.same_num(V.elem(r, V.len(a) + j).stop, V.elem(b, j).stop))
