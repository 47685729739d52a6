"""Loop contracts: closed forms of what a loop has done after k iterations (symbolic runs only).

Each is keyed by module.Scope.function:ordinal. A contract that no longer matches the code (renamed variables, another
loop, a changed effect) is dropped and the loop unrolled to a bound: that loses the proof, it never raises an alarm."""
import sys

from engine import rt, sym
from engine.rt import loop_contract, Part, List
from engine.sym import mknum, SBig


@loop_contract('buffer.io_buffer.BitView.to_bitstr:0')
def to_bitstr(L, k):
    view = L.entry.self
    buf = sym.to_sbytes(view.buffer).snapshot()
    first = sym.trunc(view.start * 8)
    first = first.n if isinstance(first, sym.SNum) else first
    return dict(heap=[(L.raw.result, 'data', List.of([Part(k, lambda j: SBig(lambda i: sym.And(i == 0, buf.bit(sym._add(first, j)))
                                                                if not isinstance(i, int) else (buf.bit(sym._add(first, j)) if i == 0 else False), 1))]))])


def frozen_bits(it):
    """bit function of an iterable of bytes as it is now, later writes notwithstanding"""
    from engine.sym import SBytes, as_big, zdiv, zmod
    if isinstance(it, SBytes):
        s = it.snapshot()
        return lambda p: s.bit(p)
    if hasattr(it, 'buffer') and hasattr(it, 'start'):
        s, first = sym.to_sbytes(it.buffer).snapshot(), eighths(it.start)
        n = sym.lit(eighths(it.stop) - first)
        return lambda p: sym.And(p >= 0, p < n, s.bit(sym._add(p, first)))
    else:
        seq = rt.toseq(it)

    def bit(p):
        if isinstance(p, int) and p < 0:
            return False
        if seq.concrete() and not isinstance(p, int):
            items = seq.items()
            if all(isinstance(x, int) for x in items):
                return sym.SBytes([sym.const_seg(bytes(items))], 'bytes').bit(p)
        return sym.bit_of_num(seq.elem(zdiv(p, 8)), zmod(p, 8))
    return bit


def num(x):
    """integer term of a whole number"""
    n = sym.trunc(x) if isinstance(x, (sym.SNum, sym.SBig)) else int(x)
    return n.n if isinstance(n, sym.SNum) else n


def eighths(x):
    n, d, _ = sym.split(x)
    return sym.lit(n * (1 << (3 - d)))


def either(L, actual, value):
    """the number, as an int or a float: which of them is not part of the invariant"""
    n, d, _ = sym.split(value)
    return mknum(n, d, sym.P().flip('float') == 1 if L.havoc else sym.split(actual)[2])


@loop_contract('buffer.io_buffer.BitAwareByteArray._copy_to_range:0')
def copy_to_range(L, k):
    e = L.entry
    m = L.memo
    if 'bits' not in m:
        m['bits'] = frozen_bits(L.raw.iterable)
        m['old'] = sym.to_sbytes(L.raw.self.buffer).snapshot()
    bits, old = m['bits'], m['old']
    total, first = num(e.remaining_bit_len), eighths(e.offset)
    done = sym.zmin(sym._mul8(k), total)
    new = sym.SBytes([sym.Seg(old.blen(), lambda p: sym.If(sym.And(p >= first, p < sym._add(first, done)),
                                                           bits(sym._sub(p, first)), old.bit(p)))], 'bytearray')
    return dict(vars={'offset': e.offset + mknum(k), 'remaining_bit_len': e.remaining_bit_len - mknum(sym._mul8(k))},
                heap=[(L.raw.self.buffer, 'data', new)])


@loop_contract('buffer.io_buffer.BitAwareByteArray._del_range:0')
def del_range(L, k):
    e = L.entry
    m = L.memo
    if 'old' not in m:
        m['old'] = sym.to_sbytes(L.raw.self.buffer).snapshot()
    old = m['old']
    first, shift = eighths(e.start), eighths(e.bit_len_frac)
    total = sym.lit(eighths(L.raw.self.stop) - shift - first)
    done = sym.zmin(sym._mul8(k), sym.zmax(total, 0))
    new = sym.SBytes([sym.Seg(old.blen(), lambda p: sym.If(sym.And(p >= first, p < sym._add(first, done)),
                                                           old.bit(sym._add(p, shift)), old.bit(p)))], 'bytearray')
    return dict(vars={'ofs': e.ofs + mknum(k)}, heap=[(L.raw.self.buffer, 'data', new)],
                facts=[sym.Or(k <= 0, sym._mul8(sym._sub(k, 1)) < total)])


@loop_contract('buffer.io_buffer.BitAwareByteArray._value_to_value_and_length:0')
def value_bytes(L, k):
    v = sym.as_big(L.entry.value)

    def byte(j):
        return sym.SBig(lambda i: sym.And(i < 8, i >= 0, v.f(sym._add(sym._mul8(j), i))), 8)
    return dict(vars={'value': v >> mknum(sym._mul8(k))}, heap=[(L.raw.l, 'data', List.of([Part(k, byte)]))])


# -- range lists

def range_sums(L, seq):
    """prefix sums of the sizes of the ranges, an open one counting as empty"""
    m = L.memo
    if 'ps' not in m:
        d, fl = rt.range_scale(seq)
        m['fl'] = fl

        def size(j):
            r = seq.elem(j)
            return 0 if r.stop is None else sym.scaled(r.stop - r.start, d)
        m['ps'] = rt.prefix_sums(size, d, seq.length())
        m['d'] = d
    return m['ps']


def total(L, k):
    """the sum over the first k elements, which starts with the integer 0"""
    L.memo['ps'].at(k)
    if L.memo['fl'] and not (k > 0 if isinstance(k, int) else sym.P().branch(k > 0)):
        return 0
    return mknum(L.memo['ps'].at(k), L.memo['d'], L.memo['fl'])


def closed_before(seq, k):
    return lambda j: sym.Implies(sym.And(j >= 0, j < k), seq.elem(j).stop is not None)


@loop_contract('buffer.range.SequentialRangeList.byte_length:0')
def ranges_length(L, k):
    range_sums(L, L.seq)
    return dict(vars={'sum': total(L, k)}, facts=[closed_before(L.seq, k)])


@loop_contract('buffer.range.SequentialRangeList.max_stop:0')
def ranges_max(L, k):
    import z3
    m = L.memo
    seq = L.seq
    if 'mx' not in m:
        m['d'], m['fl'] = rt.range_scale(seq)
        nm = sym.P().freshname('max')
        m['mx'], m['at'] = z3.Function(nm, sym.INT, sym.INT), z3.Function(nm + '_at', sym.INT, sym.INT)
        sym.P().add(m['mx'](z3.IntVal(0)) == 0)
    d, mx, at = m['d'], m['mx'], m['at']
    t = z3.IntVal(k) if isinstance(k, int) else k
    stop = lambda j: 0 if seq.elem(j).stop is None else sym.scaled(seq.elem(j).stop, d)
    prev = z3.simplify(t - 1)
    if getattr(L, 'k', None) is not None and not isinstance(k, int) and prev.eq(z3.simplify(L.k if sym.isz(L.k) else z3.IntVal(L.k))):
        s = stop(L.k)
        sym.P().add(mx(t) == z3.If(s > mx(L.k), s, mx(L.k)))
        sym.P().add(at(t) == z3.If(s > mx(L.k), L.k, at(L.k)))
    v = mx(t) if not (isinstance(k, int) and k == 0) else 0
    fl = m['fl'] and not (isinstance(v, int)) and sym.P().branch(v > 0)
    w = at(t)
    rt.index_term(w)
    return dict(vars={'m': mknum(v, d, fl) if not isinstance(v, int) else 0},
                facts=[closed_before(seq, k), lambda j: sym.Implies(sym.And(j >= 0, j < k), stop(j) <= v), v >= 0,
                       sym.Or(v == 0, sym.And(w >= 0, w < k, stop(w) == v))])


@loop_contract('buffer.range.SequentialRangeList.byte_offset:0')
def ranges_offset(L, k):
    seq = L.seq
    range_sums(L, seq)
    rest = L.entry.remaining_bytes - total(L, k)
    return dict(vars={'remaining_bytes': rest}, facts=[closed_before(seq, k), sym.Or(k <= 0, sym.zb(rest > 0))])


@loop_contract('buffer.range.SequentialRangeList.find_relative_container_index:0')
def ranges_container(L, k):
    seq = rt.toseq(L.raw.self)
    range_sums(L, seq)
    L.memo['ps'].step(k)
    before = total(L, k)
    return dict(vars={'sum_length': before}, facts=[closed_before(seq, k), sym.Or(k <= 0, sym.zb(L.entry.point >= before))])


@loop_contract('buffer.range.SequentialRangeList.has_overlaps:0')
def no_overlap(L, k):
    """the sorted ranges are non-empty and each ends before the next starts (the transitive form, by induction)"""
    seq = rt.toseq(L.raw.sorted_list)

    def before(i, j):
        a, b = seq.elem(i), seq.elem(j)
        return False if a.stop is None else sym.zb(a.stop <= b.start)
    return dict(vars={}, facts=[lambda i, j: sym.Implies(sym.And(i >= 0, i < j, j <= k), before(i, j))])


# -- integers

@loop_contract('buffer.serialize.unpack_bit_int:0')
def int_of_bits(L, k):
    """the integer whose low bytes are the k bytes read so far (last one most significant)"""
    seq = L.seq

    def bit(i):
        j = sym._sub(sym._sub(k, 1), sym.zdiv(i, 8))
        return sym.And(i >= 0, i < sym._mul8(k), sym.bit_of_num(rt.quiet(seq.elem, j), sym.zmod(i, 8)))
    return dict(vars={'result': SBig(bit, sym._mul8(k)) if not (isinstance(k, int) and k == 0) else 0})


# -- the mixin methods of the interpreter's abstract sequences

@loop_contract('_collections_abc.MutableSequence.extend:0')
def extend(L, k):
    """BitAwareByteArray.extend with plain bytes: the first k of them appended at the end of the window"""
    me, m = L.raw.self, L.memo
    if not hasattr(me, 'buffer') or not hasattr(me, 'stop'):
        return None
    if 'bits' not in m:
        m['bits'] = frozen_bits(L.raw.values)
        m['old'] = sym.to_sbytes(me.buffer).snapshot()
        m['stop'] = me.stop
    bits, old = m['bits'], m['old']
    first, size, done = eighths(m['stop']), old.blen(), sym._mul8(k)
    end = sym.zdiv(sym._add(sym._add(first, done), 7), 8)
    grown = size if isinstance(k, int) and k == 0 else sym.zmax(size, end)
    new = sym.SBytes([sym.Seg(grown, lambda p: sym.If(sym.And(p >= first, p < sym._add(first, done)), bits(sym._sub(p, first)),
                                                      sym.And(p < sym._mul8(size), old.bit(p))))], 'bytearray')
    return dict(heap=[(me, 'stop', either(L, me.stop, m['stop'] + mknum(k))), (me.buffer, 'data', new)])


# -- the bit stream

@loop_contract('utils.bitstringio.BitStringIO.read:0')
def bits_read(L, k):
    e, me = L.entry, L.raw.self
    src = sym.to_sbytes(me.value).snapshot()
    pos, have, want = num(me.position), num(e.bits_read), num(e.bits_to_read)
    w = sym.lit(sym.zmin(sym._add(have, sym._mul8(k)), want))
    return dict(vars={'result': SBig(lambda i: sym.And(i >= 0, i < w, src.bit(sym._add(pos, i))), w),
                      'byte_i': e.byte_i + mknum(k)})


@loop_contract('utils.bitstringio.BitStringIO.write:0')
def bits_written(L, k):
    e, me, m = L.entry, L.raw.self, L.memo
    if 'old' not in m:
        m['old'] = sym.to_sbytes(me.value).snapshot()
    old, v = m['old'], sym.as_big(e.value)
    pos, have, want = num(me.position), num(e.bits_written), num(e.bits_to_write)
    w = sym.lit(sym.zmin(sym._add(have, sym._mul8(k)), want))
    first = sym.lit(pos + have)
    new = sym.SBytes([sym.Seg(old.blen(), lambda p: sym.If(sym.And(p >= first, p < sym._add(pos, w)),
                                                           sym.Or(old.bit(p), v.f(sym._sub(p, pos))), old.bit(p)))], 'bytearray')
    return dict(vars={'byte_i': e.byte_i + mknum(k)}, heap=[(me.value, 'data', new)])


# -- lists of abstract elements

def abstract(m):
    return hasattr(m, 'cursor') and hasattr(m, 'values') and not rt.toseq(m.values).concrete()


def after(stream, content, j, k):
    """a stream to which the first k values were appended"""
    from engine.sym import SBytes
    n = content.blen()
    return [(stream, 'content', SBytes(content.segs + [j.seg(k)], 'bytes')), (stream, 'pos', sym._add(n, j.ps.at(k)))]


def within(stream, start, j, k):
    """what was read was there"""
    return sym.zb(sym._add(start, j.ps.at(k)) <= stream.content.blen())


def reading(L, k, obj):
    """the first k elements were read from the stream"""
    from engine.vsym import joined
    em, m, stream = L.raw.self.element_marshal, L.memo, L.raw.stream
    if not abstract(em):
        return None
    while hasattr(stream, 'stream'):
        stream = stream.stream
    if 'j' not in m:
        m['j'], m['pos'], m['cur'] = joined(rt.toseq(em.values)), stream.pos, em.cursor
    if not isinstance(m['cur'], int) or m['cur'] != 0:
        return None
    j = m['j']
    return dict(heap=[(obj, 'data', List.of([Part(k, j.seq.elem)])), (stream, 'pos', sym._add(m['pos'], j.ps.at(k))),
                      (em, 'cursor', mknum(k))], facts=[within(stream, m['pos'], j, k)])


@loop_contract('array.VarSizeArrayMarshal.create_from_stream:0')
def array_read(L, k):
    return reading(L, k, L.raw.obj)


@loop_contract('array.SumSizeArrayMarshal.create_from_stream:0')
def sum_array_read(L, k):
    r = reading(L, k, L.raw.obj)
    if r is None:
        return None
    j = L.memo['j']
    j.ps.step(k)
    r['vars'] = {'total_bytes': L.entry.total_bytes - mknum(j.ps.at(k))}
    r['facts'] += [k <= j.seq.length(), j.ps.at(k) <= j.ps.at(j.seq.length())]
    return r


def appended(L, k):
    """the first k values were written to the stream"""
    from engine.vsym import joined
    m, stream = L.memo, L.raw.stream
    if not abstract(L.raw.self.element_marshal):
        return None
    if 'j' not in m:
        m['j'], m['old'] = joined(L.seq), stream.content
    return dict(heap=after(stream, m['old'], m['j'], k))


loop_contract('array.VarSizeArrayMarshal.write_to_stream:0')(appended)
loop_contract('array.SumSizeArrayMarshal.write_to_stream:0')(appended)


@loop_contract('buffer.serialize.pack_list:0')
def list_packed(L, k):
    """the encodings of the first k elements, one after another"""
    from engine.vsym import joined
    em, m, out = L.raw.elem_packer, L.memo, L.raw.result
    if not abstract(em) or not hasattr(out, 'buffer') or not hasattr(out, 'stop'):
        return None
    if 'j' not in m:
        m['j'] = joined(rt.toseq(em.values))
    done = m['j'].seg(k)
    return dict(vars={'result': out}, heap=[(out.buffer, 'data', sym.SBytes([done], 'bytearray')), (out, 'stop', either(L, out.stop, mknum(done.n)))])


@loop_contract('buffer.serialize.unpack_list:0')
def list_unpacked(L, k):
    """the first k elements were read"""
    from engine.vsym import joined
    em, m = L.raw.elem_unpacker, L.memo
    if not abstract(em):
        return None
    if 'j' not in m:
        m['j'], m['cur'] = joined(rt.toseq(em.values)), em.cursor
    if not isinstance(m['cur'], int) or m['cur'] != 0:
        return None
    j = m['j']
    count = j.seq.length()
    j.ps.step(k)
    return dict(vars={'offset': mknum(j.ps.at(k)), 'index': mknum(k)},
                heap=[(L.raw.result, 'data', List.of([Part(k, j.seq.elem)])), (em, 'cursor', mknum(k))],
                facts=[k <= count] + ([] if L.raw.n is None else [sym.zb(mknum(k) <= L.raw.n)]))


# -- lists of abstract fields

def fields_of(L):
    seq = rt.toseq(L.raw.self.fields)
    if seq.concrete() or not hasattr(seq.elem(sym.P().fresh('probe')), 'reader'):
        return None
    return seq


def no_effect(L, k):
    return None if fields_of(L) is None else dict()


loop_contract('struct.FieldListContainer.prepare_class:0')(no_effect)
loop_contract('struct.FieldListContainer.prepare_instance:0')(no_effect)


@loop_contract('struct.FieldListContainer.write_fields:0')
def fields_written(L, k):
    from engine.vsym import joined
    m, stream = L.memo, L.raw.stream
    seq = fields_of(L)
    if seq is None:
        return None
    if 'j' not in m:
        reader = seq.elem(sym.P().fresh('probe')).reader
        m['j'], m['old'] = joined(rt.toseq(reader.values)), stream.content
    return dict(heap=after(stream, m['old'], m['j'], k))


@loop_contract('struct.FieldListContainer.read_fields:0')
def fields_read(L, k):
    """the first k fields were read: from what was peeked, then from the stream under it"""
    from engine.vsym import joined
    m, stream = L.memo, L.raw.stream
    seq = fields_of(L)
    if seq is None:
        return None
    if 'j' not in m:
        reader = seq.elem(sym.P().fresh('probe')).reader
        m['j'], m['r'], m['c'] = joined(rt.toseq(reader.values)), reader, reader.cursor
        m['held'] = sym.to_sbytes(stream.buffer).snapshot() if hasattr(stream, 'buffer') else None
        under = stream.stream if m['held'] is not None else stream
        m['under'], m['pos'] = under, under.pos
    j, r, held = m['j'], m['r'], m['held']
    if not isinstance(m['c'], int) or m['c'] != 0:
        return None
    done = j.ps.at(k)
    heap = [(r, 'cursor', mknum(k))]
    if held is None:
        heap.append((m['under'], 'pos', sym._add(m['pos'], done)))
        return dict(heap=heap, facts=[within(m['under'], m['pos'], j, k)])
    n = held.blen()
    used = sym.zmin(done, n)
    heap += [(stream, 'buffer', sym.SBytes(held.cut(used, n), 'bytes')),
             (m['under'], 'pos', sym._add(m['pos'], sym._sub(done, used)))]
    return dict(heap=heap, facts=[sym.zb(sym._add(m['pos'], sym._sub(done, used)) <= m['under'].content.blen())])


@loop_contract('builtins.sum:MinMax')
def sum_minmax(L, k):
    start, m, n = L.entry.r, L.memo, L.seq.length()
    if 'lo' not in m:
        m['lo'] = rt.prefix_sums(lambda j: num(L.seq.elem(j).min), 0, n)
        m['hi'] = rt.prefix_sums(lambda j: num(L.seq.elem(j).max), 0, n)
    lo = mknum(sym._add(num(start.min), m['lo'].at(k)))
    hi = mknum(sym.zmin(sym._add(num(start.max), m['hi'].at(k)), sys.maxsize))
    return dict(vars={'r': tuple.__new__(type(start), (lo, hi))}, facts=[lo <= hi, lo >= 0])


# -- scattering and gathering

def ends(r):
    return eighths(r.start), eighths(r.stop)


def range_bits(L, seq):
    """prefix sums of the sizes, in bits"""
    m = L.memo
    range_sums(L, seq)
    f = 1 << (3 - m['d'])
    return lambda k: sym.lit(m['ps'].at(k) * f) if not isinstance(m['ps'].at(k), int) else m['ps'].at(k) * f


@loop_contract('buffer.io_buffer.OutputBuffer.set:0')
def scattered(L, k):
    """the first k ranges hold the first pieces of the value; everything else is as before, gaps are zero"""
    import z3
    m, seq, me = L.memo, L.seq, L.raw.self.buffer
    owned = rt.known_disjoint(seq)
    if owned is None or not hasattr(me, 'buffer') or not isinstance(me.start, int) or me.start != 0:
        return None
    if 'old' not in m:
        from engine.vsym import content
        import infi.instruct.buffer.io_buffer as io
        m['old'] = sym.to_sbytes(me.buffer).snapshot()
        m['value'] = content(L.raw.value, io.BitView)
        if m['value'] is None or m['value'][3] and False:
            return None
        nm = sym.P().freshname('end')
        m['end'], m['stop'] = z3.Function(nm, sym.INT, sym.INT), eighths(me.stop)
        m['last'] = z3.Function(nm + '_at', sym.INT, sym.INT)
        sym.P().add(m['end'](z3.IntVal(0)) == m['stop'])
        m['asis'] = me.stop
    sums = range_bits(L, seq)
    old, (size, at, _, _), end = m['old'], m['value'], m['end']
    t = z3.IntVal(k) if isinstance(k, int) else k
    first, length = (isinstance(k, int) and k == 0), m['stop']
    prev = z3.simplify(t - 1)
    if getattr(L, 'k', None) is not None and not isinstance(k, int) and prev.eq(z3.simplify(L.k if sym.isz(L.k) else z3.IntVal(L.k))):
        s = ends(seq.elem(L.k))[1]
        sym.P().add(end(t) == z3.If(s > end(L.k), s, end(L.k)))
        sym.P().add(m['last'](t) == z3.If(s > end(L.k), L.k, m['last'](L.k)))
    w = m['last'](t)
    rt.index_term(w)
    m['ps'].step(k)
    n = length if first else end(t)

    def bit(p):
        o = owned.at(p)
        rt.index_term(k)
        m['ps'].step(o)
        a = ends(seq.elem(o))[0]
        return sym.If(sym.And(0 <= o, o < k), at(sym._add(sums(o), sym._sub(p, a))), sym.And(p < length, old.bit(p)))
    sums(k)
    stop = m['asis'] if first else either(L, me.stop, mknum(n, 3, True))
    facts = [lambda j: sym.Implies(sym.And(j >= 0, j < k), ends(seq.elem(j))[1] <= n), n >= length,
             sym.Or(n == length, sym.And(w >= 0, w < k, ends(seq.elem(w))[1] == n)), sums(k) <= size,
             lambda j: sym.Implies(sym.And(j >= 0, j < k), seq.elem(j).stop is not None)]
    return dict(vars={'value_start': total(L, k)}, heap=[(me, 'stop', stop), (me.buffer, 'data', rt.Window(n, bit))], facts=facts)


@loop_contract('buffer.io_buffer.InputBuffer.get:0')
def gathered(L, k):
    """what the first k ranges contain, in list order"""
    import z3
    from engine.vsym import content
    import infi.instruct.buffer.io_buffer as io
    m, seq, out = L.memo, L.seq, L.raw.result
    if not hasattr(out, 'buffer') or not isinstance(out.start, int) or out.start != 0:
        return None
    if 'in' not in m:
        m['in'] = content(L.raw.self.buffer, io.BitView)
        if m['in'] is None:
            return None
        total = m['in'][0]
        m['from'] = lambda j: sym.zmin(ends(seq.elem(j))[0], total)
        m['sums'] = rt.prefix_sums(lambda j: sym._sub(sym.zmin(ends(seq.elem(j))[1], total), m['from'](j)), 0, seq.length())
        m['fn'] = z3.Function(sym.P().freshname('piece'), sym.INT, sym.INT)
        m['known'] = []
    sums, fn, at = m['sums'], m['fn'], m['in'][1]

    def piece(p):
        """the range the position p of the concatenation comes from"""
        t = z3.IntVal(p) if isinstance(p, int) else p
        o = fn(t)
        if any(t.eq(u) for u in m['known']):
            return o
        m['known'].append(t)
        rt.index_term(o)
        sums.step(o)
        inside = lambda j: sym.And(0 <= j, j < seq.length(), sums.at(j) <= t, t < sums.at(sym._add(j, 1)))
        sym.P().add(sym.zb(sym.Implies(sym.And(0 <= t, t < sums.at(seq.length())), inside(o))))

        def own(j):
            sums.step(j)
            return sym.Implies(inside(j), o == j)
        rt.forall_fact(own)
        return o

    def bit(p):
        o = piece(p)
        return at(sym._add(m['from'](o), sym._sub(p, sums.at(o))))
    sums.step(k)
    rt.index_term(k)
    n = sums.at(k)
    return dict(vars={'result': out}, heap=[(out, 'stop', out.stop if isinstance(k, int) and k == 0 else either(L, out.stop, mknum(n, 3, True))),
                                            (out.buffer, 'data', rt.Window(n, bit))],
                facts=[lambda j: sym.Implies(sym.And(j >= 0, j < k), seq.elem(j).stop is not None)])


@loop_contract('buffer.reference.range.BitSliceRangeReference.evaluate:0')
def bits_sliced(L, k):
    """the first k ranges that are entered are taken up to their ends, and some of the slice is left"""
    m, seq, e = L.memo, rt.toseq(L.raw.range_list), L.entry
    if 'fresh' not in m:
        m['fresh'] = rt.toseq(L.raw.result).length() == 0
    if not m['fresh']:
        return None
    first = num(e.i)
    range_sums(L, seq)
    d = m['d']
    SR = type(e.bit_range)
    sums, x, want = range_bits(L, seq), eighths(e.bit_range.start), eighths(e.bit_range_remaining_len)
    j = sym._add(first, k)
    sums(first)
    m['ps'].step(first)
    m['ps'].step(j)

    entered = eighths(e.skip)

    def part(t):
        r = seq.elem(sym._add(first, t))
        if sym.split(r.start)[2]:
            start = mknum(sym.lit(sym._add(eighths(r.start), sym.If(t == 0, entered, 0))), 3, True)
        else:
            start = r.start + (e.skip if (t == 0 if isinstance(t, int) else sym.P().branch(t == 0)) else 0)
        return new_range(SR, start, r.stop)
    if isinstance(k, int) and k == 0:
        left, skip = e.bit_range_remaining_len, e.skip
    else:
        left = mknum(sym.lit(sym.If(k == 0, want, want - sym._sub(sums(j), x))), 3, True)
        skip = e.skip if sym.P().branch(sym.zb(k == 0)) else 0
    inside = lambda t: sym.Implies(sym.And(t >= 0, t < k), seq.elem(sym._add(first, t)).stop is not None)
    return dict(vars={'bit_range_remaining_len': left, 'skip': skip}, heap=[(L.raw.result, 'data', List.of([Part(k, lambda t: rt.quiet(part, t))]))],
                facts=[inside, sym.Or(k <= 0, sym.zb(left > 0))])


def new_range(cls, start, stop):
    r = object.__new__(cls)
    r.__dict__.update(start=start, stop=stop)
    return r


@loop_contract('engine.pyreduce.reduce:0')
def folded(L, k):
    """a fold of lists, each with the same known number of elements: all of them, one list after the other"""
    e = L.entry
    n = len(e.acc)          # of the first, and so of each (a list of another length fails the step)
    seq = rt.Seq(list(L.raw.seq._parts))
    parts = [Part(n * (k + 1), lambda j: seq.elem(sym.zdiv(j, n)).seq.elem(sym.zmod(j, n)) if n > 1
                  else seq.elem(j).seq.elem(0))]
    acc = L.raw.kind()
    acc._parts = parts
    return dict(vars={'acc': acc, 'same': True})


@loop_contract('buffer.buffer.Buffer.pack:0')
def fields_packed(L, k):
    """the first k fields' values are at their places, and there is nothing else. The unit gives the places of the
    fields (one range each, none for a field that is switched off)"""
    import z3
    m, seq = L.memo, L.seq
    me = L.raw.ctx.output_buffer.buffer
    known = rt.S.ghost.get('disjoint', [])
    if len(known) != 1 or not isinstance(me.start, int) or me.start != 0 or len(seq.parts) != 1:
        return None
    places, owned = known[0]
    if 'end' not in m:
        m['old'], m['stop'] = sym.to_sbytes(me.buffer).snapshot(), eighths(me.stop)
        nm = sym.P().freshname('end')
        m['end'], m['last'] = z3.Function(nm, sym.INT, sym.INT), z3.Function(nm + '_at', sym.INT, sym.INT)
        sym.P().add(m['end'](z3.IntVal(0)) == m['stop'])
        m['asis'] = me.stop
    old, end, length = m['old'], m['end'], m['stop']
    on = lambda j: bool(seq.elem(j).pack_if.deref(None))
    t = z3.IntVal(k) if isinstance(k, int) else k
    first = isinstance(k, int) and k == 0
    prev = z3.simplify(t - 1)
    if getattr(L, 'k', None) is not None and not isinstance(k, int) and prev.eq(z3.simplify(L.k if sym.isz(L.k) else z3.IntVal(L.k))):
        if on(L.k):
            s = ends(places.elem(L.k))[1]
            sym.P().add(end(t) == z3.If(s > end(L.k), s, end(L.k)))
            sym.P().add(m['last'](t) == z3.If(s > end(L.k), L.k, m['last'](L.k)))
        else:
            sym.P().add(z3.And(end(t) == end(L.k), m['last'](t) == m['last'](L.k)))
    w = m['last'](t)
    rt.index_term(w)
    n = length if first else end(t)

    def bit(p):
        o = owned.at(p)
        rt.index_term(k)
        a = ends(places.elem(o))[0]
        data = sym.to_sbytes(rt.quiet(seq.elem, o).pack_ref.deref(None))
        return sym.If(sym.And(0 <= o, o < k), data.bit(sym._sub(p, a)), sym.And(p < length, old.bit(p)))
    stop = m['asis'] if first else either(L, me.stop, mknum(n, 3, True))
    facts = [lambda j: sym.Implies(sym.And(j >= 0, j < k, on(j)), ends(places.elem(j))[1] <= n), n >= length,
             sym.Or(n == length, sym.And(w >= 0, w < k, on(w), ends(places.elem(w))[1] == n))]
    return dict(vars={}, heap=[(me, 'stop', stop), (me.buffer, 'data', rt.Window(n, bit))], facts=facts)


@loop_contract('buffer.buffer.BufferType.calc_byte_size:0')
def positions(L, k):
    """the places of the first k fields (one range each)"""
    seq = L.seq
    if 'begun' not in L.memo and len(L.raw.positions) != 0:
        return None
    L.memo['begun'] = True
    at = lambda j: rt.quiet(seq.elem, j).pack_absolute_position_ref.deref(None)
    if len(at(sym.P().fresh('probe'))) != 1:
        return None

    def static(j):
        f = rt.quiet(seq.elem, j)
        return sym.And(sym.zb(f.pack_absolute_position_ref.is_static()), sym.zb(f.unpack_absolute_position_ref.is_static()))
    return dict(vars={}, heap=[(L.raw.positions, 'data', List.of([Part(k, lambda j: at(j)[0])]))],
                facts=[lambda j: sym.Implies(sym.And(j >= 0, j < k), static(j))])
