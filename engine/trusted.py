"""Assumed contracts of the interpreter and standard library: text codecs, json, struct, int.from_bytes, join.

Text is represented by its encoded bytes (a codec is assumed injective, decode the inverse of encode); a float by the
bytes of its IEEE encoding.
"""
import codecs
import json
import struct
import sys
import z3

from . import sym, rt
from .sym import (SNum, SBig, SBool, SBytes, Seg, Unsupported, P, mknum, mkbool, lit, isz, zb, And, Or, Not, If, Iff,
                  Implies, zdiv, zmod, _add, _sub)


def norm(enc):
    return codecs.lookup(enc).name


class SText(object):
    """str whose encoding under `enc` is `data` (SBytes)."""

    def __init__(self, data, enc, tag=None):
        self.data, self.enc, self.tag = data, norm(enc), tag

    def __repr__(self):
        return '<symtext>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise Unsupported('hash of symbolic text')

    def length(self):
        if self.enc not in ('ascii', 'iso8859-1'):
            raise Unsupported('length of symbolic text in a variable-width encoding')
        return mknum(self.data.blen())

    def __len__(self):
        return self.data.__len__()

    def __bool__(self):
        return bool(self.data)

    def encode(self, encoding='utf-8', errors='strict'):
        e = norm(encoding)
        if e == self.enc or (self.enc == 'ascii' and e in ('utf-8', 'iso8859-1')):
            return self.data.snapshot('bytes')
        raise Unsupported('encoding symbolic text another way')

    def strip(self, chars=None):
        if self.enc != 'ascii':
            raise Unsupported('strip of non-ascii symbolic text')
        if chars is None:
            chars = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f'
        return SText(self.data.strip(chars.encode('ascii')), 'ascii', None)

    def __eq__(self, o):
        if isinstance(o, SText) and o.enc == self.enc:
            return self.data == o.data
        if isinstance(o, str):
            try:
                return self.data == o.encode(self.enc)
            except UnicodeError:
                return False
        return False

    def same(self, o):
        if isinstance(o, str):
            o = SText(sym.to_sbytes(o.encode(self.enc)), self.enc)
        if not isinstance(o, SText):
            return False
        if o.enc != self.enc and 'ascii' not in (o.enc, self.enc):
            raise Unsupported('comparison of texts in two encodings')
        return rt.equal(self.data, o.data)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(Not(r))


def known_text(b, enc):
    for t in rt.S.ghost.get('texts', []):
        if t.enc == enc or (t.enc == 'ascii' and enc in ('utf-8', 'iso8859-1')):
            if t.data.segs == b.segs:
                return t
    for t in rt.S.ghost.get('texts', []):
        if t.enc == enc or (t.enc == 'ascii' and enc in ('utf-8', 'iso8859-1')):
            if P().prove(rt.equal(t.data, b)):
                return t
    return None


def decode(b, encoding):
    enc = norm(encoding)
    c = b.concrete()
    if c is not None:
        return c.decode(encoding)
    b = b.snapshot('bytes')
    t = known_text(b, enc)
    if t is not None:
        return SText(b, t.enc, t.tag)
    if enc == 'iso8859-1':
        return SText(b, enc)
    if enc == 'ascii':
        n = b.blen()
        p = P()
        if p.flip('decode') == 1:
            j = p.fresh('badbyte')
            p.assume(z3.And(j >= 0, zb(j < n)))
            rt.index_term(j)
            p.assume(zb(b.bit(_add(sym._mul8(j), 7))))
            raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
        rt.forall_fact(lambda j: Implies(And(j >= 0, j < n), Not(b.bit(_add(sym._mul8(j), 7)))))
        return SText(b, enc)
    if enc == 'utf-8':
        # ascii text known under ascii was handled above; otherwise validity is not modelled
        raise Unsupported('decoding unknown bytes as utf-8')
    raise Unsupported('decoding with %s' % enc)


def digit(x):
    """str() of an integer known to be 0..9 (the only ones needed)"""
    from .sym import as_big
    b = as_big(x)
    w = lit(b.w)
    if not isinstance(w, int):
        raise Unsupported('str() of an integer of unknown width')
    for i in range(1, w):
        if not P().prove(Not(b.f(i))):
            raise Unsupported('str() of a symbolic integer')
    bit = b.f(0)
    return SText(SBytes([Seg(1, lambda p: If(Or(p == 4, p == 5), True, And(p == 0, bit)) if not isinstance(p, int)
                             else (True if p in (4, 5) else bit if p == 0 else False))], 'bytes'), 'ascii')


def join(sep, it):
    seq = rt.toseq(it)
    if not seq.concrete() and isinstance(sep, str) and sep == '':
        segs = []
        for q in seq.parts:
            if q.conc is not None:
                for x in q.conc:
                    segs.extend(x.data.segs if isinstance(x, SText) else sym.to_sbytes(x.encode('ascii')).segs)
                continue

            def one(j, q=q):
                x = q.elem(j)
                if not isinstance(x, SText) or x.data.blen() != 1:
                    raise Unsupported('join of symbolic texts')
                return x
            rt.probe(q.n, one)
            segs.append(Seg(q.n, lambda p, one=one: rt.quiet(one, zdiv(p, 8)).data.bit(zmod(p, 8))))
        return SText(SBytes(segs, 'bytes'), 'ascii')
    if not seq.concrete() and isinstance(sep, str):
        # any number of texts: some text, nothing else is known of it
        for q in seq.parts:
            def text(j, q=q):
                if not isinstance(q.elem(j), (str, SText)):
                    raise Unsupported('join of symbolic values')
            if q.conc is None:
                rt.probe(q.n, text)
        n = P().fresh('text')
        P().add(n >= 0)
        B = z3.Function(P().freshname('text'), sym.INT, z3.BoolSort())
        return SText(SBytes([Seg(n, lambda p: And(Not(zmod(p, 8) == 7), B(p if isz(p) else z3.IntVal(p))))], 'bytes'), 'ascii')
    items = list(iter(rt.toseq(it)))
    if any(isinstance(x, SText) for x in items):
        raise Unsupported('join of symbolic text')
    if any(isinstance(x, (SBytes,)) for x in items) and isinstance(sep, (bytes, bytearray)):
        if len(sep):
            raise Unsupported('join with a separator')
        segs = []
        for x in items:
            segs.extend(sym.to_sbytes(x).segs)
        return SBytes(segs, 'bytes')
    if any(not isinstance(x, (str, bytes)) for x in items):
        return sep.join([x if isinstance(x, str) else str(x) for x in items])
    return sep.join(items)


# -- integers from bytes

def int_of_bytes(b, n, byteorder, signed):
    if not isinstance(n, int):
        raise Unsupported('signed integer of unknown width')
    if n == 0:
        return 0
    mod = 1 << (8 * n)
    tag = b.segs[0].tag if len(b.segs) == 1 else None
    if tag is not None and tag[0] == ('intle' if byteorder == 'little' else 'intbe') and tag[2] == n:
        v = tag[1]
        p = P()
        if signed:
            if p.prove(zb(And(v >= -(mod >> 1), v < (mod >> 1)))):
                return mknum(v)
            return mknum(zmod(v + (mod >> 1), mod) - (mod >> 1))
        if p.prove(zb(And(v >= 0, v < mod))):
            return mknum(v)
        return mknum(zmod(v, mod))

    def f(i):
        j, r = divmod(i, 8)
        if byteorder == 'big':
            j = n - 1 - j
        return b.bit(8 * j + r)
    big = SBig(lambda i: f(i) if isinstance(i, int) and i < 8 * n else
               (False if isinstance(i, int) else And(i < 8 * n, b.bit(i if byteorder == 'little' else
                                                                      _add(8 * (n - 1 - zdiv(i, 8)), zmod(i, 8))))), 8 * n)
    if not signed:
        return big
    bits = [zb(f(i)) for i in range(8 * n)]
    v = P().fresh('decoded')
    P().add(v == z3.Sum(*[z3.If(b, z3.IntVal((1 << i) if i < 8 * n - 1 else -(1 << i)), z3.IntVal(0))
                          for i, b in enumerate(bits)]))
    sym.remember_bits(v, lambda i: bits[i], 8 * n)
    return mknum(v)


# -- floats

class SFloat(object):
    """a float, as the bytes of its IEEE double (8) or exactly-representable single (4) encoding, little-endian"""

    def __init__(self, data, size):
        self.data, self.size = data, size

    def __repr__(self):
        return '<symfloat>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def _no(self, *a):
        raise Unsupported('arithmetic on a symbolic float')
    __add__ = __radd__ = __sub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = _no

    def same(self, o):
        return isinstance(o, SFloat) and o.size == self.size and rt.equal(self.data, o.data)

    def __eq__(self, o):
        if isinstance(o, SFloat) and o.size == self.size:
            return self.data == o.data
        raise Unsupported('comparison of symbolic floats')


def rev_bytes(b):
    """bytes of literal length, reversed"""
    n = b.blen()
    return SBytes(sum([b.cut(j, j + 1) for j in range(n - 1, -1, -1)], []), 'bytes')


# -- struct

INT_CODES = 'bBhHiIlLqQ'


def parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = fmt[0] if fmt[:1] in '@=<>!' and fmt else '@'
    code = fmt[1:] if fmt[:1] in ('@', '=', '<', '>', '!') else fmt
    if len(code) != 1:
        raise Unsupported('struct format %r' % fmt)
    little = order == '<' or (order in '@=' and sys.byteorder == 'little')
    return code, little, struct.calcsize(fmt)


def s_pack(fmt, *vals):
    if not any(rt.has_sym(v) or isinstance(v, SFloat) for v in vals):
        return struct.pack(fmt, *vals)
    code, little, size = parse(fmt)
    if len(vals) != 1:
        raise Unsupported('struct.pack of several values')
    v = vals[0]
    if code in INT_CODES:
        if isinstance(v, SBool):
            v = mknum(v.num())
        if isinstance(v, (SNum, SBig)) and not (isinstance(v, SNum) and (v.fl or v.d)):
            signed = code.islower()
            try:
                return sym.int_to_bytes(v if isinstance(v, SNum) or not signed else v.num(), size,
                                        'little' if little else 'big', signed)
            except OverflowError:
                # PyPy: a negative value for an unsigned 8-byte format is a ValueError
                if not signed and size == 8 and P().flip('pypy') == 1:
                    raise ValueError('cannot convert negative integer to unsigned')
                raise struct.error('argument out of range')
        raise struct.error('required argument is not an integer')
    if code in 'fd':
        if isinstance(v, SFloat) and v.size == size:
            return v.data.snapshot('bytes') if little else rev_bytes(v.data)
        raise Unsupported('packing this number as a float')
    raise Unsupported('struct code %r' % code)


def s_unpack(fmt, data):
    if not isinstance(data, SBytes):
        if rt.has_sym(data):
            raise TypeError("a bytes-like object is required")
        return struct.unpack(fmt, data)
    c = data.concrete()
    if c is not None:
        return struct.unpack(fmt, c)
    code, little, size = parse(fmt)
    n = data.blen()
    if not (n == size if isinstance(n, int) else P().branch(n == size)):
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    if not isinstance(n, int):
        data = SBytes([sym.subseg(s, 0, size) for s in data.segs] if len(data.segs) == 1 else data.cut(0, size), 'bytes')
        if data.blen() != size:
            snap = data
            data = SBytes([Seg(size, snap.bit)], 'bytes')
    if code in INT_CODES:
        return (int_of_bytes(data, size, 'little' if little else 'big', code.islower()),)
    if code in 'fd':
        return (SFloat(data.snapshot('bytes') if little else rev_bytes(data), size),)
    raise Unsupported('struct code %r' % code)


class SStructObj(object):
    pass


def s_calcsize(fmt):
    return struct.calcsize(fmt)


# -- json

class SJson(object):
    """an arbitrary JSON value; its text is ascii, starts and ends with a visible character"""

    def __init__(self, text):
        self.text = text


def s_dumps(v, *a, **k):
    if isinstance(v, SJson):
        return v.text
    if rt.has_sym(v):
        raise Unsupported('json of a symbolic value')
    return json.dumps(v, *a, **k)


def s_loads(t, *a, **k):
    if isinstance(t, SText):
        for v in rt.S.ghost.get('jsons', []):
            if t.data.segs == v.text.data.segs or P().prove(rt.equal(t.data, v.text.data)):
                return v
        raise Unsupported('json.loads of unknown text')
    return json.loads(t, *a, **k)


for _f, _g in [(struct.pack, s_pack), (struct.unpack, s_unpack), (struct.calcsize, s_calcsize),
               (json.dumps, s_dumps), (json.loads, s_loads)]:
    rt._reg(_f, _g)
