"""The harness interface on concrete values: replaying counter-models and searching for failing inputs.

Runs under the repository's own interpreter (PyPy); imports nothing but the standard library and the repository."""
import importlib
import io
import json
import math
import random
import struct
import sys
import traceback

from .specapi import Outcome


class Reject(BaseException):
    pass


class Failed(BaseException):
    def __init__(self, name, detail):
        BaseException.__init__(self, name, detail)
        self.name, self.detail = name, detail


class Draws(object):
    def __init__(self, src, prefix='', suffix=''):
        self.src, self.prefix, self.suffix = src, prefix, suffix

    def _nm(self, name):
        return self.prefix + name + self.suffix

    def int(self, name, lo=None, hi=None, soft=None):
        """soft: values generated at random stay below it"""
        return self.src.get(self._nm(name), lambda r: r.integer(lo, hi if soft is None else soft if hi is None else min(soft, hi)), lambda v: in_range(v, lo, hi))

    def eighth(self, name, lo=None, hi=None):
        l8 = None if lo is None else int(math.ceil(lo * 8))
        h8 = None if hi is None else int(math.floor(hi * 8))
        return self.src.get(self._nm(name), lambda r: r.integer(l8, h8), lambda v: in_range(v, l8, h8)) / 8.0

    def bool(self, name):
        return self.src.get(self._nm(name), lambda r: r.rng.random() < 0.5)

    def _bytes(self, name, lo, hi, n):
        return bytes.fromhex(self.src.get(self._nm(name), lambda r: r.data(lo, hi, n).hex(),
                                          lambda v: in_range(len(v) // 2, n if n is not None else lo, n if n is not None else hi)))

    def bytes(self, name, lo=0, hi=None, n=None):
        return self._bytes(name, lo, hi, n)

    def bytearray(self, name, lo=0, hi=None, n=None):
        return bytearray(self._bytes(name, lo, hi, n))

    def bigint(self, name, maxbits=None):
        return self.src.get(self._nm(name), lambda r: r.big(maxbits),
                            lambda v: v >= 0 and (maxbits is None or v.bit_length() <= maxbits))

    def float(self, name, size):
        b = bytes.fromhex(self.src.get(self._nm(name), lambda r: r.floatbytes(size).hex()))
        v = struct.unpack('<f' if size == 4 else '<d', b)[0]
        if v != v:
            raise Reject()
        return v

    def text(self, name, lo=0, hi=None, encoding='ascii'):
        h = self.src.get(self._nm(name), lambda r: r.text(lo, hi, encoding).encode(encoding).hex())
        try:
            t = bytes.fromhex(h).decode(encoding)
        except UnicodeError:
            raise Reject()
        if hi is not None and len(bytes.fromhex(h)) > hi or len(bytes.fromhex(h)) < lo:
            raise Reject()
        return t

    def json(self, name):
        return self.src.get(self._nm(name), lambda r: r.json(3))

    def encode_json(self, v):
        return json.dumps(v).encode('ascii')

    def choice(self, name, options):
        options = list(options)
        i = self.src.get(self._nm(name), lambda r: r.rng.randrange(len(options)))
        return options[i % len(options)]

    def pos(self, name, lo=None, hi=None):
        if self.choice(name + '.isfloat', [False, True]):
            return self.eighth(name, lo, hi)
        return self.int(name, None if lo is None else int(math.ceil(lo)), None if hi is None else int(math.floor(hi)))


def in_range(v, lo, hi):
    return (lo is None or v >= lo) and (hi is None or v <= hi)


class Source(object):
    """values by name, the missing ones random"""

    def __init__(self, rng, given=None):
        self.rng = rng
        self.given = given or {}
        self.used = {}
        self.size = rng.choice([1, 2, 3, 4, 6, 10, 20])

    def get(self, name, make, ok=None):
        if name in self.used:
            return self.used[name]
        if name in self.given:
            v = self.given[name]
            if ok is not None and not ok(v):
                raise Reject()
        else:
            v = make(self)
        self.used[name] = v
        return v

    def integer(self, lo, hi):
        r = self.rng
        if lo is not None and hi is not None:
            if hi < lo:
                raise Reject()
            lo, hi = int(lo), int(hi)
            k = r.random()
            if k < 0.15:
                return lo
            if k < 0.3:
                return hi
            if k < 0.4 and hi - lo > 4:
                return r.choice([lo + 1, hi - 1])
            if k < 0.75 and hi - lo > 64:
                # small magnitudes and powers of two
                c = r.choice([0, 1, -1, 2]) + r.choice([1, -1]) * r.choice([0, 1 << r.randrange(0, max(1, (hi - lo).bit_length()))])
                if lo <= c <= hi:
                    return c
            return r.randint(lo, hi)
        if lo is not None:
            return int(lo) + r.choice([0, 0, 1, r.randint(0, self.size), r.randint(0, 4 * self.size), r.randint(0, 100)])
        if hi is not None:
            return int(hi) - r.choice([0, 1, r.randint(0, self.size), r.randint(0, 100)])
        return r.choice([0, 1, -1, r.randint(-self.size, self.size), r.randint(-4 * self.size, 4 * self.size),
                         r.randint(-100, 100), r.choice([1, -1]) << r.randrange(0, 70)])

    def data(self, lo, hi, n):
        r = self.rng
        if n is None:
            cap = lo + self.size if hi is None else hi
            if cap < lo:
                raise Reject()
            n = r.randint(int(lo), int(min(cap, lo + self.size)))
        k = r.random()
        if k < 0.08:
            return bytes(int(n))
        if k < 0.16:
            return b'\xff' * int(n)
        return bytes(bytearray(r.choice((0, 1, 32, 65, 127, 128, 255)) if r.random() < .2 else r.randrange(256) for _ in range(int(n))))

    def big(self, maxbits):
        r = self.rng
        m = maxbits if maxbits is not None else 8 * self.size
        m = int(m)
        k = r.random()
        if m <= 0:
            return 0
        if k < 0.1:
            return (1 << m) - 1
        if k < 0.2:
            return 1 << (m - 1)
        if k < 0.25:
            return 0
        return r.getrandbits(r.randint(1, m))

    def floatbytes(self, size):
        r = self.rng
        k = r.random()
        v = None
        if k < 0.4:
            v = float(r.randint(-1000, 1000)) / r.choice([1, 2, 4, 8])
        elif k < 0.45:
            v = r.choice([0.0, -0.0, float('inf'), float('-inf'), 1.0])
        if v is not None:
            return struct.pack('<f' if size == 4 else '<d', v)
        return bytes(bytearray(r.randrange(256) for _ in range(size)))

    def json(self, depth):
        r = self.rng
        k = r.randrange(10 if depth else 6)
        if k < 6:
            return [None, True, False, r.randint(-1000, 1 << r.randrange(70)), r.randint(-99, 99) / 8.0, self.text(0, None, 'utf-8')][k]
        if k < 8:
            return [self.json(depth - 1) for _ in range(r.randrange(4))]
        return dict((self.text(0, None, 'utf-8'), self.json(depth - 1)) for _ in range(r.randrange(4)))

    def text(self, lo, hi, encoding):
        r = self.rng
        n = r.randint(lo, lo + self.size if hi is None else max(lo, min(hi, lo + self.size)))
        alpha = 'abcXYZ019 \x00\t_-~'
        if not encoding.startswith('asc'):
            alpha += '\xe9\xff\xa0'
        if encoding.startswith('ut'):
            alpha += '\u05d0\u20ac'
        return ''.join(r.choice(alpha) if r.random() < .7 else chr(r.randrange(0, 128)) for _ in range(n))


class Value(object):
    """an opaque value with its encoding"""

    def __init__(self, data, idx):
        self.data, self.idx = data, idx

    def __deepcopy__(self, memo):
        return self             # what it is cannot be changed


class V(Draws):
    symbolic = False

    def __init__(self, src):
        Draws.__init__(self, src)
        self.checks = 0
        self.listed, self.found = (), None

    def finding(self, fid, cond):
        """the inputs of a recorded defect; anything failing on other inputs is still reported"""
        if fid in self.listed and cond:
            self.found = fid

    def cap(self, x, limit):
        """keeps concrete runs small"""
        if abs(x) > limit:
            raise Reject()

    def modular(self):
        pass

    def modular_refs(self):
        pass

    def reject(self):
        raise Reject()

    def list(self, name, gen, lo=0, hi=None, n=None):
        if n is None:
            n = self.src.get(name + '.len', lambda r: r.rng.randint(lo, (lo + r.rng.choice([0, 1, 2, 3, 5])) if hi is None else min(hi, lo + 5)),
                             lambda v: in_range(v, lo, hi))
        return [gen(Draws(self.src, name + '.', '[%d]' % j)) for j in range(n)]

    def values(self, name, lo=0, hi=None, n=None, minimum=0, maximum=None, bounded=False):
        def value(E):
            v = Value(E.bytes('data', minimum, maximum), 0)
            if bounded:
                v.lo = max(0, len(v.data) - E.int('below', 0, 1 << 40))
                v.hi = len(v.data) + E.int('above', 0, 1 << 40)
            return v
        l = self.list(name, value, lo, hi, n)
        for j, v in enumerate(l):
            v.idx = j
        return l

    def lemma(self, name, c):
        pass

    def induction(self, name, n, fn, every=False):
        if not fn(n):
            self.check(name, False)

    def value(self, name, minimum=0, n=None):
        return Value(self.bytes(name + '.data', minimum, n=n), 0)

    def iterated(self, b):
        return (x for x in b)

    def mapped(self, values, fn):
        return [fn(v) for v in values]

    def number_of(self, v):
        return v.idx

    def joined(self, values):
        return b''.join(v.data for v in values)

    def span(self, values, k):
        pass

    def put(self, obj, attr, v):
        setattr(obj, attr, v)

    def plist(self, l):
        return list(l)

    def mod(self, name):
        return importlib.import_module('infi.instruct.' + name if name else 'infi.instruct')

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except MemoryError:
            raise
        except Exception as e:
            return Outcome(exc=e)

    def new(self, fn, *a, **k):
        return fn(*a, **k)

    def do(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except MemoryError:
            raise
        except Exception as e:
            self.checks += 1
            raise Failed('no-exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))

    def assume(self, c):
        if not c:
            raise Reject()

    def check(self, name, c):
        self.checks += 1
        if not c:
            raise Failed(name, 'the condition is false')

    def check_eq(self, name, a, b):
        self.checks += 1
        if not equal(a, b):
            raise Failed(name, '%s != %s' % (show(a), show(b)))

    def all_bits(self, name, v, w, fn):
        self.check(name + ':int', isinstance(v, int))
        self.check(name, v == sum(1 << p for p in range(int(w)) if fn(p)))

    def all(self, name, n, fn, lo=0):
        for p in range(int(lo), int(n)):
            self.checks += 1
            if not fn(p):
                raise Failed(name, 'at index %d' % p)

    def cases(self, name, n, fn):
        for p in range(int(n)):
            fn(p)

    def exists(self, name, n, fn):
        return any(fn(j) for j in range(int(n)))

    def exists2(self, name, n, fn):
        return any(fn(i, j) for i in range(int(n)) for j in range(int(n)))

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return equal(a, b)

    def same_num(self, a, b):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b

    def min_(self, a, b):
        return min(a, b)

    def max_(self, a, b):
        return max(a, b)

    def truth(self, c):
        return bool(c)

    def bits_of(self, x):
        r = x * 8
        if r != int(r):
            raise Failed('eighths', '%r is not a multiple of an eighth' % (x,))
        return int(r)

    def bits_needed(self, v):
        return max(0, v.bit_length())

    def ceil_bytes(self, nbits):
        return (nbits + 7) // 8

    def div(self, a, k):
        return a // k

    def modulo(self, a, k):
        return a % k

    def is_int(self, x):
        return isinstance(x, int)

    def is_bytes(self, x):
        return isinstance(x, (bytes, bytearray))

    def type(self, x):
        return type(x)

    def concrete(self, x):
        return x

    def len(self, x):
        return len(x)

    def bit(self, x, p):
        if isinstance(x, (bytes, bytearray)):
            if not 0 <= p < 8 * len(x):
                return False
            return bool((x[p // 8] >> (p % 8)) & 1)
        if p < 0:
            return False
        return bool((x >> p) & 1)

    def byte(self, x, j):
        return x[j]

    def trace(self, j):
        pass

    def elem(self, l, j):
        return l[j]

    def snapshot(self, x):
        return type(x)(x) if isinstance(x, (bytearray, list)) else x

    def array(self, x):
        return bytearray(x)

    def cat(self, *a):
        return b''.join(bytes(x) for x in a)

    def sub(self, x, a, b):
        return bytes(x)[a:b]

    def cleared(self, x, lo, hi):
        b = bytearray(x)
        for p in range(lo, min(hi, 8 * len(b))):
            b[p // 8] &= ~(1 << (p % 8)) & 255
        return type(x)(b)

    def stripped(self, b, chars, left, right):
        i, j = 0, len(b)
        while left and i < j and b[i] in chars:
            i += 1
        while right and j > i and b[j - 1] in chars:
            j -= 1
        return b[i:j]

    def zeros(self, n):
        return bytes(n)

    def fill(self, n, byte):
        return bytes(bytearray([byte])) * n

    def encode_int(self, v, size, order='little'):
        return (v % (1 << (8 * size))).to_bytes(size, order)

    def encode_text(self, t, encoding='ascii'):
        return t.encode(encoding)

    def encode_float(self, f, size, order='little'):
        return struct.pack(('<' if order == 'little' else '>') + ('f' if size == 4 else 'd'), f)

    def stream(self, data):
        return io.BytesIO(bytes(data))

    def written(self, stream):
        return stream.getvalue()

    def disjoint(self, ranges):
        def owners(p):
            return [j for j, r in enumerate(ranges) if r.start * 8 <= p < r.stop * 8]
        l = sorted((r.start, r.stop) for r in ranges if r.stop > r.start)
        self.assume(all(l[i][1] <= l[i + 1][0] for i in range(len(l) - 1)))
        return lambda p: (owners(p) + [-1])[0]

    def walk(self, ranges):
        sums, where = [0], []
        for j, r in enumerate(ranges):
            n = 0 if r.stop is None else self.bits_of(r.stop) - self.bits_of(r.start)
            where += [(self.bits_of(r.start) + i, j) for i in range(n)]
            sums.append(len(where))
        return len(where), lambda q: where[q][0], lambda q: where[q][1], lambda k: sums[k]

    def psum(self, n, fn, d=0):
        sums = [0]
        for j in range(int(n)):
            sums.append(sums[-1] + fn(j))
        return lambda k: sums[k]

    def index(self, t):
        pass

    def fact_forall(self, fn):
        pass


def equal(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) != isinstance(b, float):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and isinstance(a, list) == isinstance(b, list) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if type(a) is type(b) and hasattr(a, '__dict__') and type(a).__module__.startswith('infi.'):
        return equal(dict(a.__dict__), dict(b.__dict__))
    return a == b


def show(x):
    try:
        return repr(x)[:300]
    except Exception:
        return '<%s>' % type(x).__name__


def run_case(unit, seed, given=None, findings=()):
    """-> ('ok', checks, values) | ('reject',) | ('fail', name, detail, values) | ('known', finding, name, detail,
    values) | ('error', type, traceback, values, raised inside the repository)"""
    src = Source(random.Random(seed), given)
    v = V(src)
    v.listed = findings
    try:
        unit.fn(v)
    except Reject:
        return ('reject',)
    except Failed as e:
        if v.found:
            return ('known', v.found, e.name, e.detail, src.used)
        return ('fail', e.name, e.detail, src.used)
    except MemoryError:
        raise
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        inside = '/infi/instruct/' in tb.tb_frame.f_code.co_filename
        if inside and v.found:
            return ('known', v.found, 'no-exception', repr(e), src.used)
        return ('error', type(e).__name__, traceback.format_exc()[-3000:], src.used, inside)
    return ('ok', v.checks, src.used)
