"""behaviour-preserving edits: every check has to stay quiet on them.   python3 tools/refactors.py [NAME...]

Each is applied to a scratch copy of /repo; the stable tests must pass and the checks of its properties exit 0."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/infi/instruct/'
R = {}


def refactor(name, props, *edits):
    R[name] = (props.split(), edits)


refactor('copy-enumerate', 'C01 C02 C05 C06 C07', ('buffer/io_buffer.py', '''        remaining_bit_len = int(iterable_len * 8)
        for byte in iterable:
            self._set_byte_bits(offset, min(remaining_bit_len, 8), byte)
            offset += 1
            remaining_bit_len -= 8
''', '''        total_bits = int(iterable_len * 8)
        for i, byte in enumerate(iterable):
            self._set_byte_bits(offset + i, min(total_bits - 8 * i, 8), byte)
'''))
refactor('view-helpers', 'C01 C02 C05 C09', ('buffer/io_buffer.py', '''    def _key_to_range(self, key):
        if isinstance(key, slice):
            if key.step not in (None, 1):
                raise NotImplementedError("step must be 1 or None")
            start = self._translate_offset(key.start if key.start is not None else 0)
            stop = self._translate_offset(key.stop if key.stop is not None else self.length())
            assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
        elif''', '''    def _slice_to_range(self, key):
        if key.step not in (None, 1):
            raise NotImplementedError("step must be 1 or None")
        start, stop = key.start, key.stop
        if start is None:
            start = 0
        if stop is None:
            stop = self.length()
        start, stop = self._translate_offset(start), self._translate_offset(stop)
        assert 0 <= start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
        return start, stop

    def _key_to_range(self, key):
        if isinstance(key, slice):
            start, stop = self._slice_to_range(key)
        elif'''), ('buffer/io_buffer.py', '''        length = self.length()
        ofs = max(ofs + length, 0) if ofs < 0 else min(ofs, length)
        return ofs + self.start
''', '''        length = self.length()
        if ofs < 0:
            ofs = max(ofs + length, 0)
        elif ofs > length:
            ofs = length
        return self.start + ofs
'''))
refactor('bitstr-comprehension', 'C01', ('buffer/io_buffer.py', '''        result = []
        for i in range(int(self.start * 8), int(self.stop * 8)):
            byte_i, bit_i = float_to_byte_bit_pair(float(i) / 8)
            result.append((self.buffer[byte_i] >> bit_i) & 1)
        return "".join(str(n) for n in reversed(result))
''', '''        positions = range(int(self.start * 8), int(self.stop * 8))
        bits = [(self.buffer[p // 8] >> (p % 8)) & 1 for p in reversed(positions)]
        return "".join("1" if bit else "0" for bit in bits)
'''))
refactor('set-range', 'C02 C05 C06', ('buffer/io_buffer.py', '''        range_len = stop - start
        if range_len < value_len:
            self._insert_zeros(stop, stop + value_len - range_len)
            self._copy_to_range(start, value, value_len)
        elif range_len > value_len:
            self._del_range(stop - (range_len - value_len), stop)
            self._copy_to_range(start, value, value_len)
        else:
            self._copy_to_range(start, value, value_len)
''', '''        missing = value_len - (stop - start)
        if missing > 0:
            self._insert_zeros(stop, stop + missing)
        elif missing < 0:
            self._del_range(stop + missing, stop)
        self._copy_to_range(start, value, value_len)
'''))
refactor('del-while', 'C02', ('buffer/io_buffer.py', '''            ofs = start
            bit_len_frac = stop - start
            while (ofs + bit_len_frac) < self.stop:
                bit_len = min(8, int((self.stop - ofs - bit_len_frac) * 8))
                self._set_byte_bits(ofs, bit_len, self._get_byte_bits(ofs + bit_len_frac, bit_len))
                ofs += 1
            self.stop -= bit_len_frac
''', '''            gap = stop - start
            source, target = stop, start
            while source < self.stop:
                count = min(8, int((self.stop - source) * 8))
                self._set_byte_bits(target, count, self._get_byte_bits(source, count))
                source += 1
                target += 1
            self.stop -= gap
'''))
refactor('value-bytes', 'C02 C06', ('buffer/io_buffer.py', '''            l = []
            for n in range(0, int(value_len * 8), 8):
                l.append(value % 256)
                value //= 256
            value = l
''', '''            value = bytearray((value >> n) & 0xFF for n in range(0, int(value_len * 8), 8))
'''))
refactor('output-set', 'C05 C09', ('buffer/io_buffer.py', '''        value = value if isinstance(value, BitView) else BitView(value)
        value_start = 0

        for range in range_list:
            assert not range.is_open()
            assert range.start >= 0 and range.start <= range.stop
            if range.byte_length() > value.length() - value_start:
                raise ValueError("trying to assign a value with smaller length than the range it's given")
            self.buffer.zfill(range.start)
            self.buffer[range.start:range.stop] = value[value_start:value_start + range.byte_length()]
            value_start += range.byte_length()
''', '''        if not isinstance(value, BitView):
            value = BitView(value)
        position = 0
        for r in range_list:
            assert not r.is_open()
            assert 0 <= r.start <= r.stop
            size = r.byte_length()
            if position + size > value.length():
                raise ValueError("trying to assign a value with smaller length than the range it's given")
            self._write(r, value[position:position + size])
            position += size

    def _write(self, r, piece):
        self.buffer.zfill(r.start)
        self.buffer[r.start:r.stop] = piece
'''))
refactor('input-get', 'C05 C09', ('buffer/io_buffer.py', '''        if len(range_list) == 1:
            # Shortcut: if it's a simple range we can just return a subset of the bit view.
            range = range_list[0]
            assert not range.is_open()
            result = self.buffer[range.start:range.stop]
        else:
            result = BitAwareByteArray(bytearray())
            for range in range_list:
                assert not range.is_open()
                result += self.buffer[range.start:range.stop]

        return result
''', '''        if len(range_list) == 1:
            return self._piece(range_list[0])
        result = BitAwareByteArray(bytearray())
        for r in range_list:
            result.extend(self._piece(r))
        return result

    def _piece(self, r):
        assert not r.is_open()
        return self.buffer[r.start:r.stop]
'''))
refactor('range-sums', 'C03 C04 C09 C10', ('buffer/range.py', '''        sum = 0
        for r in self:
            if r.is_open():
                return None
            sum += r.byte_length()
        return sum
''', '''        if self.is_open():
            return None
        return sum(r.byte_length() for r in self)
'''), ('buffer/range.py', '''        m = 0
        for r in self:
            if r.is_open():
                return None
            m = max(m, r.stop)
        return m
''', '''        if self.is_open():
            return None
        highest = 0
        for r in self:
            if r.stop > highest:
                highest = r.stop
        return highest
'''))
refactor('range-offset', 'C03 C04 C10', ('buffer/range.py', '''        remaining_bytes = bytes
        for r in self:
            if r.is_open() or r.byte_length() >= remaining_bytes:
                return r.start + remaining_bytes
            else:
                remaining_bytes -= r.byte_length()
''', '''        walked = 0
        for r in self:
            if r.is_open() or walked + r.byte_length() >= bytes:
                return r.start + (bytes - walked)
            walked += r.byte_length()
'''), ('buffer/range.py', '''        for i in range(0, len(sorted_list) - 1):
            if sorted_list[i].overlaps(sorted_list[i + 1]):
                return True
        return False
''', '''        return any(a.overlaps(b) for a, b in zip(sorted_list, sorted_list[1:]))
'''))
refactor('list-codec', 'C07 C18', ('buffer/serialize.py', '''    result = BitAwareByteArray(bytearray())
    for o in list:
        result += elem_packer(o, **kwargs)
    return result
''', '''    packed = BitAwareByteArray(bytearray())
    for element in list:
        piece = elem_packer(element, **kwargs)
        packed += piece
    return packed
'''), ('buffer/serialize.py', '''    result = []
    offset = 0
    index = 0
    while offset < buffer.length() and (n is None or index < n):
''', '''    result, offset, index = [], 0, 0
    while offset < buffer.length():
        if n is not None and index >= n:
            break
'''))
refactor('bit-int', 'C06', ('buffer/serialize.py', '''    result = 0
    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
    for b in l:
        result *= 256
        result += b
    return result, byte_size
''', '''    value = 0
    section = buffer[0:byte_size]
    for byte in (reversed(section) if kwargs.get("endian", "big") else section):
        value = (value << 8) | byte
    return value, byte_size
'''), ('buffer/serialize.py', '''    byte_size = kwargs_fractional_byte_size(kwargs)
    if byte_size in STRUCT_INT_PACKERS:
        return STRUCT_INT_PACKERS[byte_size](value, **kwargs)
    else:
        byte_size''', '''    byte_size = kwargs_fractional_byte_size(kwargs)
    packer = STRUCT_INT_PACKERS.get(byte_size)
    if packer is not None:
        return packer(value, **kwargs)
    else:
        byte_size'''))
refactor('str-codec', 'C07', ('buffer/serialize.py', '''        if justify == 'left':
            value = value.rstrip(strip).rstrip(padding)
        elif justify == 'right':
            value = value.lstrip(strip).lstrip(padding)
        else:  # center
            value = value.strip(strip).strip(padding)
''', '''        value = _strip_both(value, justify, strip, padding)
'''), ('buffer/serialize.py', '''def unpack_str(buffer, **kwargs):
''', '''def _strip_both(value, justify, *what):
    for chars in what:
        if justify == 'left':
            value = value.rstrip(chars)
        elif justify == 'right':
            value = value.lstrip(chars)
        else:
            value = value.strip(chars)
    return value


def unpack_str(buffer, **kwargs):
'''))
refactor('deref', 'C08 C09', ('buffer/reference/reference.py', '''        if self in ctx.call_nodes:
            raise CyclicReferenceError(ctx, self)

        if self in ctx.cached_results:
            return ctx.cached_results[self]

        try:
            ctx.call_nodes.add(self)
            ctx.call_stack.append(self)

            result = self.evaluate(ctx)
            ctx.cached_results[self] = result
            return result
        except:
''', '''        if self not in ctx.cached_results:
            if self in ctx.call_nodes:
                raise CyclicReferenceError(ctx, self)
            ctx.cached_results[self] = self._evaluate_once(ctx)
        return ctx.cached_results[self]

    def _evaluate_once(self, ctx):
        ctx.call_nodes.add(self)
        ctx.call_stack.append(self)
        try:
            return self.evaluate(ctx)
        except:
'''))
refactor('buffer-helpers', 'C09 C10 C08', ('buffer/buffer.py', '''        for field in fields:
            if field.pack_if.deref(ctx):
                try:
                    ctx.output_buffer.set(field.pack_ref.deref(ctx), field.pack_absolute_position_ref.deref(ctx))
                except:
                    raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
                                                               field.attr_name()))

        result = bytearray(ctx.output_buffer.get())

''', '''        for field in fields:
            if not field.pack_if.deref(ctx):
                continue
            self._pack_field(ctx, field)

        result = bytearray(ctx.output_buffer.get())
        return self._padded(result)

    def _pack_field(self, ctx, field):
        try:
            value = field.pack_ref.deref(ctx)
            position = field.pack_absolute_position_ref.deref(ctx)
            ctx.output_buffer.set(value, position)
        except:
            raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self), field.attr_name()))

    def _padded(self, result):
'''))
refactor('total-size', 'C10', ('buffer/reference/total_size.py', '''            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields
                     if field.pack_if.deref(ctx)]
            positions = SequentialRangeList(itertools.chain(*lists))
            result = positions.max_stop()  # total_size calculation
''', '''            positions = SequentialRangeList()
            for field in ctx.fields:
                if field.pack_if.deref(ctx):
                    positions.extend(field.pack_absolute_position_ref.deref(ctx))
            result = positions.max_stop()
'''), ('buffer/reference/total_size.py', '''            result = max(self._unpack_position_list_for_field(ctx, field) for field in ctx.fields)
''', '''            result = 0
            for field in ctx.fields:
                result = max(result, self._unpack_position_list_for_field(ctx, field))
'''))
refactor('arrays', 'C15 C17 C18', ('array.py', '''        size = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
        obj = []
        for i in range(size):
            obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
        return obj
''', '''        count = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
        return [self.element_marshal.create_from_stream(stream, context, *args, **kwargs) for _ in range(count)]
'''), ('array.py', '''        self.size_marshal.write_to_stream(len(obj), stream, context)
        for element in obj:
            self.element_marshal.write_to_stream(element, stream, context)

    def sizeof(self, obj):
        return self.size_marshal.sizeof(len(obj)) + sum([self.element_marshal.sizeof(element) for element in obj])
''', '''        self.size_marshal.write_to_stream(len(obj), stream, context)
        self._write_elements(obj, stream, context)

    def _write_elements(self, elements, stream, context):
        write = self.element_marshal.write_to_stream
        for e in elements:
            write(e, stream, context)

    def sizeof(self, obj):
        total = self.size_marshal.sizeof(len(obj))
        for element in obj:
            total += self.element_marshal.sizeof(element)
        return total
'''))
refactor('sum-array', 'C15 C18', ('array.py', '''        obj = []
        total_bytes = self.size_marshal.create_from_stream(stream, context)
        has_tell = hasattr(stream, 'tell')
        while total_bytes > 0:
            element_size = stream.tell() if has_tell else 0
            element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
            obj.append(element)
            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
            total_bytes -= element_size
        assert total_bytes == 0
        return obj
''', '''        elements = []
        remaining = self.size_marshal.create_from_stream(stream, context)
        has_tell = hasattr(stream, 'tell')
        while remaining > 0:
            if has_tell:
                before = stream.tell()
            element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
            if has_tell:
                remaining -= stream.tell() - before
            else:
                remaining -= self.element_marshal.sizeof(element)
            elements.append(element)
        assert remaining == 0
        return elements
'''))
refactor('bitstream', 'C12 C13', ('utils/bitstringio.py', '''        for n in range(bits_written, bits_to_write, 8):
            chunk_to_write = min(8, bits_to_write - n)
            bitmask = (1 << chunk_to_write) - 1
            self.value[byte_i] |= (value >> n) & bitmask
            byte_i += 1
''', '''        while bits_written < bits_to_write:
            chunk_to_write = min(8, bits_to_write - bits_written)
            self.value[byte_i] |= (value >> bits_written) & ((1 << chunk_to_write) - 1)
            bits_written += chunk_to_write
            byte_i += 1
'''), ('utils/bitstringio.py', '''        for n in range(bits_read, bits_to_read, 8):
            chunk_to_read = min(8, bits_to_read - n)
            bitmask = (1 << chunk_to_read) - 1
            result |= (self.value[byte_i] & bitmask) << n
            byte_i += 1
''', '''        while bits_read < bits_to_read:
            chunk_to_read = min(8, bits_to_read - bits_read)
            result |= (self.value[byte_i] & ((1 << chunk_to_read) - 1)) << bits_read
            bits_read += chunk_to_read
            byte_i += 1
'''))
refactor('positional', 'C13', ('struct/bit.py', '''        value = 0
        bits = 0
        for s in self.slices:
            stream.seek(s.start)
            slice_size = s.stop - s.start
            value += stream.read(slice_size) << bits
            bits += slice_size
        return value
''', '''        result, shift = 0, 0
        for piece in self.slices:
            size = piece.stop - piece.start
            stream.seek(piece.start)
            result |= stream.read(size) << shift
            shift += size
        return result
'''), ('struct/bit.py', '''        bit_stream = BitStringIO(self.size)
        for io in self.fields:
            io.write_fields(obj, bit_stream, context)
        stream.write(bit_stream.getvalue())
''', '''        bits = BitStringIO(self.size)
        super(BitFieldListContainer, self).write_fields(obj, bits, context)
        stream.write(bits.getvalue())
'''))
refactor('strings', 'C14 C17 C18', ('string.py', '''    if dir == PADDING_DIRECTION_NONE:
        return obj
    elif dir == PADDING_DIRECTION_RIGHT:
        return obj.rstrip(padding)
    elif dir == PADDING_DIRECTION_LEFT:
        return obj.lstrip(padding)
    else:
        return obj.strip(padding)
''', '''    if dir == PADDING_DIRECTION_NONE:
        return obj
    if dir in (PADDING_DIRECTION_RIGHT, PADDING_DIRECTION_BOTH):
        obj = obj.rstrip(padding)
    if dir in (PADDING_DIRECTION_LEFT, PADDING_DIRECTION_BOTH):
        obj = obj.lstrip(padding)
    return obj
'''), ('string.py', '''        buffer_len = self.size_marshal.create_from_stream(stream, context)
        obj = stream.read(buffer_len)
        if len(obj) < buffer_len:
            raise InstructError("Expected to read %d bytes from stream but read only %d" % (buffer_len, len(obj)))
        return _strip(obj, self.padding_direction, self.padding)
''', '''        return _strip(self._read_raw(stream, context), self.padding_direction, self.padding)

    def _read_raw(self, stream, context):
        expected = self.size_marshal.create_from_stream(stream, context)
        raw = stream.read(expected)
        if len(raw) != expected:
            raise InstructError("Expected to read %d bytes from stream but read only %d" % (expected, len(raw)))
        return raw
'''))
refactor('struct-list', 'C16 C17 C18', ('struct/__init__.py', '''        for field in self.fields:
            field.write_fields(obj, stream, context)
''', '''        for f in list(self.fields):
            f.write_fields(obj, stream, context)
'''), ('struct/__init__.py', '''        return sum([field.sizeof(obj) for field in self.fields])
''', '''        total = 0
        for field in self.fields:
            total += field.sizeof(obj)
        return total
'''), ('struct/__init__.py', '''        return sum([field.min_max_sizeof() for field in self.fields], ZERO_MIN_MAX)
''', '''        result = ZERO_MIN_MAX
        for field in self.fields:
            result = result + field.min_max_sizeof()
        return result
'''))
refactor('struct-instance', 'C16 C20', ('struct/__init__.py', '''        if self.name in kwargs:
            setattr(obj, self.name, kwargs.pop(self.name))
        elif not hasattr(obj, self.name):
            setattr(obj, self.name, copy_if_supported(self.default))
''', '''        name = self.name
        if name in kwargs:
            self.set_value(obj, kwargs.pop(name))
            return
        if hasattr(obj, name):
            return
        self.set_value(obj, self._fresh_default())

    def _fresh_default(self):
        return copy_if_supported(self.default)
'''))
refactor('read-ahead', 'C19', ('utils/read_ahead_stream.py', '''        res = b''
        if self.read_ahead_mode:
            res += self.stream.read(size)
            self.buffer += res
        else:
            if len(self.buffer) > 0:
                buffer_bytes_to_read = min(len(self.buffer), size)
                res = self.buffer[0:buffer_bytes_to_read]
                self.buffer = self.buffer[buffer_bytes_to_read:]
            if len(res) < size:
                res += self.stream.read(size - len(res))
        return res
''', '''        if self.read_ahead_mode:
            data = self.stream.read(size)
            self.buffer = self.buffer + data
            return data
        head, self.buffer = self.buffer[:size], self.buffer[size:]
        missing = size - len(head)
        return head + self.stream.read(missing) if missing > 0 else head
'''))
refactor('minmax', 'C17', ('base.py', '''        if isinstance(min_val_or_tuple, (list, tuple, MinMax)):
            assert len(min_val_or_tuple) == 2
            min_val, max_val = min_val_or_tuple
        else:
            min_val = min_val_or_tuple

        assert min_val <= max_val
        return super(MinMax, cls).__new__(cls, max(0, min_val), min(max_val, sys.maxsize))
''', '''        min_val = min_val_or_tuple
        if isinstance(min_val_or_tuple, (list, tuple)):
            assert len(min_val_or_tuple) == 2
            min_val, max_val = min_val_or_tuple[0], min_val_or_tuple[1]
        assert min_val <= max_val
        if min_val < 0:
            min_val = 0
        if max_val > sys.maxsize:
            max_val = sys.maxsize
        return super(MinMax, cls).__new__(cls, min_val, max_val)
'''))
refactor('bit-slices', 'C04', ('buffer/reference/range.py', '''        bit_range_remaining_len = bit_range.byte_length()
        result = []
        skip = bit_range.start - sum_length  # only the first range is entered in its middle
        for i in range(i, len(range_list)):
            r = range_list[i]
            subrange_start = r.start + skip
            skip = 0
            if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
                subrange_stop = subrange_start + bit_range_remaining_len
            else:
                subrange_stop = r.stop

            result.append(SequentialRange(subrange_start, subrange_stop))

            bit_range_remaining_len -= (subrange_stop - subrange_start)
            if bit_range_remaining_len == 0:
                break

        if bit_range_remaining_len > 0:
''', '''        missing = bit_range.byte_length()
        result = []
        skip = bit_range.start - sum_length
        for r in range_list[i:]:
            first = r.start + skip
            last = first + missing
            if not r.is_open():
                last = min(last, r.stop)
            result.append(SequentialRange(first, last))
            missing -= last - first
            skip = 0
            if missing == 0:
                break

        if missing > 0:
'''), ('buffer/reference/range.py', '''        return SequentialRangeList(reduce(operator.add, [ref.deref(ctx) for ref in self.list]))
''', '''        result = SequentialRangeList()
        for ref in self.list:
            result = result + ref.deref(ctx)
        return result
'''))
refactor('positions', 'C09 C10', ('buffer/field_reference_builder.py', '''        position_list = self.unpack_position_ref.deref(ctx)
        if position_list.has_overlaps():
            raise ValueError("field position list has overlapping ranges")

        if position_list.is_open():
            buffer_len = ctx.input_buffer.length()
            return position_list.to_closed(buffer_len)

        return position_list
''', '''        ranges = self.unpack_position_ref.deref(ctx)
        if ranges.has_overlaps():
            raise ValueError("field position list has overlapping ranges")
        return ranges.to_closed(ctx.input_buffer.length()) if ranges.is_open() else ranges
'''))
refactor('padding', 'C14 C18', ('padding.py', '''        data = stream.read(self.size)
        if len(data) < self.size:
            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
''', '''        missing = self.size
        while missing > 0:
            skipped = len(stream.read(missing))
            if skipped == 0:
                raise NotEnoughDataError(expected=self.size, actually_read=self.size - missing)
            missing -= skipped
'''))


def run(name):
    props, edits = R[name]
    d = '/tmp/refactor-%s' % name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    try:
        for f, old, new in edits:
            p = os.path.join(d, S, f)
            s = open(p).read()
            assert s.count(old) >= 1, (name, f, old)
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1')
        site = d + '/.site'
        os.mkdir(site)
        with open(site + '/sitecustomize.py', 'w') as f:
            f.write('''import sys, types, infi
sys.path[:] = ['%s/src' if p == '/repo/src' else p for p in sys.path]
paths = ['%s/src/infi'] + [p for p in list(infi.__path__) if '/repo/' not in p]
sys.modules['infi'] = types.ModuleType('infi')
sys.modules['infi'].__path__ = paths
''' % (d, d))
        t = subprocess.run(['/opt/venv-pypy/bin/python', '-m', 'pytest', '-q', '-x', 'tests'], cwd=d, env=dict(env, PYTHONPATH=site),
                           capture_output=True, text=True)
        print(name, 'tests:', t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:])
        for p in props:
            r = subprocess.run([sys.executable, 'check.py', p], cwd=HERE, env=env, capture_output=True, text=True)
            print('  %s exit %d  %s' % (p, r.returncode, '' if r.returncode == 0 else 'ALARM'))
            for l in r.stdout.splitlines():
                print('     ', l[:260])
            sys.stdout.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    for n in sys.argv[1:] or sorted(R):
        run(n)
