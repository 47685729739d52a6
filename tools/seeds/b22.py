PROPERTY = 'C05'
EDITS = [('buffer/io_buffer.py', '''            self.buffer[range.start:range.stop] = value[value_start:value_start + range.byte_length()]
            value_start += range.byte_length()
''', '''            size = range.byte_length()
            if size > 0:
                self.buffer[range.start:range.stop] = value[value_start:value_start + size]
                value_start += max(size, 0.25)
''')]
NEEDS = 'a range of a single bit that is not the last one'
BREAKS = 'the pieces that follow a single-bit range are taken one bit too late'
DEMO = '''
from infi.instruct.buffer.io_buffer import OutputBuffer
from infi.instruct.buffer.range import SequentialRange
o = OutputBuffer()
o.set(bytearray([0x2b, 0]), [SequentialRange(0, 0.25), SequentialRange(0.25, 0.375), SequentialRange(1, 2)])
assert bytearray(o.get().to_bytes()) == bytearray([3, 5]), repr(o.get())
'''
