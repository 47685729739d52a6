PROPERTY = 'C05'
EDITS = [('buffer/io_buffer.py', '''            self.buffer.zfill(range.start)
''', '''            self.buffer.zfill(range.start if range.byte_length() >= 1 else int(range.start))
''')]
NEEDS = 'a range that starts inside a byte that does not exist yet'
BREAKS = 'the gap up to the range is filled only up to the byte boundary, so the piece lands at an earlier bit'
DEMO = '''
from infi.instruct.buffer.io_buffer import OutputBuffer, BitView
from infi.instruct.buffer.range import SequentialRange
o = OutputBuffer()
o.set(bytearray([7]), [SequentialRange(1.5, 1.875)])
got = o.get()
assert got.length() == 1.875 and bytearray(got.to_bytes()) == bytearray([0, 0x70]), repr(got)
'''
