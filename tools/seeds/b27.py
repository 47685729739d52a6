PROPERTY = 'C02'
EDITS = [('buffer/io_buffer.py', '            if value.buffer is self.buffer:', '            if value is self:')]
NEEDS = 'inserting a view of the bytes of the array itself, in front of what the view shows'
BREAKS = 'the inserted bytes are read after they were moved'
DEMO = '''
from infi.instruct.buffer.io_buffer import BitAwareByteArray, BitView
data = bytearray(b"abcd")
a = BitAwareByteArray(data)
a.insert(0, BitView(data, 2, 4))
assert a.to_bytes() == b"cdabcd", a.to_bytes()
'''
