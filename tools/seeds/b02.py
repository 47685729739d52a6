PROPERTY = 'C02'
EDITS = [('buffer/io_buffer.py', 'copy = BitAwareByteArray(bytearray(other.buffer), start=other.start, stop=other.stop)', 'copy = BitAwareByteArray(other.buffer, start=other.start, stop=other.stop)')]
NEEDS = 'a plain bit view over a bytearray on the left of +'
BREAKS = 'concatenating changes the bytes under the left operand'
DEMO = '''
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray
b = bytearray(b"ab")
r = BitView(b) + BitAwareByteArray(bytearray(b"cd"))
assert r.to_bytes() == b"abcd"
assert b == b"ab", b
'''
