PROPERTY = 'C06'
EDITS = [('buffer/io_buffer.py', 'if bit_length > int_value_len * 8:', 'if bit_length > 8 and bit_length > int_value_len * 8:')]
NEEDS = 'an integer field narrower than a byte and a value too large for it, yet of at most eight bits'
BREAKS = 'the value is stored truncated instead of refused'
DEMO = '''
from infi.instruct.buffer import Buffer, uint_field, bytes_ref
class B(Buffer):
    a = uint_field(where=bytes_ref[0].bits[0:3])
    b = uint_field(where=bytes_ref[0].bits[3:8])
o = B()
o.a, o.b = 7, 31
assert bytes(o.pack()) == b'\\xff'
o.a, o.b = 9, 0
try:
    data = o.pack()
except Exception:
    pass
else:
    raise SystemExit('9 was stored in three bits: %r' % data)
'''
