PROPERTY = 'C09'
EDITS = [('buffer/field_reference_builder.py', '            closed_length = sum(pos.byte_length() for pos in position_list if not pos.is_open())', '            closed_length = sum(pos.byte_length() for pos in position_list[:-1] if not pos.is_open())')]
NEEDS = 'a location of two parts the first of which is open'
BREAKS = 'packing is refused'
DEMO = '''
from infi.instruct.buffer import Buffer, bytearray_field, bytes_ref
class B(Buffer):
    x = bytearray_field(where=bytes_ref[2:] + bytes_ref[0:2])
b = B(x=bytearray(b"cdefab"))
assert b.pack() == b"abcdef", b.pack()
'''
