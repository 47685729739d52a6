PROPERTY = 'C10'
EDITS = [('buffer/buffer.py', '''            static_byte_size = int(math.ceil(static_byte_size))
''', '''            static_byte_size = int(static_byte_size + 0.5)
''')]
NEEDS = 'a class whose size ends less than half a byte into its last byte'
BREAKS = 'packing is refused'
DEMO = '''
from infi.instruct.buffer import Buffer, uint_field, bytes_ref
class A(Buffer):
    x = uint_field(where=bytes_ref[0:2].bits[0:11])
assert A.byte_size == 1.375
assert A(x=0x701).pack() == b"\\x01\\x07"
'''
