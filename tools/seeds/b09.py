PROPERTY = 'C09'
EDITS = [('buffer/field_reference_builder.py', '''Reference.to_ref(self.unpack_if) if self.unpack_if is not None else''', '''Reference.to_ref(self.unpack_if) if self.unpack_if else''')]
NEEDS = 'a field whose unpack condition is the constant False (not an expression)'
BREAKS = 'the disabled field is decoded instead of being None'
DEMO = '''
from infi.instruct.buffer import Buffer, uint_field, bytes_ref
class A(Buffer):
    x = uint_field(where=bytes_ref[0], unpack_if=False)
    y = uint_field(where=bytes_ref[1])
a = A()
a.unpack(b"\\x05\\x06")
assert a.x is None and a.y == 6, a
'''
