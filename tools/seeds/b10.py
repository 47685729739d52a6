PROPERTY = 'C10'
EDITS = [('buffer/reference/after_field.py', '''            offset = SequentialRangeList(self.field_ref.pack_absolute_position_ref.deref(ctx)).max_stop()
''', '''            offset = self.field_ref.pack_absolute_position_ref.deref(ctx)[-1].stop
''')]
NEEDS = 'a location in parts whose last part is not the furthest'
BREAKS = 'the place after the field, when packing, is inside the field'
DEMO = '''
from infi.instruct.buffer import Buffer, bytearray_field, uint_field, bytes_ref, after_ref
class A(Buffer):
    x = bytearray_field(where=bytes_ref[2:4] + bytes_ref[0:2])
    y = uint_field(where=bytes_ref[after_ref(x)])
assert A(x=bytearray(b"abcd"), y=7).pack() == b"cdab\\x07"
'''
