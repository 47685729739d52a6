PROPERTY = 'C20'
EDITS = [('buffer/buffer.py', '''            setattr(self, name, value)
''', '''            if value is not None:
                setattr(self, name, value)
''')]
NEEDS = 'None passed for a field of a buffer that has a default'
BREAKS = 'the field gets the default instead of its argument'
DEMO = '''
from infi.instruct.buffer import *
class B(Buffer):
    a = uint_field(where=bytes_ref[0], default=7)
    b = uint_field(where=bytes_ref[1], default=8)
x = B(a=None, b=0)
assert (x.a, x.b) == (None, 0), (x.a, x.b)
x = B(b=3)
assert (x.a, x.b) == (7, 3)
'''
