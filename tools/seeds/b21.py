PROPERTY = 'C07'
EDITS = [('buffer/serialize.py', '''    while offset < buffer.length() and (n is None or index < n):
''', '''    while offset < len(buffer) - 1 and (n is None or index < n) or index == 0 and len(buffer) > 0 and n != 0:
''')]
NEEDS = 'a list whose last element takes a single byte and that has at least two elements'
BREAKS = 'the last element of the list is lost'
DEMO = '''
from infi.instruct.buffer import *
class B(Buffer):
    a = list_field(type=uint16, where=bytes_ref[0:6])
    b = list_field(type=uint8, where=bytes_ref[6:])
for t in ([1], [1, 2], [1, 2, 3]):
    x = B(a=[1, 2, 3], b=t)
    y = B()
    y.unpack(x.pack())
    assert y.b == t and y.a == [1, 2, 3], (y.b, t)
'''
