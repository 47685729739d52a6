PROPERTY = 'C09'
EDITS = [('buffer/buffer.py', '''        for attr_name in dir(new_cls):
            attr = getattr(new_cls, attr_name)
            if isinstance(attr''', '''        for attr_name, attr in sorted(attrs.items()):
            if isinstance(attr''')]
NEEDS = 'a field that a base class which is not a Buffer declares'
BREAKS = 'such a field is not a field at all: neither packed nor unpacked'
DEMO = '''
from infi.instruct.buffer import Buffer, uint_field, bytes_ref
class M(object):
    x = uint_field(where=bytes_ref[0])
class A(M, Buffer):
    y = uint_field(where=bytes_ref[1])
a = A(x=5, y=6)
assert a.pack() == b"\\x05\\x06"
b = A()
b.unpack(b"\\x07\\x08")
assert (b.x, b.y) == (7, 8)
'''
