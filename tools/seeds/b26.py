PROPERTY = 'C16'
EDITS = [('struct/lazy.py', 'self.lazy_key = "_lazy_container_%s" % id(self)', 'self.lazy_key = "_lazy_container_%d_%d" % (len(self.fields), self.size)')]
NEEDS = 'a struct with two lazy groups that have the same number of fields and the same size'
BREAKS = 'the first group is decoded from the bytes of the second'
DEMO = '''
from infi.instruct import *
from infi.instruct.struct import Struct
from infi.instruct.struct_macros import Lazy
class S(Struct):
    _fields_ = [Lazy(UBInt8("a"), UBInt8("b")), Lazy(UBInt8("c"), UBInt8("d"))]
s = S.create_from_string(b"\\x01\\x02\\x03\\x04")
assert (s.a, s.b, s.c, s.d) == (1, 2, 3, 4), (s.a, s.b, s.c, s.d)
'''
