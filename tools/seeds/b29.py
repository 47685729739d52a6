PROPERTY = 'C17'
EDITS = [('struct/__init__.py', '        type(obj)._container_.write_fields(obj, stream, context)', '        cls._container_.write_fields(obj, stream, context)')]
NEEDS = 'a struct in a field is an object of a class that derives from the declared one and has more fields'
BREAKS = 'fewer bytes are written than sizeof says'
DEMO = '''
from infi.instruct import *
from infi.instruct.struct import Struct, Field
class A(Struct):
    _fields_ = [UBInt8("a")]
class B(A):
    _fields_ = [UBInt8("a"), UBInt16("b")]
class S(Struct):
    _fields_ = [Field("x", A)]
s = S(x=B(a=1, b=2))
assert S.sizeof(s) == 3 and len(S.write_to_string(s)) == 3, S.write_to_string(s)
'''
