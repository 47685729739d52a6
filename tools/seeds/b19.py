PROPERTY = 'C19'
EDITS = [('struct/selector.py', '''        if key in self.mapping:
            marshal = self.mapping[key]
''', '''        if key and key in self.mapping:
            marshal = self.mapping[key]
''')]
NEEDS = 'a mapping with key 0 and a default'
BREAKS = 'the default is read for key 0 instead of the struct that key 0 selects'
DEMO = '''
from infi.instruct import *
from infi.instruct.struct import Struct
from infi.instruct.struct.selector import StructSelectorMarshal
class A(Struct):
    _fields_ = [UBInt8("k"), UBInt16("a")]
class B(Struct):
    _fields_ = [UBInt8("k"), UBInt8("b")]
m = StructSelectorMarshal(UBInt8, {0: A, 1: A}, B)
for data, want in ((b"\\x00\\x01\\x02", A), (b"\\x01\\x01\\x02", A), (b"\\x02\\x01", B)):
    got = m.create_from_string(data)
    assert type(got) is want, (data, got)
'''
