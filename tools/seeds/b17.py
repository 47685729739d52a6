PROPERTY = 'C17'
EDITS = [('struct/optional.py', 'return MinMax(0, self.marshal.min_max_sizeof().max)', '''bounds = self.marshal.min_max_sizeof()
        return MinMax(0 if self.default is None else bounds.min, bounds.max)''')]
NEEDS = 'an optional field that has a default and is set to None'
BREAKS = 'the declared minimum size is bigger than what is written'
DEMO = '''
from infi.instruct import *
from infi.instruct.struct import Struct
class S(Struct):
    _fields_ = [UBInt8("a"), OptionalField("b", UBInt16, lambda o, s, c: o.a > 0, 7)]
s = S(a=0, b=None)
assert s.to_bytes() == b"\\0"
assert S.min_max_sizeof().min <= 1
'''
