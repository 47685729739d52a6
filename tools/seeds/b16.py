PROPERTY = 'C16'
EDITS = [('struct/lazy.py', '''    def __set__(self, instance, value):
        self.container.instantiate_if_needed(instance)
''', '''    def __set__(self, instance, value):
''')]
NEEDS = 'setting a field of a lazy group that was read and not decoded yet, then using another field of the group'
BREAKS = 'the value that was set is replaced by the one that was read'
DEMO = '''
from infi.instruct import *
from infi.instruct.struct import Struct
from infi.instruct.struct.lazy import LazyFieldListContainer
class S(Struct):
    _fields_ = [LazyFieldListContainer([UBInt8("a"), UBInt8("b")])]
s = S.create_from_string(b"\\x01\\x02")
s.a = 9
assert s.b == 2
assert s.a == 9, s.a
assert s.to_bytes() == b"\\x09\\x02"
'''
