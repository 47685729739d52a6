PROPERTY = 'C15'
EDITS = [('array.py', '''        sum_size = sum([self.element_marshal.sizeof(element) for element in obj])
        self.size_marshal.write_to_stream(sum_size''', '''        sizes = {}
        for element in obj:
            sizes.setdefault(type(element), self.element_marshal.sizeof(element))
        sum_size = sum([sizes[type(element)] for element in obj])
        self.size_marshal.write_to_stream(sum_size''')]
NEEDS = 'a size-prefixed array with two elements of the same class and different sizes'
BREAKS = 'the written size prefix counts every element as long as the first of its class'
DEMO = '''
from infi.instruct.array import SumSizeArrayMarshal
from infi.instruct.string import VarSizeStringMarshal
from infi.instruct.numeric import UBInt8Marshal
m = SumSizeArrayMarshal(UBInt8Marshal, VarSizeStringMarshal(UBInt8Marshal))
v = [b"a", b"bcd", b"", b"efghi"]
assert m.create_from_string(m.write_to_string(v)) == v
'''
