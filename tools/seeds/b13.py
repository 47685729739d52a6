PROPERTY = 'C13'
EDITS = [('struct/bit.py', "value += stream.read(slice_size) << bits\n            bits += slice_size", "value += stream.read(slice_size) << bits\n            bits = slice_size")]
NEEDS = 'a positional bit field of three or more slices'
BREAKS = 'the third slice is read into the wrong place of the value'
DEMO = '''
from infi.instruct.struct import Struct, Field
from infi.instruct.struct.bit import PositionalBitMarshal, PositionalBitFieldListContainer
class S(Struct):
    _fields_ = [PositionalBitFieldListContainer(16, [Field("x", PositionalBitMarshal([slice(0, 2), slice(4, 6), slice(9, 12)]))])]
for x in range(128):
    assert S.create_from_string(S(x=x).to_bytes()).x == x, x
'''
