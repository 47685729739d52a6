PROPERTY = 'C11'
EDITS = [('numeric.py', 'SNInt32Marshal = NumericMarshal("=l", int)', 'SNInt32Marshal = NumericMarshal("=L", int)')]
NEEDS = 'a negative value of the native signed 32-bit type'
BREAKS = 'it is refused, and its encoding is read as a large positive number'
DEMO = '''
from infi.instruct.numeric import SNInt32Marshal
assert SNInt32Marshal.create_from_string(SNInt32Marshal.write_to_string(-5)) == -5
'''
