PROPERTY = 'C01'
EDITS = [('buffer/io_buffer.py', 'for i in range(int(self.start * 8), int(self.stop * 8)):', 'for i in range(int(self.start) * 8, int(self.stop * 8)):')]
NEEDS = 'a view whose start is not a whole byte, converted to a bit string'
BREAKS = 'the bit string begins with bits outside the view'
DEMO = '''
from infi.instruct.buffer.io_buffer import BitView
assert BitView(b"\\xf1\\x02", 0.5, 1.5).to_bitstr() == "00101111"
assert BitView(b"\\xf1\\x02", 0, 1.5).to_bitstr() == "001011110001"
'''
