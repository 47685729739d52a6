PROPERTY = 'C03'
EDITS = [('buffer/range.py', 'if r.is_open() or r.byte_length() >= remaining_bytes:', 'if r.is_open() or r.stop >= remaining_bytes:')]
NEEDS = 'an offset larger than the first range but smaller than its stop'
BREAKS = 'the offset is mapped past the end of the first range'
DEMO = '''
from infi.instruct.buffer.range import SequentialRange, SequentialRangeList
l = SequentialRangeList([SequentialRange(10, 12), SequentialRange(20, 30)])
assert l.byte_offset(2) == 12
assert l.byte_offset(5) == 23, l.byte_offset(5)
'''
