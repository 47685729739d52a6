PROPERTY = 'C04'
EDITS = [('buffer/reference/range.py', 'range_list[i].stop)] + range_list[i + 1:])', 'range_list[i].stop)] + range_list[i + 1:i + 2])')]
NEEDS = 'an open bit slice that starts in a range followed by two or more ranges'
BREAKS = 'the bits of all but the next range are missing'
DEMO = '''
from infi.instruct.buffer.reference.range import ByteRangeFactory
from infi.instruct.buffer.reference import Context
f = ByteRangeFactory()
got = [(r.start, r.stop) for r in f[[0, 4, 2, 9]].bits[12:].deref(Context())]
assert got == [(4.5, 5), (2, 3), (9, 10)], got
'''
