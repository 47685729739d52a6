PROPERTY = 'C04'
EDITS = [('buffer/reference/range.py', '''            return ListRangeReference(me + other.list)
        elif isinstance(other, RangeReference):''', '''            return ListRangeReference(me + other.list) if self is not me[0] else ListRangeReference(other.list + me)
        elif isinstance(other, RangeReference):''')]
NEEDS = 'a single location plus a sum or list of locations'
BREAKS = 'the ranges come in another order than they were written'
DEMO = '''
from infi.instruct.buffer.reference.range import ByteRangeFactory
from infi.instruct.buffer.reference import Context
f = ByteRangeFactory()
got = [(r.start, r.stop) for r in (f[5] + (f[1] + f[3:4])).deref(Context())]
assert got == [(5, 6), (1, 2), (3, 4)], got
'''
