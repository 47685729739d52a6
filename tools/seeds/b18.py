PROPERTY = 'C18'
EDITS = [('string.py', 'if len(obj) < buffer_len:', 'if len(obj) < buffer_len and (self.padding_direction == PADDING_DIRECTION_NONE or not obj):')]
NEEDS = 'a padded string whose bytes end in the middle'
BREAKS = 'the part that is there is returned as if the rest were padding'
DEMO = '''
from infi.instruct.string import *
from infi.instruct.string import PADDING_DIRECTION_RIGHT
m = PaddedStringMarshal(5, b" ", PADDING_DIRECTION_RIGHT)
for n in range(5):
    try:
        got = m.create_from_string(b"abcde"[:n])
    except Exception:
        continue
    raise AssertionError((n, got))
'''
