PROPERTY = 'C14'
EDITS = [('string.py', 'return obj.strip(padding)', 'return obj.lstrip(padding).rstrip(padding[0:1])')]
NEEDS = 'padding of more than one character, on both sides'
BREAKS = 'the second padding character stays at the end of what is read'
DEMO = '''
from infi.instruct.string import PaddedStringMarshal, PADDING_DIRECTION_BOTH
m = PaddedStringMarshal(6, b" -", PADDING_DIRECTION_BOTH)
assert m.create_from_string(b"- ab -") == b"ab"
'''
