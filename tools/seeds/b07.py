PROPERTY = 'C07'
EDITS = [('buffer/serialize.py', '''            value = value.lstrip(strip).lstrip(padding)
''', '''            value = value.lstrip(strip).strip(padding)
''')]
NEEDS = 'a right-justified text of known size that ends in its padding character'
BREAKS = 'the end of the text is lost although it is not on the padded side'
DEMO = '''
from infi.instruct.buffer import *
class B(Buffer):
    a = str_field(where=bytes_ref[0:6], justify='right')
for t in ('abc', 'ab ', 'a b  '):
    x = B(a=t)
    y = B()
    y.unpack(x.pack())
    assert y.a == t, (y.a, t)
'''
