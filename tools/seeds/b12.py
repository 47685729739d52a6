PROPERTY = 'C12'
EDITS = [('utils/bitstringio.py', 'if (bits_to_write + self.position) > len(self.value) * 8:', 'if bits_to_write > (len(self.value) - self.position // 8) * 8:')]
NEEDS = 'a run written from the middle of a byte that passes the end of the stream by less than a byte'
BREAKS = 'the refused write leaves its first bits in the stream'
DEMO = '''
from infi.instruct.utils.bitstringio import BitStringIO
s = BitStringIO(2)
s.seek(12)
s.write(0, 1)
try:
    s.write(31, 5)
except Exception:
    pass
assert s.getvalue() == b'\\0\\0', s.getvalue()
assert s.position == 13
'''
