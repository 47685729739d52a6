PROPERTY = 'C20'
EDITS = [('buffer/buffer.py', '            if isinstance(getattr(self, field.attr_name()), FieldReference):', '            if field.attr_name() not in kwargs:')]
NEEDS = 'a derived buffer class whose initialiser sets a field before it calls the one of Buffer'
BREAKS = 'the value that was set is replaced by the default'
DEMO = '''
from infi.instruct.buffer import Buffer, be_uint_field, bytes_ref
class B(Buffer):
    a = be_uint_field(where=bytes_ref[0:2], default=7)
    def __init__(self, **kwargs):
        self.a = 5
        super(B, self).__init__(**kwargs)
assert B().a == 5, B().a
assert B(a=3).a == 3
'''
