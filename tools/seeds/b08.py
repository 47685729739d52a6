PROPERTY = 'C08'
EDITS = [('buffer/reference/reference.py', '''        if self in ctx.cached_results:
            return ctx.cached_results[self]

''', '''        result = ctx.cached_results.get(self)
        if result is not None:
            return result

''')]
NEEDS = 'a reference whose value is None that is used more than once'
BREAKS = 'such a reference is evaluated again at every use'
DEMO = '''
from infi.instruct.buffer.reference import Context, FuncCallReference
calls = []
def f():
    calls.append(1)
    return None
for value in (None, 0):
    del calls[:]
    r = FuncCallReference(False, lambda: f() if value is None else calls.append(1) or value)
    ctx = Context()
    assert r.deref(ctx) is value and r.deref(ctx) is value
    assert len(calls) == 1, calls
'''
