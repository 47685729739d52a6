"""Symbolic side: generates and discharges the obligations of one unit.   worker.py UNIT BUDGET OUT.json"""
import importlib
import json
import os
import resource
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def watch():
    """the repository functions whose bodies are executed symbolically"""
    seen = set()
    m = sys.monitoring

    def start(code, off):
        f = code.co_filename
        if '/infi/instruct/' in f and code.co_flags & 1:
            q = code.co_qualname
            for junk in ('.<locals>', '.<lambda>', '.__gen_body__', '.<genexpr>', '.<listcomp>'):
                q = q.replace(junk, '')
            import re
            q = re.sub(r'\.__yl_\d+', '', q)
            if q not in ('<module>', '<lambda>'):
                seen.add(f.split('/infi/instruct/')[1][:-3].replace('/', '.') + '.' + q)
        return m.DISABLE
    m.use_tool_id(3, 'verif')
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)
    return seen


def main():
    name, budget, out = sys.argv[1], float(sys.argv[2]), sys.argv[3]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    res = None
    try:
        from engine import load
        load.install()
        from engine import explore, specapi
        importlib.import_module('specs.' + name.split('.')[0].lower())
        importlib.import_module('specs.invariants')
        importlib.import_module('infi.instruct.buffer')
        functions = watch()
        res = explore.verify(specapi.UNITS[name], budget)
        res['functions'] = sorted(functions)
        res['dropped'] = list(load.DROPPED)
    except BaseException as e:
        res = dict(unit=name, status='error', error='%s: %s' % (type(e).__name__, str(e)[:300]),
                   trace=traceback.format_exc()[-3000:], obligations=0, discharged=0, obls={}, refutations=[])
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    main()
