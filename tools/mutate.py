"""systematic mutants of /repo that pass the stable tests: which of them do the checks' concrete runs miss?

python3 tools/mutate.py tests   -> /tmp/mut/survivors.json (mutants that build and pass the tests)
python3 tools/mutate.py search  -> /tmp/mut/missed.json (survivors that no concrete search notices)"""
import ast, concurrent.futures as cf, importlib, json, os, queue, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYPY = '/opt/venv-pypy/bin/python'
W = '/tmp/mut'
S = 'src/infi/instruct'
JOBS = int(os.environ.get('JOBS', 8))
SKIP = ('__repr__', '__safe_repr__', 'to_repr', '_repr', '_func_repr', '_args_repr', '_kwargs_repr', '_args_and_kwargs_repr', '_shallow_repr',
        'format_exception_call_stack', '__str__', '_repr_peel_obj_ref_for_str')
FILES = ['array.py', 'base.py', 'mapping.py', 'numeric.py', 'padding.py', 'string.py', 'string_macros.py', 'array_macros.py', 'struct_macros.py', 'numeric_macros.py',
         'struct/__init__.py', 'struct/bit.py', 'struct/const.py', 'struct/lazy.py', 'struct/optional.py', 'struct/pointer.py', 'struct/selector.py',
         'utils/bitstringio.py', 'utils/kwargs.py', 'utils/read_ahead_stream.py',
         'buffer/buffer.py', 'buffer/field_reference_builder.py', 'buffer/io_buffer.py', 'buffer/macros.py', 'buffer/range.py', 'buffer/serialize.py',
         'buffer/reference/after_field.py', 'buffer/reference/builtins.py', 'buffer/reference/contexts.py', 'buffer/reference/field.py',
         'buffer/reference/field_or_attr.py', 'buffer/reference/func_call.py', 'buffer/reference/range.py', 'buffer/reference/reference.py',
         'buffer/reference/total_size.py']
PROPS = {'buffer/io_buffer.py': 'C01 C02 C05', 'buffer/range.py': 'C03', 'buffer/reference/range.py': 'C04', 'buffer/serialize.py': 'C06 C07 C18',
         'buffer/buffer.py': 'C09 C10 C08 C20', 'buffer/field_reference_builder.py': 'C09 C10', 'buffer/macros.py': 'C06 C07 C09', 'array.py': 'C15 C17',
         'string.py': 'C14', 'padding.py': 'C14', 'numeric.py': 'C11', 'utils/bitstringio.py': 'C12', 'utils/read_ahead_stream.py': 'C19', 'utils/kwargs.py': 'C20',
         'base.py': 'C17', 'struct/bit.py': 'C13', 'struct/selector.py': 'C19', 'mapping.py': 'C16'}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'],
       ast.Is: ['is not'], ast.IsNot: ['is']}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '//', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}
NAMES = {'min': 'max', 'max': 'min', 'lstrip': 'rstrip', 'rstrip': 'lstrip', 'ljust': 'rjust', 'rjust': 'ljust', 'ceil': 'floor', 'floor': 'ceil', 'any': 'all', 'all': 'any',
         'reversed': 'list', 'deepcopy': 'id', 'start': 'stop', 'stop': 'start', 'length': '__len__', 'to_bytes': 'to_bytearray', 'append': 'extend', 'rstrip ': 'strip'}


def mutants(rel):
    src = open(os.path.join('/repo', S, rel)).read()
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def add(a, b, new, n):
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((rel, n.lineno, raw[a:b].decode()[:90], new[:90], s))

    def walk(n, raising):
        if isinstance(n, (ast.FunctionDef,)) and n.name in SKIP:
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Assert):
            a, b = span(n)
            add(a, b, 'pass', n)
            walk(n.test, True)
            return
        a = b = None
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                l = n.left if i == 0 else n.comparators[i - 1]
                r = n.comparators[i]
                for new in CMP.get(type(op), []):
                    add(span(l)[1], span(r)[0], ' %s ' % new, n)
        if isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            l, r = span(n.left)[1], span(n.right)[0]
            mid = raw[l:r].decode()
            for k, v in OPS.items():
                if isinstance(n.op, k):
                    old = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>',
                           ast.BitAnd: '&', ast.BitOr: '|'}[k]
                    add(l, r, mid.replace(old, v, 1), n)
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                l, r = span(x)[1], span(y)[0]
                mid = raw[l:r].decode()
                add(l, r, mid.replace('and', 'or') if isinstance(n.op, ast.And) else mid.replace('or', 'and'), n)
            for x in n.values:
                add(*span(x), 'True' if isinstance(n.op, ast.And) else 'False', n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(*span(n), '(%s)' % text(n.operand), n)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(*span(n), repr(n.value + 1), n)
            if n.value > 0:
                add(*span(n), repr(n.value - 1), n)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(*span(n), repr(not n.value), n)
        if isinstance(n, ast.Constant) and n.value is None:
            add(*span(n), '0', n)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(*span(n.test), 'True', n) if not isinstance(n, ast.While) else None
            add(*span(n.test), 'False', n)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(*span(n), 'pass', n)
        if isinstance(n, ast.AugAssign) and type(n.op) in OPS:
            l, r = span(n.target)[1], span(n.value)[0]
            add(l, r, ' %s= ' % OPS[type(n.op)], n)
            add(l, r, ' = ', n)
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if name in NAMES:
                a, b = span(f)
                add(b - len(name), b, NAMES[name], n)
            if len(n.args) == 1 and not n.keywords and name in ('bytearray', 'bytes', 'list', 'deepcopy', 'copy_if_supported', 'int', 'float', 'ceil', 'reversed', 'sorted', 'str'):
                add(*span(n), text(n.args[0]), n)
            if isinstance(f, ast.Attribute) and not n.args and name in ('copy', 'sorted', 'snapshot'):
                add(*span(n), text(f.value), n)
            for k in n.keywords:        # drop a keyword argument
                if k.arg or True:
                    a, b = span(k)
                    while raw[b:b + 1] in (b' ', b','):
                        b += 1
                    add(a, b, '', n)
            for i, x in enumerate(n.args):
                if isinstance(x, ast.Starred):
                    a, b = span(x)
                    while raw[b:b + 1] in (b' ', b','):
                        b += 1
                    add(a, b, '', n)
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                x, y = n.args[0], n.args[1]
                add(span(x)[0], span(y)[1], '%s, %s' % (text(y), text(x)), n)
        if isinstance(n, ast.Attribute) and n.attr in ('start', 'stop', 'min', 'max'):
            a, b = span(n)
            add(b - len(n.attr), b, {'start': 'stop', 'stop': 'start', 'min': 'max', 'max': 'min'}[n.attr], n)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(*span(n.value), 'None', n)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and c in getattr(n, 'decorator_list', []):
                continue
            walk(c, raising)
    walk(ast.parse(src), False)
    seen, res = set(), []
    for m in out:
        if m[4] not in seen and m[4] != src:
            seen.add(m[4])
            res.append(m)
    return res


def setup():
    q = queue.Queue()
    for j in range(JOBS):
        d = '%s/w%d' % (W, j)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', d])
        site = d + '/.site'
        os.mkdir(site)
        with open(site + '/sitecustomize.py', 'w') as f:
            f.write('''import sys, types, infi
sys.path[:] = ['%s/src' if p == '/repo/src' else p for p in sys.path]
paths = ['%s/src/infi'] + [p for p in list(infi.__path__) if '/repo/' not in p]
sys.modules['infi'] = types.ModuleType('infi')
sys.modules['infi'].__path__ = paths
''' % (d, d))
        q.put(d)
    return q


def with_dir(q, m, fn):
    d = q.get()
    p = os.path.join(d, S, m[0])
    keep = open(p).read()
    try:
        with open(p, 'w') as f:
            f.write(m[4])
        return fn(d, m)
    finally:
        with open(p, 'w') as f:
            f.write(keep)
        q.put(d)


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def passes(d, m):
    env = dict(os.environ, PYTHONPATH=d + '/.site', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        r = subprocess.run([PYPY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-W', 'ignore', 'tests'], cwd=d, env=env, capture_output=True, timeout=40, preexec_fn=limit)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def units_of(prop):
    from engine import specapi
    importlib.import_module('specs.' + prop.lower())
    return [u.name for u in specapi.UNITS.values() if u.prop == prop and u.conc]


def noticed(d, m):
    first = PROPS.get(m[0], '').split()
    rest = [p for p in ALL if p not in first and (p in ('C18', 'C20') or (p <= 'C10') == m[0].startswith('buffer/'))]
    env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_FIRST='1')
    errs = []
    for p in first + rest:
        for us in (UNITS[p],):
            try:
                r = subprocess.run([PYPY, '-W', 'ignore', HERE + '/engine/runner.py', 'search', ','.join(us), '--seed', '1', '--budget', os.environ.get('BUDGET', '4'), '--cases', os.environ.get('CASES', '1')],
                                   cwd=HERE, env=env, capture_output=True, timeout=400, text=True, preexec_fn=limit)
            except subprocess.TimeoutExpired:
                errs.append('timeout ' + p)
                continue
            for l in r.stdout.splitlines():
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if x['fails']:
                    return '%s %s' % (x['unit'], x['fails'][0]['check']), errs
                if x['errors']:
                    errs.append(x['unit'] + ': ' + x['errors'][0][-150:])
            if len(r.stdout.splitlines()) < len(us):
                errs.append('crash %s: %s' % (p, r.stderr[-200:]))
    return None, errs[:4]


if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    random.seed(int(os.environ.get('ORDER', '1')))
    q = setup()
    if sys.argv[1] == 'tests':
        ms = [m for f in FILES for m in mutants(f)]
        if len(sys.argv) > 2:
            ms = [m for m in ms if m[0] in sys.argv[2:]]
        print(len(ms), 'mutants')
        with cf.ThreadPoolExecutor(JOBS) as ex:
            ok = list(ex.map(lambda m: with_dir(q, m, passes), ms))
        s = [m for m, o in zip(ms, ok) if o]
        print(len(s), 'pass the tests')
        json.dump(s, open(W + '/survivors.json', 'w'), indent=0)
    else:
        from engine import specapi
        ALL = ['C%02d' % i for i in range(1, 21)]
        UNITS = {p: units_of(p) for p in ALL}
        s = json.load(open(W + '/survivors.json'))
        random.shuffle(s)
        missed = []

        def job(m):
            r, errs = with_dir(q, m, noticed)
            print(('HIT ' if r else 'MISS'), m[0], m[1], repr(m[2]), '->', repr(m[3]), r or '', errs if not r else '')
            sys.stdout.flush()
            if not r:
                missed.append(m[:4] + [errs])
                json.dump(missed, open(W + '/missed.json', 'w'), indent=0)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(job, s))
        print(len(s), 'survivors', len(missed), 'missed')
