"""AST rewriting of the repository's modules so that they can run on symbolic values.

What is rewritten (inside functions, except where noted):
  f(args)            -> __rt__.call(f, args)            so builtins can accept symbolic arguments
  a[b] (load)        -> __rt__.getitem(a, b)            dict/list/tuple lookups with symbolic keys
  x in c             -> __rt__.contains(c, x)
  s % args           -> __rt__.mod(s, args)             string formatting of symbolic values
  [..], [.. for ..]  -> __rt__.mklist / __rt__.comp     lists that can have unknown length
  (.. for ..)        -> __rt__.comp
  for / while        -> the same loop with a head that can be cut by an invariant
  x.a = v            -> the same, followed by a note for the frame check
  except:            -> except Exception:               (the engine's own signals pass through)
  class C(list)      -> class C(__rt__.ListBase)        (module level)
  generator function -> function returning a recorded sequence of the yielded values
Nothing else changes; names, control flow and evaluation order are kept.
"""
import ast

NOCALL = {'super', 'locals', 'vars', 'globals', 'dir', 'eval', 'exec'}


def _rt(name):
    return ast.Attribute(ast.Name('__rt__', ast.Load()), name, ast.Load())


def _call(fn, *args):
    return ast.Call(_rt(fn), list(args), [])


def _simple(e):
    return isinstance(e, ast.Name) or (isinstance(e, ast.Attribute) and _simple(e.value))


def _load(e):
    e = ast.parse(ast.unparse(e), mode='eval').body
    return e


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.startswith('__'):
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


class _HasYield(ast.NodeVisitor):
    def __init__(self):
        self.found = False
        self.expr = False

    def visit_Yield(self, node):
        self.found = True

    def visit_YieldFrom(self, node):
        self.found = True

    def visit_FunctionDef(self, node):
        pass

    visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef


def has_yield(stmts):
    v = _HasYield()
    for s in stmts:
        v.visit(s)
    return v.found


class _LoopCtl(ast.NodeVisitor):
    """break/continue/return belonging to the given statements"""
    def __init__(self):
        self.found = False

    def visit_Break(self, node):
        self.found = True

    visit_Continue = visit_Return = visit_Break

    def visit_FunctionDef(self, node):
        pass

    visit_Lambda = visit_FunctionDef


def has_ctl(stmts):
    v = _LoopCtl()
    for s in stmts:
        v.visit(s)
    return v.found


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []          # qualified name parts
        self.func = 0            # function nesting depth
        self.tmp = 0
        self.loopno = [0]
        self.ingen = [False]

    # -- scopes
    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        f, self.func = self.func, 0
        node.bases = [ast.copy_location(_rt('ListBase'), b) if isinstance(b, ast.Name) and b.id == 'list' else b
                      for b in node.bases]
        node.body = [self.visit(s) for s in node.body]
        node.body = flat(node.body)
        self.func = f
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        self.func += 1
        self.loopno.append(0)
        gen = has_yield(node.body)
        self.ingen.append(gen)
        # default values and decorators are evaluated outside: leave them alone
        node.body = flat([self.visit(s) for s in node.body])
        if gen:
            inner = ast.FunctionDef(
                name='__gen_body__',
                args=ast.arguments(posonlyargs=[], args=[ast.arg('__y')], vararg=None, kwonlyargs=[], kw_defaults=[],
                                   kwarg=None, defaults=[]),
                body=node.body, decorator_list=[], returns=None, type_params=[])
            # parameters assigned in the body must stay those of the function
            params = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
            if node.args.vararg:
                params.add(node.args.vararg.arg)
            if node.args.kwarg:
                params.add(node.args.kwarg.arg)
            nl = [n for n in assigned(node.body) if n in params]
            if nl:
                inner.body = [ast.Nonlocal(nl)] + inner.body
            node.body = [inner, ast.Return(_call('gen', ast.Name('__gen_body__', ast.Load())))]
        self.ingen.pop()
        self.loopno.pop()
        self.func -= 1
        self.scope.pop()
        return node

    def visit_Lambda(self, node):
        self.func += 1
        self.scope.append('<lambda>')
        node.body = self.visit(node.body)
        self.scope.pop()
        self.func -= 1
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL and not node.args:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL - {'super'}:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if not self.func:
            return node
        if len(node.args) == 1 and isinstance(node.args[0], ast.Starred):
            return ast.copy_location(ast.Call(_rt('callstar'), [node.func, node.args[0].value], node.keywords), node)
        return ast.copy_location(ast.Call(_rt('call'), [node.func] + node.args, node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.func or not isinstance(node.ctx, ast.Load):
            return node
        sl = node.slice
        sl = self._slice(sl)
        return ast.copy_location(_call('getitem', node.value, sl), node)

    def _slice(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(_rt('mkslice'), [sl.lower or none, sl.upper or none, sl.step or none], [])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in sl.elts], ast.Load())
        return sl

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.func:
            return node
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _call('contains', node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.func and isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('mod', node.left, node.right), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if not self.func or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(_call('mklist', node), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.func or any(k is None for k in node.keys):
            return node
        pairs = ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())
        return ast.copy_location(_call('mkdict', pairs), node)

    def _comp(self, node, kind):
        self.generic_visit(node)
        if not self.func or len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if kind == 'dict':
            elt = ast.Tuple([node.key, node.value], ast.Load())
        else:
            elt = node.elt
        cond = None
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(_args([g.target.id]), body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(_args([e.id for e in g.target.elts]), body)
                return ast.Lambda(_args(['__t']), ast.Call(inner, [ast.Starred(ast.Name('__t', ast.Load()), ast.Load())], []))
            return None
        l1 = lam(elt)
        if l1 is None:
            return node
        l2 = lam(cond) if cond is not None else ast.Constant(None)
        return ast.copy_location(_call('comp', l1, g.iter, l2, ast.Constant(kind)), node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    # -- statements
    def visit_Expr(self, node):
        if self.func and isinstance(node.value, ast.Yield):
            v = self.visit(node.value.value) if node.value.value is not None else ast.Constant(None)
            return ast.copy_location(ast.Expr(ast.Call(ast.Name('__y', ast.Load()), [v], [])), node)
        if self.func and isinstance(node.value, ast.YieldFrom):
            v = self.visit(node.value.value)
            return ast.copy_location(ast.Expr(_call('yield_from', ast.Name('__y', ast.Load()), v)), node)
        self.generic_visit(node)
        return node

    def visit_Yield(self, node):
        raise SyntaxError('yield used as an expression is outside the supported subset')

    visit_YieldFrom = visit_Yield

    def _notes(self, targets):
        out = []
        for t in targets:
            if isinstance(t, ast.Attribute) and _simple(t.value):
                out.append(ast.Expr(_call('note', _load(t.value), ast.Constant(t.attr))))
            elif isinstance(t, ast.Subscript) and _simple(t.value):
                out.append(ast.Expr(_call('note', _load(t.value), ast.Constant('[]'))))
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                out.append(ast.Expr(_call('note', ast.Constant(None), ast.Constant('?'))))
            elif isinstance(t, (ast.Tuple, ast.List)):
                out.extend(self._notes(t.elts))
        return out

    def visit_Assign(self, node):
        notes = self._notes(node.targets) if self.func else []
        self.generic_visit(node)
        return [node] + [ast.copy_location(n, node) for n in notes] if notes else node

    def visit_AugAssign(self, node):
        notes = self._notes([node.target]) if self.func else []
        self.generic_visit(node)
        if self.func and isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            node = ast.copy_location(ast.Assign([node.target], _call('mod', ast.Name(node.target.id, ast.Load()), node.value)), node)
        return [node] + [ast.copy_location(n, node) for n in notes] if notes else node

    def visit_AnnAssign(self, node):
        notes = self._notes([node.target]) if self.func else []
        self.generic_visit(node)
        return [node] + notes if notes else node

    def visit_Delete(self, node):
        notes = self._notes(node.targets) if self.func else []
        self.generic_visit(node)
        return [node] + [ast.copy_location(n, node) for n in notes] if notes else node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body = flat(node.body)
        if node.type is None:
            node.type = ast.Name('Exception', ast.Load())
        return node

    def _head(self, names):
        out = []
        for n in names:
            out.append(ast.If(
                test=ast.Call(ast.Attribute(ast.Name(self._lv, ast.Load()), 'has', ast.Load()), [ast.Constant(n)], []),
                body=[ast.Assign([ast.Name(n, ast.Store())],
                                 ast.Call(ast.Attribute(ast.Name(self._lv, ast.Load()), 'get', ast.Load()), [ast.Constant(n)], []))],
                orelse=[]))
        return out

    def _key(self):
        i = self.loopno[-1]
        self.loopno[-1] += 1
        return '%s.%s:%d' % (self.modname, '.'.join(self.scope), i)

    def visit_For(self, node):
        if not self.func:
            self.generic_visit(node)
            return node
        if has_ctl(node.orelse):
            raise SyntaxError('control transfer in the else clause of a loop')
        key = self._key()
        names = assigned(node.body + [ast.Assign([node.target], ast.Constant(None))])
        raw_body = node.body
        gen = self.ingen[-1] and has_yield(raw_body)
        if gen and not has_ctl(raw_body) and not node.orelse and isinstance(node.target, ast.Name):
            # a loop that yields: its body becomes a function of the element, so that the k-th value can be recomputed
            self.loopno[-1] = self.loopno[-1]
            it = self.visit(node.iter)
            body = flat([self.visit(s) for s in raw_body])
            self.tmp += 1
            fname = '__yl_%d' % self.tmp
            fn = ast.FunctionDef(name=fname, args=_args(['__y', node.target.id]), body=body, decorator_list=[],
                                 returns=None, type_params=[])
            carried = _carried(raw_body, node.target.id)
            call = ast.Expr(_call('genloop', ast.Name('__y', ast.Load()), it, ast.Name(fname, ast.Load()),
                                  ast.Constant(key)))
            if not carried:
                return [ast.copy_location(fn, node), ast.copy_location(call, node)]
            node.iter = it
            return self._for(node, key, names, it, body)
        it = self.visit(node.iter)
        body = flat([self.visit(s) for s in raw_body])
        return self._for(node, key, names, it, body)

    def _for(self, node, key, names, it, body):
        orelse = flat([self.visit(s) for s in node.orelse])
        self.tmp += 1
        lv = self._lv = '__l_%d' % self.tmp
        L = lambda m, *a: ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), m, ast.Load()), list(a), [])
        head = self._head(names)
        loc = ast.Call(ast.Name('locals', ast.Load()), [], [])
        stmts = [ast.Assign([ast.Name(lv, ast.Store())],
                            _call('loop', it, ast.Constant(key), ast.Constant(tuple(names)))),
                 ast.While(test=L('head', loc),
                           body=head + [ast.If(ast.UnaryOp(ast.Not(), L('advance')), orelse + [ast.Break()], []),
                                        ast.Assign([node.target], L('item'))] + body,
                           orelse=[])]
        return [ast.copy_location(s, node) for s in stmts]

    def visit_While(self, node):
        if not self.func:
            self.generic_visit(node)
            return node
        if has_ctl(node.orelse):
            raise SyntaxError('control transfer in the else clause of a loop')
        key = self._key()
        names = assigned(node.body)
        test = self.visit(node.test)
        body = flat([self.visit(s) for s in node.body])
        orelse = flat([self.visit(s) for s in node.orelse])
        self.tmp += 1
        lv = self._lv = '__l_%d' % self.tmp
        L = lambda m, *a: ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), m, ast.Load()), list(a), [])
        loc = ast.Call(ast.Name('locals', ast.Load()), [], [])
        stmts = [ast.Assign([ast.Name(lv, ast.Store())], _call('wloop', ast.Constant(key), ast.Constant(tuple(names)))),
                 ast.While(test=L('head', loc),
                           body=self._head(names) + [ast.If(ast.UnaryOp(ast.Not(), test), orelse + [ast.Break()], [])]
                           + body, orelse=[])]
        return [ast.copy_location(s, node) for s in stmts]

    def visit_If(self, node):
        self.generic_visit(node)
        node.body = flat(node.body)
        node.orelse = flat(node.orelse)
        return node

    def visit_With(self, node):
        self.generic_visit(node)
        node.body = flat(node.body)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        node.body, node.orelse, node.finalbody = flat(node.body), flat(node.orelse), flat(node.finalbody)
        return node


def _carried(body, target):
    """names assigned in the body and possibly read before assignment (loop-carried)"""
    names = [n for n in assigned(body) if n != target]
    if not names:
        return False
    # conservative: a name is not carried when its first occurrence at the top level of the body is a plain assignment
    seen = set()
    for s in body:
        loads = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        if isinstance(s, ast.Assign):
            loads = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
        if any(n in names and n not in seen for n in loads):
            return True
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id not in seen:
            return True
        seen.update(assigned([s]))
    return False


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[],
                         kwarg=None, defaults=[])


def flat(stmts):
    out = []
    for s in stmts:
        if isinstance(s, list):
            out.extend(s)
        elif s is not None:
            out.append(s)
    return out


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    t = Transformer(modname)
    tree.body = flat([t.visit(s) for s in tree.body])
    ast.fix_missing_locations(tree)
    return tree
