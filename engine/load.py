"""Imports infi.instruct from the repository's working tree through the transformation."""
import ast
import collections.abc
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import transform, rt

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
SITE = ['/opt/venv/lib/python3.12/site-packages']
DROPPED = []            # modules not transformed


class Loader(importlib.abc.Loader):
    def __init__(self, path, modname, pkg):
        self.path, self.modname, self.pkg = path, modname, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read().decode('utf-8')
        short = self.modname[len('infi.instruct'):].lstrip('.') or '__init__'
        tree = transform.transform(src, self.path, short)
        code = compile(tree, self.path, 'exec')
        module.__dict__['__rt__'] = rt
        exec(code, module.__dict__)
        if short == '_compat':
            patch_compat(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'infi.instruct' and not name.startswith('infi.instruct.'):
            return None
        rel = name.split('.')[2:]
        base = os.path.join(SRC, 'infi', 'instruct', *rel)
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name, True),
                                                              submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name, False))
        return None


def helper(name):
    """a module of the engine, transformed like the code under contract"""
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py')
    with open(path) as f:
        tree = transform.transform(f.read(), path, 'engine.' + name)
    module = types.ModuleType(name)
    module.__dict__['__rt__'] = rt
    exec(compile(tree, path, 'exec'), module.__dict__)
    return module


def patch_compat(module):
    """collections.abc.Sequence / MutableSequence with their mixin methods rewritten like the repository's code"""
    import _collections_abc
    with open(_collections_abc.__file__) as f:
        tree = ast.parse(f.read())
    out = []
    for node in tree.body:
        if isinstance(node, ast.ClassDef) and node.name in ('Sequence', 'MutableSequence'):
            node.decorator_list = []
            body = []
            for s in node.body:
                if isinstance(s, ast.FunctionDef) and any(ast.unparse(d) == 'abstractmethod' for d in s.decorator_list):
                    continue
                if isinstance(s, ast.FunctionDef):
                    body.append(s)
            node.body = body
            node.bases = [ast.parse('__orig__.' + node.name, mode='eval').body]
            if node.name == 'MutableSequence':
                node.bases.insert(0, ast.Name('Sequence', ast.Load()))
            out.append(node)
    t = transform.Transformer('_collections_abc')
    mod = ast.Module(body=transform.flat([t.visit(n) for n in out]), type_ignores=[])
    ast.fix_missing_locations(mod)
    ns = {'__orig__': collections.abc, '__rt__': rt, '__name__': '_collections_abc_verif'}
    exec(compile(mod, _collections_abc.__file__, 'exec'), ns)
    abc = types.ModuleType('abc_verif')
    abc.__dict__.update({k: getattr(collections.abc, k) for k in collections.abc.__all__})
    abc.Sequence, abc.MutableSequence = ns['Sequence'], ns['MutableSequence']
    if getattr(module, 'abc', None) is not None:
        module.abc = abc


_installed = []


def install():
    if _installed:
        return
    _installed.append(1)
    import site
    for s in SITE:
        site.addsitedir(s)
    # drop any entry that would import the repository untransformed
    for k in [k for k in sys.modules if k == 'infi.instruct' or k.startswith('infi.instruct.')]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder())
    sys.setrecursionlimit(20000)
    import infi.instruct  # noqa
