"""Load the modules of /repo/auxi for symbolic execution.

The source text is read from the working tree on every run.  A handful of
syntactic call sites that CPython sends straight into C (float(x), int(x),
type(x), "..." % x) are redirected to helpers that know symbolic values, and
`math`, `numpy`, `datetime` and `scipy.optimize` are replaced by shims.  The
control flow and the arithmetic of the module are executed as written.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys
import types

from . import core, shims, symjson, symtext

REPO = os.environ.get('VERIF_REPO', '/repo')


class Rewriter(ast.NodeTransformer):
    NAMES = {'float': '__sx_float__', 'int': '__sx_int__', 'type': '__sx_type__'}

    def visit_Call(self, node):
        isi = isinstance(node.func, ast.Name) and \
            node.func.id in ('isinstance', 'issubclass')
        if isinstance(node.func, ast.Name) and node.func.id in self.NAMES \
                and not (node.func.id == 'type' and len(node.args) != 1):
            node.func.id = self.NAMES[node.func.id]
        if not isi:
            for i, a in enumerate(node.args):
                if isinstance(a, ast.Name) and a.id in ('float', 'int'):
                    a.id = self.NAMES[a.id]
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and \
                node.func.attr in ('join', 'format'):
            return self.wrap(node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self.wrap(node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node

    @staticmethod
    def wrap(node):
        return ast.copy_location(
            ast.Call(ast.Name('__sx_text__', ast.Load()), [node], []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(ast.Name('__sx_mod__', ast.Load()),
                         [node.left, node.right], []), node)
        return node


_CONV = re.compile(r'%(?:\((\w+)\))?[-#0 +]*(?:\d+|\*)?(?:\.(?:\d+|\*))?'
                   r'[hlL]?([a-zA-Z%])')


def sx_mod(a, b):
    """a % b, where the text of a symbolic number is its token."""
    if not isinstance(a, str):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if isinstance(b, dict) or not any(core.is_sym(x) for x in args):
        return symtext.wrap(a % b)
    i = -1

    def one(m):
        nonlocal i
        if m.group(2) == '%':
            return m.group(0)
        i += 1
        return '%s' if i < len(args) and core.is_sym(args[i]) else m.group(0)
    return symtext.wrap(_CONV.sub(one, a) % tuple(
        core.E.token_for(x) if core.is_sym(x) else x for x in args))


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        b = dict(builtins.__dict__)
        b.update(BUILTINS)
        module.__dict__['__builtins__'] = b
        exec(self.get_code(module.__name__), module.__dict__)


_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        s = shims.MODULES.get(name)
        if s is not None:
            s = s()
            if fromlist or '.' not in name:
                return s
    return _real_import(name, globals, locals, fromlist, level)


BUILTINS = {'__import__': sx_import, '__sx_float__': shims.sx_float,
            '__sx_int__': shims.sx_int, '__sx_type__': shims.sx_type,
            '__sx_mod__': sx_mod, '__sx_text__': symtext.wrap}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'auxi' and not name.startswith('auxi.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        for fn, pkg in ((os.path.join(base, '__init__.py'), True),
                        (base + '.py', False)):
            if os.path.isfile(fn):
                return importlib.util.spec_from_file_location(
                    name, fn, loader=Loader(name, fn),
                    submodule_search_locations=[base] if pkg else None)
        return None


def install():
    for k in list(sys.modules):
        if k == 'auxi' or k.startswith('auxi.'):
            raise RuntimeError('auxi is already imported')
    sys.dont_write_bytecode = True
    symjson.install()
    sys.meta_path.insert(0, Finder())
