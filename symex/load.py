"""Load pylogit's current source for symbolic execution.

The source files are read from /repo on every run, parsed, and executed under
an alias package name.  The only rewriting is at points where CPython/numpy
would force a symbolic value to be concrete: imports of numpy/scipy are bound
to the stand-ins of shims.py, and `.astype`, `int()`, `float()`,
`isinstance()`, `.kind`, dict subscripts and `in` go through helpers.
"""
import ast
import importlib
import os
import sys
import types

from . import shims
from . import term as T

SRC = os.environ.get('VERIF_SRC', '/repo/src/pylogit')


def _call(name, args, keywords=()):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args),
                    keywords=list(keywords))


class Rewriter(ast.NodeTransformer):
    def visit_Import(self, n):
        out = []
        for a in n.names:
            top = a.asname is None
            tgt = a.asname or a.name.split('.')[0]
            out.append(ast.Assign(
                targets=[ast.Name(id=tgt, ctx=ast.Store())],
                value=_call('_SX_import', [ast.Constant(a.name),
                                            ast.Constant(top)])))
        return out

    def visit_ImportFrom(self, n):
        if n.module == '__future__':
            return ast.Pass()
        out = []
        for a in n.names:
            if a.name == '*':
                out.append(ast.Expr(ast.Call(
                    func=ast.Attribute(value=_call('globals', []),
                                       attr='update', ctx=ast.Load()),
                    args=[_call('_SX_star', [ast.Constant(n.level),
                                              ast.Constant(n.module)])],
                    keywords=[])))
                continue
            out.append(ast.Assign(
                targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                value=_call('_SX_from', [ast.Constant(n.level),
                                          ast.Constant(n.module),
                                          ast.Constant(a.name)])))
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'astype':
            return _call('_SX_astype', [f.value] + n.args, n.keywords)
        if isinstance(f, ast.Attribute) and f.attr == 'isin' and \
                len(n.args) == 1 and not n.keywords:
            return _call('_SX_isin', [f.value] + n.args)
        if isinstance(f, ast.Name) and f.id in ('int', 'float',
                                                'isinstance') and n.args:
            return _call('_SX_' + f.id, n.args, n.keywords)
        return n

    def visit_Attribute(self, n):
        own = n.value.value if isinstance(n.value, ast.Attribute) and \
            n.value.attr == 'dtype' else None
        self.generic_visit(n)
        if n.attr == 'kind' and isinstance(n.ctx, ast.Load):
            if own is not None:
                return _call('_SX_kind_of', [n.value.value])
            return _call('_SX_kind', [n.value])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        s = n.slice
        if type(s).__name__ == 'Index':
            s = s.value
        if isinstance(s, ast.Slice) or type(s).__name__ == 'ExtSlice':
            return n
        if isinstance(s, ast.Tuple):
            return n
        return _call('_SX_getitem', [n.value, s])

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return _call('_SX_in' if isinstance(n.ops[0], ast.In)
                         else '_SX_not_in', [n.left, n.comparators[0]])
        return n

    def visit_AnnAssign(self, n):
        n.annotation = ast.Constant(None)
        return self.generic_visit(n)

    def visit_arg(self, n):
        n.annotation = None
        return n


class Package(object):
    """One symbolically executable copy of the pylogit package."""

    def __init__(self, world, alias='sympylogit', src=None):
        self.alias = alias
        self.src = src or SRC
        self.world = world
        self.np = shims.NP(world)
        self.scipy = shims.ScipyNS(world)
        self.mods = {}
        self.files = {}

    def external(self, name):
        if name == 'numpy':
            return self.np
        if name.startswith('numpy.'):
            o = self.np
            for p in name.split('.')[1:]:
                o = getattr(o, p)
            return o
        if name == 'scipy':
            return self.scipy
        if name.startswith('scipy.'):
            o = self.scipy
            for p in name.split('.')[1:]:
                o = getattr(o, p)
            return o
        if name == 'tqdm' or name.startswith('tqdm.'):
            return types.SimpleNamespace(
                tqdm=lambda x=None, *a, **k: x,
                tqdm_notebook=lambda x=None, *a, **k: x,
                trange=lambda n, *a, **k: range(n),
                auto=types.SimpleNamespace(tqdm=lambda x=None, *a, **k: x))
        if name == 'time':
            return types.SimpleNamespace(
                time=lambda: 0.0, strftime=lambda *a: '',
                perf_counter=lambda: 0.0, sleep=lambda *a: None)
        if name == 'pylogit' or name.startswith('pylogit.'):
            return self.module(name[8:])
        return importlib.import_module(name)

    def module(self, name):
        """name relative to the package; '' is the package itself"""
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(self.src, *(name.split('.') if name else []))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            raise ImportError('no module %s in pylogit' % name)
        full = self.alias + ('.' + name if name else '')
        m = types.ModuleType(full)
        m.__file__ = path
        self.mods[name] = m
        with open(path) as f:
            text = f.read()
        self.files[path] = text
        tree = Rewriter().visit(ast.parse(text, path))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        is_pkg = path.endswith('__init__.py')
        parts = name.split('.') if name else []
        pkgparts = parts if is_pkg else parts[:-1]

        def resolve(level, module):
            base = pkgparts[:len(pkgparts) - (level - 1)]
            return '.'.join(base + (module.split('.') if module else []))

        def sx_import(nm, top):
            o = self.external(nm)
            return self.external(nm.split('.')[0]) if top else o

        def sx_from(level, module, nm):
            if level == 0:
                o = self.external(module)
                if hasattr(o, nm):
                    return getattr(o, nm)
                try:
                    return self.external(module + '.' + nm)
                except (ImportError, AttributeError):
                    raise ImportError('cannot import %s from %s' %
                                      (nm, module))
            rel = resolve(level, module)
            parent = self.module(rel)
            if hasattr(parent, nm):
                return getattr(parent, nm)
            return self.module((rel + '.' if rel else '') + nm)

        def sx_star(level, module):
            o = self.external(module) if level == 0 else \
                self.module(resolve(level, module))
            names = getattr(o, '__all__', None) or [
                k for k in vars(o) if not k.startswith('_')]
            return {k: getattr(o, k) for k in names}

        g = m.__dict__
        g['_SX_import'] = sx_import
        g['_SX_from'] = sx_from
        g['_SX_star'] = sx_star
        for k in ('astype', 'int', 'float', 'kind', 'getitem', 'in',
                  'not_in', 'isinstance', 'isin', 'kind_of'):
            g['_SX_' + k] = getattr(shims, 'h_' + k)
        try:
            exec(code, g)
        except BaseException:
            del self.mods[name]
            raise
        if name:
            parent = '.'.join(parts[:-1])
            if parent in self.mods or parent == '':
                p = self.mods.get(parent)
                if p is not None:
                    setattr(p, parts[-1], m)
        return m
