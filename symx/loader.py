"""Loads the current source of /repo/anticipy into the symbolic process.

The source is parsed on every run; calls of the builtins float/int/max/min are redirected to symbolic-aware versions and
each function records that it was entered.  Nothing else in the code changes: it runs under the normal interpreter.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

import numpy as np
import pandas as pd

from . import patches

REPO = os.environ.get('SYMX_REPO', '/repo')
ENTERED = {}
BUILTINS = {'float': patches.sym_float, 'int': patches.sym_int, 'max': patches.sym_max, 'min': patches.sym_min,
            'float64': patches.sym_float64}


class T(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in BUILTINS and node.func.id != 'float64':
            node.func = ast.copy_location(ast.Name(id='__sx_' + node.func.id + '__', ctx=ast.Load()), node.func)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('float64', 'float_') and isinstance(
                node.func.value, ast.Name) and node.func.value.id in ('np', 'numpy') and len(node.args) == 1:
            node.func = ast.copy_location(ast.Name(id='__sx_float64__', ctx=ast.Load()), node.func)
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        q = self.mod + '.' + '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        call = ast.Expr(ast.Call(func=ast.Name(id='__sx_enter__', ctx=ast.Load()), args=[ast.Constant(q)], keywords=[]))
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
            getattr(node.body[0], 'value', None), ast.Constant) and isinstance(node.body[0].value.value, str) else 0
        node.body.insert(i, ast.copy_location(call, node.body[0]))
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


def _enter(q):
    ENTERED[q] = ENTERED.get(q, 0) + 1


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = T(self.name.split('.')[-1]).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        for n, f in BUILTINS.items():
            module.__dict__['__sx_' + n + '__'] = f
        module.__dict__['__sx_enter__'] = _enter
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'anticipy' and not name.startswith('anticipy.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, [REPO] if name == 'anticipy' else path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        spec.loader = Loader(name, spec.origin)
        return spec


_done = False


def load():
    """Import the repository modules with symbolic support."""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    patches.install()
    sys.meta_path.insert(0, Finder())
    import importlib
    mods = [importlib.import_module('anticipy.' + n) for n in
            ('model_utils', 'forecast_models', 'forecast', 'forecast_plot')]
    npx, pdx = patches.make_np_proxy(), patches.make_pd_proxy()
    cls = {}
    for n in ('DatetimeIndex', 'Timestamp', 'Timedelta'):
        cls[getattr(pd, n)] = getattr(pdx, n)
    for name, m in list(sys.modules.items()):
        if name.startswith('anticipy'):
            for k, v in list(m.__dict__.items()):
                if v is np:
                    m.__dict__[k] = npx
                elif v is pd:
                    m.__dict__[k] = pdx
                elif isinstance(v, type) and v in cls:
                    m.__dict__[k] = cls[v]
    return mods


def load_plain():
    """Import the repository modules unmodified (replay process)."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib
    for n in ('model_utils', 'forecast_models', 'forecast', 'forecast_plot'):
        importlib.import_module('anticipy.' + n)
