"""
Import hook for the code under check.

The modules are compiled from /repo's current source with the string operations that C code performs on raw buffers
(%-formatting, f-strings, methods of string constants) routed through the engine, `re` replaced by rx, and a probe at
the start of every function that records which functions a run executed symbolically. Nothing else is changed.
"""

import ast
import importlib.abc
import importlib.machinery
import os
import re
import sys

from . import rx, symstr
from .base import CONSTANTS
from .symstr import SymStr

FUNCTIONS = set()
CALLS = [0, 1 << 60, None]   # calls so far on this path, their limit, and what is raised beyond

STR_METHODS = {
    'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'split', 'join', 'format', 'replace',
    'find', 'index', 'partition', 'rpartition', 'removeprefix', 'count', 'isspace', 'casefold', 'rsplit',
}


def sx_probe(name):
    FUNCTIONS.add(name)
    CALLS[0] += 1
    if CALLS[0] > CALLS[1]:
        raise CALLS[2]('%d calls on one path' % CALLS[1])


def sx_mod(a, b):
    if isinstance(a, str):
        return symstr.mod(a, b)
    return a % b


def sx_fstr(*parts):
    out = ''
    for p in parts:
        out = out + p if out else p
    return symstr.resym(out)


def sx_fmt(value, conv, spec):
    if conv == 115:
        value = str(value)
    elif conv == 114:
        value = repr(value)
    elif conv == 97:
        value = ascii(value)
    if isinstance(value, SymStr):
        return value if not spec else format(value, spec)
    return format(value, spec)


def sx_meth(obj, name, *args, **kwargs):
    if type(obj) is str:
        if name == 'join' and args:
            return symstr.join(obj, args[0])
        if name == 'format' and any(symstr._has_sym(a) for a in (*args, *kwargs.values())):
            return symstr.resym(obj.format(*args, **kwargs))
        if any(isinstance(a, SymStr) for a in args):
            return getattr(_lift(obj), name)(*args, **kwargs)
    return getattr(obj, name)(*args, **kwargs)


def _lift(s):
    out = str.__new__(SymStr, s)
    out._chars = tuple(map(ord, s))
    out._name = None
    return out


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.path = [module]
        self.used = False

    def _scope(self, node):
        self.path.append(node.name)
        self.generic_visit(node)
        if not isinstance(node, ast.ClassDef):
            probe = ast.Expr(ast.Call(ast.Name('sx_probe_', ast.Load()), [ast.Constant('.'.join(self.path))], []))
            at = 1 if (node.body and isinstance(node.body[0], ast.Expr)
                       and isinstance(node.body[0].value, ast.Constant)
                       and isinstance(node.body[0].value.value, str)) else 0
            ast.copy_location(probe, node.body[0])
            ast.fix_missing_locations(probe)
            node.body.insert(at, probe)
        self.path.pop()
        return node

    visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = _scope

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(ast.Name('sx_mod_', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                args.append(ast.Call(
                    ast.Name('sx_fmt_', ast.Load()), [self.visit(v.value), ast.Constant(v.conversion), spec], []))
            else:
                args.append(v)
        return ast.copy_location(ast.Call(ast.Name('sx_fstr_', ast.Load()), args, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in STR_METHODS:
            return ast.copy_location(ast.Call(
                ast.Name('sx_meth_', ast.Load()),
                [node.func.value, ast.Constant(node.func.attr), *node.args], node.keywords), node)
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == 're':
                out.append(ast.Assign(
                    [ast.Name(a.asname or 're', ast.Store())], ast.Name('sx_re_', ast.Load())))
            else:
                out.append(ast.Import([a]))
        return [ast.copy_location(n, node) for n in out]

    def visit_ImportFrom(self, node):
        if node.module == 're' and not node.level:
            return [ast.copy_location(ast.Assign(
                [ast.Name(a.asname or a.name, ast.Store())],
                ast.Attribute(ast.Name('sx_re_', ast.Load()), a.name, ast.Load())), node) for a in node.names]
        return node

    # annotations and patterns are not executed as expressions that matter
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


HELPERS = {'sx_probe_': sx_probe, 'sx_mod_': sx_mod, 'sx_fstr_': sx_fstr, 'sx_fmt_': sx_fmt,
           'sx_meth_': sx_meth, 'sx_re_': rx}


def name_constants(tree):
    """String constants of a module that could be names of elements or attributes."""
    docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
    return {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs
            and re.fullmatch(r'(\{[^{}]*\})?[A-Za-z_][\w.:-]*', n.value)}


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'constants.txt')


def known_constants():
    with open(KNOWN) as f:
        return set(f.read().split())


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        CONSTANTS.update(name_constants(tree) - known_constants())
        tree = Rewriter(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(HELPERS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root = root
        self.package = package

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + '.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, [self.root] if fullname == self.package else path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(root, package):
    for f in sys.meta_path:
        if isinstance(f, Finder) and f.package == package:
            return
    if not os.path.isdir(os.path.join(root, package)):
        raise ImportError(f'{package} not found in {root}')
    sys.meta_path.insert(0, Finder(root, package))
