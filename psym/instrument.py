"""Load the real source with its calls, subscripts, membership tests and
f-strings routed through psym.models, so that proxies flow through unchanged
program text.  Nothing else of the source is altered."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import models

SRC = os.environ.get("PSYM_REPO_SRC", "/repo/src")

HELPERS = {
    "_ps_call": models.ps_call,
    "_ps_callm": models.ps_callm,
    "_ps_getitem": models.ps_getitem,
    "_ps_setitem": models.ps_setitem,
    "_ps_in": models.ps_in,
    "_ps_not_in": models.ps_not_in,
    "_ps_mod": models.ps_mod,
    "_ps_fstr": models.ps_fstr,
    "_ps_set": models.ps_set,
    "_ps_dict": models.ps_dict,
    "_ps_spread": models.SPREAD,
    "_ps_enter": models.ps_enter,
}

LEAVE = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "breakpoint"}


def name(n):
    return ast.Name(n, ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, record=True):
        self.modname, self.record = modname, record
        self.classes = []
        self.quals = []

    def mangle(self, attr):
        if self.classes and attr.startswith("__") and not attr.endswith("__"):
            return "_" + self.classes[-1].lstrip("_") + attr
        return attr

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.classes.append(node.name)
        self.quals.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.classes.pop()
        self.quals.pop()
        return node

    def _func(self, node):
        self.quals.append(node.name)
        ann = (node.returns, [a.annotation for a in self._args(node)])
        node.returns = None
        for a in self._args(node):
            a.annotation = None
        self.generic_visit(node)
        node.returns = ann[0]
        for a, x in zip(self._args(node), ann[1]):
            a.annotation = x
        if self.record:
            i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str) else 0
            call = ast.Expr(ast.Call(name("_ps_enter"), [ast.Constant(self.modname + ":" + ".".join(self.quals))], []))
            node.body.insert(i, ast.copy_location(call, node.body[0]))
        self.quals.pop()
        return node

    @staticmethod
    def _args(node):
        a = node.args
        return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in LEAVE:
                return node
            new = ast.Call(name("_ps_call"), [f] + node.args, node.keywords)
        elif isinstance(f, ast.Attribute):
            new = ast.Call(name("_ps_callm"), [f.value, ast.Constant(self.mangle(f.attr))] + node.args, node.keywords)
        else:
            new = ast.Call(name("_ps_call"), [f] + node.args, node.keywords)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            h = "_ps_in" if isinstance(node.ops[0], ast.In) else "_ps_not_in"
            return ast.copy_location(ast.Call(name(h), [node.left, node.comparators[0]], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
                return node
            return ast.copy_location(ast.Call(name("_ps_getitem"), [node.value, _slice(node.slice)], []), node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            val = self.visit(node.value)
            obj, key = self.visit(t.value), _slice(self.visit(t.slice))
            return ast.copy_location(ast.Expr(ast.Call(name("_ps_setitem"), [obj, key, val], [])), node)
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(name("_ps_mod"), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                if isinstance(spec, ast.JoinedStr):
                    spec = self.visit_JoinedStr(spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(name("_ps_fstr"), parts, []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(name("_ps_set"), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(name("_ps_set"), [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        elts = [ast.Tuple([name("_ps_spread") if k is None else k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.Call(name("_ps_dict"), [ast.List(elts, ast.Load())], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(name("_ps_dict"), [lc], []), node)


def _slice(s):
    if isinstance(s, ast.Slice):
        c = lambda x: x if x is not None else ast.Constant(None)
        return ast.Call(name("slice"), [c(s.lower), c(s.upper), c(s.step)], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_slice(e) for e in s.elts], ast.Load())
    return s


def rewrite(source, filename, modname, record=True):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


_code = {}


class Loader(importlib.abc.Loader):
    def __init__(self, modname, path, record):
        self.modname, self.path, self.record = modname, path, record

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        key = self.modname
        if key not in _code:
            with open(self.path, encoding="utf-8") as f:
                _code[key] = rewrite(f.read(), self.path, self.modname, self.record)
        module.__dict__.update(HELPERS)
        exec(_code[key], module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> (dir, record)

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base, record = self.roots[top]
        p = os.path.join(base, *fullname.split("."))
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(fullname, init, loader=Loader(fullname, init, record), submodule_search_locations=[p])
            return None
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_file_location(fullname, p + ".py", loader=Loader(fullname, p + ".py", record))
        return None


def install(roots):
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f


def load_shadow(modname):
    real = importlib.import_module(modname)
    with open(real.__file__, encoding="utf-8") as f:
        code = rewrite(f.read(), real.__file__, modname, record=False)
    m = types.ModuleType("psym_shadow_" + modname.replace(".", "_"))
    m.__file__ = real.__file__
    m.__dict__.update(HELPERS)
    exec(code, m.__dict__)
    # results must be instances of the real result types
    for n in ("ParseResult", "SplitResult", "DefragResult"):
        if hasattr(real, n):
            setattr(m, n, getattr(real, n))
    return m


def purge(prefixes=("psion",)):
    for n in [n for n in sys.modules if n.split(".")[0] in prefixes]:
        del sys.modules[n]
