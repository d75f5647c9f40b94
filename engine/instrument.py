"""Load /repo's bayes_optim package with every call/operator of interest routed through engine.rt.

The source is read from /repo at import time; only the AST is rewritten:
  f(a)      -> _vrt_.call(f, a)          o[i]      -> _vrt_.getitem(o, i)
  a < b     -> _vrt_.cmp('<', a, b)      o[i] = v  -> _vrt_.setitem(o, i, v)
  a in b    -> _vrt_.contains(a, b)      x += v    -> x = _vrt_.iop('+', x, v)
  f"..."    -> _vrt_.fstr(...)           x.dtype   -> _vrt_.getattr_dtype(x)
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
_KEEP = {"super", "eval", "exec", "locals", "globals", "vars", "dir", "__import__", "property", "staticmethod", "classmethod"}
_BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
_CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def _rt(name):
    return ast.Attribute(ast.Name("_vrt_", ast.Load()), name, ast.Load())


def _c(name, *args):
    return ast.Call(_rt(name), list(args), [])


class Tr(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        return self.generic_visit(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        simple = isinstance(n.target, (ast.Name, ast.Attribute, ast.Subscript))
        if simple:
            new = ast.Assign([n.target], n.value)
            ast.copy_location(new, n)
            return self.visit_Assign(new)
        n.value = self.visit(n.value)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in _KEEP:
            n.args = [self.visit(a) for a in n.args]
            n.keywords = [self.visit(k) for k in n.keywords]
            return n
        self.generic_visit(n)
        return ast.copy_location(ast.Call(_rt("call"), [n.func] + n.args, n.keywords), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(_c("mkset", ast.List(n.elts, ast.Load())), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(_c("mkset", ast.ListComp(n.elt, n.generators)), n)

    def _sl(self, s):
        """slice expression as a value"""
        if isinstance(s, ast.Slice):
            none = lambda v: v if v is not None else ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [none(s.lower), none(s.upper), none(s.step)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._sl(e) for e in s.elts], ast.Load())
        return s

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_c("getitem", n.value, self._sl(n.slice)), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr == "dtype":
            return ast.copy_location(_c("getattr_dtype", n.value), n)
        return n

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            o, i = self.visit(t.value), self.visit(t.slice)
            return ast.copy_location(ast.Expr(_c("setitem", o, self._sl(i), n.value)), n)
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def visit_AugAssign(self, n):
        op = ast.Constant(_BIN[type(n.op)])
        v = self.visit(n.value)
        t = n.target
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign([t], _c("iop", op, ast.Name(t.id, ast.Load()), v)), n)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            ld = ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr, ast.Load())
            return ast.copy_location(ast.Assign([t], _c("iop", op, ld, v)), n)
        if isinstance(t, ast.Subscript):
            o, i = self.visit(t.value), self.visit(t.slice)
            return ast.copy_location(ast.Expr(_c("augitem", o, self._sl(i), op, v)), n)
        n.value = v
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_c("binmod", n.left, n.right), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        o = n.ops[0]
        if type(o) in _CMP:
            return ast.copy_location(_c("cmp", ast.Constant(_CMP[type(o)]), n.left, n.comparators[0]), n)
        if isinstance(o, ast.In):
            return ast.copy_location(_c("contains", n.left, n.comparators[0]), n)
        if isinstance(o, ast.NotIn):
            return ast.copy_location(_c("contains", n.left, n.comparators[0], ast.Constant(True)), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(_c("fstr", *parts), n)

    def visit_Match(self, n):
        return n


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimization=-1):
        tree = ast.parse(data, path)
        tree = Tr().visit(tree)
        # from __future__ imports must stay first
        k = 0
        for i, s in enumerate(tree.body):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and i == 0:
                k = i + 1
            elif isinstance(s, ast.ImportFrom) and s.module == "__future__":
                k = i + 1
        imp = ast.ImportFrom("engine", [ast.alias("rt", "_vrt_")], 0)
        tree.body.insert(k, imp)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "bayes_optim":
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install():
    sys.meta_path.insert(0, Finder())
