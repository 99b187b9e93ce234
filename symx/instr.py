"""AST rewriting of the code under test and the import hook that applies it."""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import models

RAW_CALLS = {"super", "locals", "globals", "exec", "eval", "vars", "dir",
             "compile", "__import__"}


class Rewriter(ast.NodeTransformer):
    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _mk(self, fn, args, node):
        c = ast.Call(func=self._name(fn), args=args, keywords=[])
        return ast.fix_missing_locations(ast.copy_location(c, node))

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in RAW_CALLS:
            self.generic_visit(node)
            if node.func.id in ("eval", "compile", "exec") and node.args:
                node.args[0] = self._mk("_sx_conc", [node.args[0]], node)
                if node.func.id != "compile":
                    for i in range(1, len(node.args)):
                        node.args[i] = self._mk("_sx_ns", [node.args[i]], node)
            return node
        self.generic_visit(node)
        c = ast.Call(func=self._name("_sx_call"),
                     args=[node.func] + node.args, keywords=node.keywords)
        return ast.fix_missing_locations(ast.copy_location(c, node))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._mk("_sx_in", [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                c = self._mk("_sx_not", [c], node)
            return c
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._mk("_sx_not", [node.operand], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._mk("_sx_mod", [node.left, node.right], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if sys.version_info < (3, 9) and isinstance(sl, ast.Index):
                sl = sl.value
            if isinstance(sl, ast.Slice):
                return node          # SymStr handles slices natively
            return self._mk("_sx_get", [node.value, sl], node)
        if isinstance(node.slice, ast.Slice):
            return node
        node.value = self._mk("_sx_sub", [node.value], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            # x %= y  ->  x = _sx_mod(x, y) for simple names
            if isinstance(node.target, ast.Name):
                load = ast.Name(id=node.target.id, ctx=ast.Load())
                a = ast.Assign(targets=[node.target],
                               value=self._mk("_sx_mod", [load, node.value], node))
                return ast.fix_missing_locations(ast.copy_location(a, node))
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                conv = ast.Constant(value=chr(v.conversion)
                                    if v.conversion and v.conversion > 0 else "")
                spec = self.visit(v.format_spec) if v.format_spec else \
                    ast.Constant(value="")
                parts.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return self._mk("_sx_fstr", parts, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._mk("_sx_set", [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return self._mk("_sx_set", [ast.copy_location(lc, node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value],
                                        ctx=ast.Load()),
                          generators=node.generators)
        return self._mk("_sx_dict", [ast.copy_location(lc, node)], node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or any(k is None for k in node.keys) or all(
                isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                               for k, v in zip(node.keys, node.values)],
                         ctx=ast.Load())
        return self._mk("_sx_dict", [pairs], node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or (
            isinstance(node.type, ast.Name) and node.type.id == "BaseException")
        if broad:
            call = ast.Expr(value=ast.Call(func=self._name("_sx_ctl"), args=[],
                                           keywords=[]))
            node.body.insert(0, ast.fix_missing_locations(
                ast.copy_location(call, node.body[0])))
        return node

    # annotations and decorators stay as they are
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def _is_cache(d):
    if isinstance(d, ast.Call):
        d = d.func
    n = d.id if isinstance(d, ast.Name) else (
        d.attr if isinstance(d, ast.Attribute) else None)
    return n in ("lru_cache", "cache", "_cache")


def caches(tree, drop):
    """functools caches hash and compare their arguments in native code: leave
    them out of the standard library, and use a model elsewhere."""
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out = []
            for d in node.decorator_list:
                if _is_cache(d):
                    if drop:
                        continue
                    d = ast.copy_location(ast.Name(id="_sx_lru_cache",
                                                   ctx=ast.Load()), d)
                out.append(d)
            node.decorator_list = out


def rewrite(source, filename, drop_caches=False):
    tree = ast.parse(source, filename)
    caches(tree, drop_caches)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


LOADED = {}       # module name -> (filename, sha1 of the source)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        LOADED[fullname] = (path, hashlib.sha1(src).hexdigest())
        models._INSTR_FILES.add(path)
        return rewrite(src, path, fullname in STDLIB)


STDLIB = {
    "ipaddress", "email", "email._parseaddr", "email.utils", "email.header",
    "html.parser", "_markupbase", "urllib.parse", "email.message",
    "email.feedparser", "email._policybase", "email.parser",
    "email._encoded_words", "email.quoprimime", "email.base64mime",
    "email.charset", "email.encoders", "email.generator",
    "email.iterators",
}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, stdlib, prefixes):
        self.stdlib = stdlib
        self.prefixes = prefixes

    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        if top not in self.prefixes and name not in self.stdlib:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(stdlib=(), prefixes=("oa", "harness")):
    models.install()
    for n in stdlib:
        sys.modules.pop(n, None)
        # parent packages keep a reference
    sys.meta_path.insert(0, Finder(set(stdlib), set(prefixes)))
    sys.setrecursionlimit(20000)
