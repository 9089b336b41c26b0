"""Loads Python modules from source with the few constructs rewritten that
CPython would otherwise decide behind the engine's back:

  f(x)            -> _pc0_call(f, x)        builtins and library calls are modelled
  a in b          -> _pc0_in(a, b)
  a is b          -> _pc0_is(a, b)
  {k: v}, {.. for ..} -> _pc0_dict([...])   dictionaries that accept symbolic keys
  {a, b}, {.. for ..} -> _pc0_set([...])  sets that accept symbolic elements and keep their order
  except:         -> engine control flow is let through

Everything else runs as it is.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__", "breakpoint"}


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_pc0_call", ctx=ast.Load()), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            fn = "_pc0_in"
        elif isinstance(op, (ast.Is, ast.IsNot)):
            c = node.comparators[0]
            if isinstance(c, ast.Constant) and c.value is None:
                return node
            fn = "_pc0_is"
        else:
            return node
        call = ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
        if isinstance(op, (ast.NotIn, ast.IsNot)):
            call = ast.UnaryOp(op=ast.Not(), operand=call)
        return ast.copy_location(call, node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            elts.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_pc0_dict", ctx=ast.Load()),
                     args=[ast.List(elts=elts, ctx=ast.Load())], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_pc0_dict", ctx=ast.Load()), args=[lc], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_pc0_set", ctx=ast.Load()),
                     args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_pc0_set", ctx=ast.Load()), args=[lc], keywords=[]), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None
        if isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            broad = True
        if broad:
            node.body.insert(0, ast.Expr(ast.Call(func=ast.Name(id="_pc0_reraise", ctx=ast.Load()), args=[], keywords=[])))
        return node

    # annotations stay as they are
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        ret, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = ret
        return node

    visit_AsyncFunctionDef = visit_FunctionDef


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


_CODE = {}


def code_for(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(key)
    if c is None:
        with open(path, encoding="utf-8") as f:
            c = _CODE[key] = transform(f.read(), path)
    return c


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import hooks
        hooks.inject(module.__dict__)
        exec(code_for(self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Finds package `name` under `root` and loads it instrumented."""

    def __init__(self, name, root):
        self.name = name
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.name and not fullname.startswith(self.name + "."):
            return None
        rel = fullname.replace(".", os.sep)
        base = os.path.join(self.root, rel)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if not os.path.exists(init):
                return None
            spec = importlib.machinery.ModuleSpec(fullname, Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            spec = importlib.machinery.ModuleSpec(fullname, Loader(base + ".py"), origin=base + ".py")
        else:
            return None
        spec.has_location = True
        return spec


def install(name, root):
    for f in sys.meta_path:
        if isinstance(f, Finder) and f.name == name:
            return
    sys.meta_path.insert(0, Finder(name, root))


def purge(name):
    for m in [m for m in sys.modules if m == name or m.startswith(name + ".")]:
        del sys.modules[m]
