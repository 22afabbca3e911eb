"""Loads lenstronomy from /repo's working tree for symbolic execution.

Mechanical extraction, done on every run, from the source files as they are on disk.  The
transformation of a module's syntax tree is:
  * float literals  ->  exact constants with the literal's decimal value
  * a / b           ->  __lv_div(a, b)        (int/int gives the exact quotient)
  * float(..), int(..), complex(..), round(..), isinstance(..) calls -> symbolic-aware versions
  * z.real, z.imag  ->  symbolic-aware accessors (reading and assigning)
and, after the module body has run, the names bound to numpy, scipy.special and math are rebound to
lv.shim.  numba is switched off (NUMBA_DISABLE_JIT).  Nothing else is changed or dropped:
statements, control flow, loops, attribute accesses and calls are executed by CPython as written.
"""
import ast
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
from . import shim

REPO = os.environ.get("LV_REPO", "/repo")


class Tr(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float and n.value == n.value and abs(n.value) != float("inf"):
            return ast.copy_location(
                ast.Call(ast.Name("lv__E", ast.Load()), [ast.Constant(repr(n.value))], []), n
            )
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("lv__div", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("float", "int", "complex", "round", "isinstance"):
            n.func = ast.copy_location(ast.Name("lv__" + n.func.id, ast.Load()), n.func)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in ("real", "imag") and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("lv__part", ast.Load()), [n.value, ast.Constant(n.attr)], []), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Attribute) and t.attr in ("real", "imag"):
            c = ast.Call(ast.Name("lv__setpart", ast.Load()), [t.value, ast.Constant(t.attr), n.value], [])
            return ast.copy_location(ast.Expr(c), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_FunctionDef(self, n):
        # annotations are left alone
        n.body = [self.visit(b) for b in n.body]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        return n


FILES = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        FILES[path] = fullname
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(shim.BUILTINS)
        super().exec_module(module)
        shim.patch_namespace(module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "lenstronomy" and not name.startswith("lenstronomy."):
            return None
        rel = name.replace(".", "/")
        base = os.path.join(REPO, rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, fn, loader=Loader(name, fn), submodule_search_locations=[base]
            )
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(name, fn))
        return None


def install():
    import importlib.util  # noqa

    os.environ["NUMBA_DISABLE_JIT"] = "1"
    shim.patch_scipy()
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def install_plain():
    """normal import of lenstronomy from REPO (float world)"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # an editable install of lenstronomy must not shadow REPO
    sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in getattr(f, "__module__", "") and "__editable__" not in repr(f)]
