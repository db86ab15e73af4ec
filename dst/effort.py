"""Count the work done inside of library calls and operators, which executed lines do not show.

The modules of the package are compiled with calls, slices, membership tests, concatenations and displays wrapped: every wrapper does what the
original expression does and adds the number of elements it had to touch.  The counts are exact and repeatable, unlike measured times.  Lines
keep their numbers and functions keep their names; nothing is written to disk.
"""

import ast
import importlib.abc
import importlib.machinery
import operator
import sys
import types

import collections

N = 0  # elements touched so far
PREFIX = "pyGCodeDecode"
FREE = 4  # vectors cost nothing

_C_CALLABLE = (types.BuiltinFunctionType, types.MethodDescriptorType, types.MethodWrapperType, types.WrapperDescriptorType,
               types.ClassMethodDescriptorType)
# builtins which do not touch the elements of their arguments
_CONSTANT = {"len", "isinstance", "issubclass", "type", "id", "iter", "next", "enumerate", "zip", "map", "filter", "reversed", "range", "getattr",
             "hasattr", "setattr", "callable", "hash", "append", "pop", "get", "setdefault", "add", "discard", "items", "keys", "values", "insort",
             "bool", "object", "property", "staticmethod", "classmethod", "popleft", "appendleft", "float", "int", "islice", "chain"}
# methods which touch the elements of their own object
_OWN = {"count", "index", "insert", "remove", "copy", "sort", "reverse", "split", "rsplit", "splitlines", "replace", "find", "rfind", "partition",
        "rpartition", "tolist", "astype", "sum", "max", "min", "mean", "argsort", "flatten", "union", "intersection", "difference", "issubset"}
_SIZED = (list, tuple, set, frozenset, dict, collections.deque)


def size(o):
    if isinstance(o, _SIZED):
        n = len(o)
    elif isinstance(o, (str, bytes, bytearray)):
        n = len(o) // 32
    elif type(o).__module__ == "numpy" and hasattr(o, "size"):
        n = int(o.size)
    else:
        return 0
    return n if n > FREE else 0


def _call(f, *args, **kw):
    global N
    name = getattr(f, "__name__", "")
    if name not in _CONSTANT:
        own = getattr(f, "__self__", None)
        outside = isinstance(f, _C_CALLABLE) or not (getattr(f, "__module__", None) or "").startswith(PREFIX)
        if outside:
            n = sum(map(size, args)) + sum(map(size, kw.values()))
            if name in _OWN and own is not None and not isinstance(own, types.ModuleType):
                n += size(own)
            if name == "insert" and args and args[0] == len(own):
                n -= size(own)
            N += n
    elif name == "pop" and args and isinstance(f.__self__, list) and isinstance(args[0], int):
        N += size(f.__self__[args[0]:]) if args[0] >= 0 else 0
    return f(*args, **kw)


def _in(a, b):
    global N
    if isinstance(b, (list, tuple, collections.deque, str)):
        N += size(b)
    return a in b


def _sub(o, i):
    global N
    r = o[i]
    if isinstance(i, slice):
        N += size(r)
    elif type(o).__module__.startswith("numpy.lib"):
        N += size(r)
    return r


def _add(a, b):
    global N
    r = a + b
    N += size(r)
    return r


def _iadd(a, b):
    global N
    was = isinstance(a, (list, collections.deque))
    r = operator.iadd(a, b)
    N += size(b) if was else size(r)
    return r


def _new(r):
    global N
    N += size(r)
    return r


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class _Wrap(ast.NodeTransformer):
    KEEP = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}

    def _make(self, node, f, *args, keywords=()):
        return ast.copy_location(ast.Call(func=_name(f), args=list(args), keywords=list(keywords)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.KEEP:
            return node
        return self._make(node, "__effort_call__", node.func, *node.args, keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return node
        r = self._make(node, "__effort_in__", node.left, node.comparators[0])
        return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), node) if isinstance(node.ops[0], ast.NotIn) else r

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_name("slice"), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple(elts=[self._index(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return self._make(node, "__effort_sub__", node.value, self._index(node.slice)) if isinstance(node.ctx, ast.Load) else node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return self._make(node, "__effort_add__", node.left, node.right) if isinstance(node.op, ast.Add) else node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(node.op, ast.Add) and (isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            load = ast.Name(id=t.id, ctx=ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(value=_name(t.value.id), attr=t.attr, ctx=ast.Load())
            return ast.copy_location(ast.Assign(targets=[t], value=self._make(node, "__effort_iadd__", load, node.value)), node)
        return node

    def _display(self, node):
        self.generic_visit(node)
        return self._make(node, "__effort_new__", node)

    def visit_List(self, node):
        many = isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts)
        return self._display(node) if many else self.generic_visit(node) or node

    visit_Tuple = visit_List

    def visit_Dict(self, node):
        return self._display(node) if None in node.keys else self.generic_visit(node) or node

    def visit_JoinedStr(self, node):
        return self._display(node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)  # (the format specification stays a string display)
        return node

    def visit_MatchValue(self, node):
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = _Wrap().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(__effort_call__=_call, __effort_in__=_in, __effort_sub__=_sub, __effort_add__=_add, __effort_iadd__=_iadd,
                               __effort_new__=_new)
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PREFIX and not fullname.startswith(PREFIX + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    """Instrument the package when it is imported; must be called before."""
    assert PREFIX not in sys.modules
    sys.meta_path.insert(0, _Finder())
