"""Mechanical extraction: real function object of /repo -> its AST, read from the source file on every run.

What is dropped: docstrings, comments, type annotations and decorators other than property/staticmethod/
classmethod (any other decorator makes the function Unsupported).  Nothing is rewritten."""
import ast
import functools
import inspect
import types

_files = {}


def file_defs(fname):
    if fname not in _files:
        with open(fname, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, fname)
        defs = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                lines = [n.lineno]
                if isinstance(n, ast.FunctionDef):
                    lines += [d.lineno for d in n.decorator_list]
                for l in lines:
                    defs.setdefault((l, getattr(n, 'name', '<lambda>')), n)
        _files[fname] = (src, tree, defs)
    return _files[fname]


@functools.lru_cache(maxsize=None)
def fn_ast(fn):
    code = fn.__code__
    src, tree, defs = file_defs(code.co_filename)
    node = defs.get((code.co_firstlineno, code.co_name))
    if node is None:
        raise KeyError('no AST for %s at %s:%d' % (fn.__qualname__, code.co_filename, code.co_firstlineno))
    return node


class LocalsVisitor(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def _comp(self, n):
        # comprehension targets are local to the comprehension; only the first iterable is evaluated outside
        pass

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


@functools.lru_cache(maxsize=None)
def local_names(node):
    v = LocalsVisitor()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        v.names.add(x.arg)
    if a.vararg:
        v.names.add(a.vararg.arg)
    if a.kwarg:
        v.names.add(a.kwarg.arg)
    if isinstance(node, ast.FunctionDef):
        for s in node.body:
            v.visit(s)
    return frozenset(v.names - v.globals)


@functools.lru_cache(maxsize=None)
def stored_names(node):
    """names bound inside a loop body (incl. the target)"""
    v = LocalsVisitor()
    for s in node.body:
        v.visit(s)
    if isinstance(node, ast.For):
        v.visit(node.target)
    return frozenset(v.names)


@functools.lru_cache(maxsize=None)
def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def find_owner(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k, k.__dict__[name]
    return None, None
