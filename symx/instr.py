"""Loads /repo's current gitdb sources with calls, subscripts, formatting and loops
routed through the symbolic runtime.  The rewriting is purely syntactic and keeps the
meaning of the program: with concrete operands every helper does what Python does."""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('GITDB_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SKIP_CALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__'}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.functions = []
        self.stack = []

    # ---- names
    def _n(self, name, node):
        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)

    def _call(self, name, args, node, keywords=()):
        return ast.copy_location(ast.Call(func=self._n(name, node), args=args, keywords=list(keywords)), node)

    def _fn(self, node):
        self.stack.append(node.name)
        self.functions.append('.'.join(self.stack))
        q = '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        mark = ast.Expr(self._call('__sx_enter__', [ast.copy_location(ast.Constant(q), node)], node))
        ast.copy_location(mark, node.body[0])
        # keep the docstring first
        i = 1 if (isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                  and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(i, mark)
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALL:
            return node
        return self._call('__sx_call__', [node.func] + node.args, node, node.keywords)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.copy_location(ast.Constant(None), s)
            return self._call('slice', [none(s.lower), none(s.upper), none(s.step)], s)
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call('__sx_get__', [node.value, self._slice(node.slice)], node)
        return node

    def visit_Assign(self, node):
        # single subscript target with a possibly symbolic index
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            val = self.visit(node.value)
            obj = self.visit(t.value)
            idx = self._slice(self.visit(t.slice))
            return ast.copy_location(ast.Expr(self._call('__sx_set__', [obj, idx, val], node)), node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            obj = self.visit(t.value)
            idx = self._slice(self.visit(t.slice))
            val = self.visit(node.value)
            op = ast.copy_location(ast.Constant(type(node.op).__name__), node)
            return ast.copy_location(ast.Expr(self._call('__sx_aug__', [obj, idx, op, val], node)), node)
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            load = ast.copy_location(ast.Name(node.target.id, ast.Load()), node) if isinstance(node.target, ast.Name) \
                else None
            if load is not None:
                return ast.copy_location(ast.Assign([node.target], self._call('__sx_mod__', [load, node.value], node)), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self._call('__sx_in__', [node.left, node.comparators[0]], node)
                if isinstance(op, ast.NotIn):
                    return ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
                return c
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) \
                    and isinstance(node.comparators[0].value, bool):
                c = self._call('__sx_is__', [node.left, node.comparators[0]], node)
                if isinstance(op, ast.IsNot):
                    return ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
                return c
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self._call('__sx_dict__', [node], node)

    def visit_DictComp(self, node):
        # keys may be symbolic: build from pairs
        self.generic_visit(node)
        pair = ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node)
        gen = ast.copy_location(ast.ListComp(pair, node.generators), node)
        return self._call('__sx_dict__', [gen], node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.copy_location(ast.Constant(''), node)
                parts.append(ast.copy_location(ast.Tuple(
                    [v.value, ast.copy_location(ast.Constant(v.conversion), node), spec], ast.Load()), node))
        return self._call('__sx_fstr__', [ast.copy_location(ast.List(parts, ast.Load()), node)], node)

    def _loop(self, node):
        self.generic_visit(node)
        t = ast.copy_location(ast.Expr(self._call('__sx_tick__', [], node)), node)
        node.body.insert(0, t)
        return node

    visit_While = _loop

    def visit_For(self, node):
        # for loops of a harness are bounded by construction
        if self.harness:
            self.generic_visit(node)
            return node
        return self._loop(node)

    def visit_AnnAssign(self, node):
        # leave annotations alone
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import models
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        rw = Rewriter()
        rw.harness = self.name.startswith('harness')
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        g = module.__dict__
        g.update(models.RUNTIME)
        rel = os.path.relpath(self.path, REPO)
        g['__sx_enter__'] = lambda q, _r=rel: models.enter(_r, q)
        SOURCES[rel] = (self.path, rw.functions)
        exec(code, g)


SOURCES = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] == 'gitdb':
            base = os.path.join(REPO, *name.split('.'))
        elif name.startswith('harness'):
            base = os.path.join(VERIF, *name.split('.'))
        else:
            return None
        for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(p):
                spec = importlib.util.spec_from_file_location(
                    name, p, loader=Loader(name, p),
                    submodule_search_locations=[base] if pkg else None)
                return spec
        return None


def install():
    """make 'import gitdb' load the instrumented current source"""
    for p in ('/opt/venv/lib/python3.12/site-packages',):
        if p not in sys.path:
            sys.path.append(p)
    for n in [n for n in sys.modules if n == 'gitdb' or n.startswith('gitdb.')]:
        del sys.modules[n]
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
    import gitdb  # noqa
    return gitdb
