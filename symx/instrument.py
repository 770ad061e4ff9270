"""Loads Python source with the operations of symx.ops substituted, in a private module namespace."""

import ast
import builtins
import importlib
import os
import sys
import types

from . import ops

REPO = os.environ.get('CDTB_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LEAVE = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__', 'staticmethod', 'classmethod', 'property'}


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), node), args, []), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in LEAVE:
            self.generic_visit(node)
            return node
        if isinstance(node.func, ast.Call) and isinstance(node.func.func, ast.Name) and node.func.func.id == 'super':
            self.generic_visit(node)
            return node
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call) \
                and isinstance(node.func.value.func, ast.Name) and node.func.value.func.id == 'super':
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        new = ast.Call(ast.copy_location(ast.Name('_sx_call', ast.Load()), node), [node.func] + node.args, node.keywords)
        return ast.copy_location(new, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('_sx_mod', [node.left, node.right], node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call('_sx_not', [node.operand], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(node.target.id, ast.Load()), node)
            return ast.copy_location(ast.Assign([node.target], self._call('_sx_mod', [load, node.value], node)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self._call('_sx_in', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return self._call('_sx_notin', [node.left, node.comparators[0]], node)
        return node

    def _index(self, s, node):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.copy_location(ast.Call(ast.Name('_sx_slice', ast.Load()), [s.lower or none, s.upper or none, s.step or none], []), node)
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts):
                return node
            return self._call('_sx_getitem', [node.value, self._index(node.slice, node)], node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                if v.format_spec is None:
                    spec = ast.Constant('')
                else:
                    spec = self.visit(v.format_spec)
                args.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                args.append(v)
        return ast.fix_missing_locations(self._call('_sx_fstr', args, node))

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return ast.fix_missing_locations(self._call('_sx_dict', items, node))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('_sx_set', node.elts, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.fix_missing_locations(self._call('_sx_dictcomp', [ast.copy_location(gen, node)], node))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(node.elt, node.generators)
        return ast.fix_missing_locations(self._call('_sx_setcomp', [ast.copy_location(gen, node)], node))

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        self.scope.append(node.name)
        body = [self.visit(s) for s in node.body]
        name = ast.Constant(f"{self.modname}.{'.'.join(self.scope)}")
        self.scope.pop()
        enter = ast.Expr(ast.Call(ast.Name('_sx_enter', ast.Load()), [name], []))
        k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        at = body[k] if k < len(body) else node
        ast.copy_location(enter, at)
        ast.fix_missing_locations(enter)
        node.body = body[:k] + [enter] + body[k:]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_Match(self, node):
        # patterns hold Constant/Attribute nodes that must not be rewritten
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node


ENTERED = set()
OPS = {
    '_sx_call': ops.call,
    '_sx_mod': ops.mod,
    '_sx_not': ops.unary_not,
    '_sx_in': ops.contains,
    '_sx_notin': ops.notcontains,
    '_sx_getitem': ops.getitem,
    '_sx_slice': slice,
    '_sx_fstr': ops.fstr,
    '_sx_dict': ops.mkdict,
    '_sx_set': ops.mkset,
    '_sx_dictcomp': ops.dictcomp,
    '_sx_setcomp': ops.sxset,
    '_sx_enter': ENTERED.add,
}

_code_cache = {}


def get_code(path, modname, instrument):
    key = (path, instrument)
    if key not in _code_cache:
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        if instrument:
            tree = Transformer(modname).visit(tree)
            ast.fix_missing_locations(tree)
        _code_cache[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _code_cache[key]


STDLIB = os.path.dirname(os.__file__)
STDLIB_LOADED = {'posixpath': 'posixpath.py', 'genericpath': 'genericpath.py', 'glob': 'glob.py', 'fnmatch': 'fnmatch.py'}


class World:
    """A private set of modules: those under test, and models of their environment"""

    def __init__(self, symbolic, overrides, builtin_overrides):
        self.symbolic = symbolic
        self.modules = {}
        self.overrides = overrides
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self.import_
        self.builtins.update(builtin_overrides)

    def locate(self, name):
        """(path, is_package) of a module loaded from source here"""
        if name == 'cdtb' or name.startswith('cdtb.'):
            base = os.path.join(REPO, *name.split('.'))
        elif name == 'harness' or name.startswith('harness.'):
            base = os.path.join(HERE, *name.split('.'))
        elif name in STDLIB_LOADED:
            return os.path.join(STDLIB, STDLIB_LOADED[name]), False
        else:
            return None
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        loc = self.locate(name)
        if loc is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        path, is_pkg = loc
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if is_pkg else parent
        if is_pkg:
            mod.__path__ = [os.path.dirname(path)]
        mod.__dict__['__builtins__'] = self.builtins
        if self.symbolic:
            mod.__dict__.update(OPS)
        self.modules[name] = mod
        try:
            exec(get_code(path, name, self.symbolic), mod.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent], name.rpartition('.')[2], mod)
        return mod

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = f"{pkg}.{name}" if name else pkg
        if name in self.overrides:
            mod = self.overrides[name]
            if mod is None:
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            if not fromlist and '.' in name:
                return self.overrides[name.partition('.')[0]]
            return mod
        if self.locate(name) is not None:
            mod = self.load(name)
            if not fromlist:
                return self.modules[name.partition('.')[0]]
            for sub in fromlist:
                if sub != '*' and not hasattr(mod, sub) and hasattr(mod, '__path__'):
                    if self.locate(f"{name}.{sub}") is not None:
                        m = self.load(f"{name}.{sub}")
                        if not hasattr(mod, sub):
                            setattr(mod, sub, m)  # circular import
            return mod
        top = name.partition('.')[0]
        if top == 'cdtb':
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return builtins.__import__(name, None, None, fromlist, 0)
