"""Loads /repo/datashape as the instrumented package `sxds` (source rewritten in
memory from the current working tree on every run) next to the ordinary
`datashape` package used for native runs and replays.  Harness modules are
loaded the same way, once instrumented and once native."""
import ast
import importlib
import importlib.abc
import importlib.util
import os
import sys

from . import models
from .engine import Abort

SKIP_CALLS = {'super', 'globals', 'locals', 'vars', 'dir', 'eval', 'exec', '__import__'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, rename):
        self.rename = rename        # {'datashape': 'sxds'}
        self.functions = []
        self.stack = []

    def name(self, n, ref):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), ref)

    def mkcall(self, fn, args, ref, keywords=None):
        c = ast.Call(func=self.name(fn, ref), args=args, keywords=keywords or [])
        return ast.copy_location(c, ref)

    # -- imports -------------------------------------------------------
    def visit_Import(self, node):
        for a in node.names:
            top = a.name.split('.')[0]
            if top in self.rename:
                if a.asname is None:
                    a.asname = top
                    if '.' in a.name:
                        # import datashape.x  binds the top package
                        a.name = self.rename[top] + a.name[len(top):]
                        a.asname = None
                        new = ast.Assign(targets=[ast.Name(id=top, ctx=ast.Store())],
                                         value=ast.Name(id=self.rename[top], ctx=ast.Load()))
                        return [node, ast.copy_location(new, node)]
                a.name = self.rename[top] + a.name[len(top):]
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module:
            top = node.module.split('.')[0]
            if top in self.rename:
                node.module = self.rename[top] + node.module[len(top):]
        return node

    # -- definitions ---------------------------------------------------
    def _def(self, node):
        self.stack.append(node.name)
        self.functions.append('.'.join(self.stack))
        node.decorator_list = [self.mkcall('__sx_deco__', [self.visit(d)], d)
                               for d in node.decorator_list]
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [None if d is None else self.visit(d) for d in args.kw_defaults]
        node.body = self._body(node.body)
        self.stack.pop()
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _def
    visit_AsyncFunctionDef = _def

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.mkcall('__sx_deco__', [self.visit(d)], d)
                               for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.body = self._body(node.body)
        self.stack.pop()
        return node

    # -- expressions ---------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        for k in node.keywords:
            if k.arg is None:
                k.value = self.mkcall('__sx_kw__', [k.value], k.value)
        new = ast.Call(func=self.name('__sx_call__', node),
                       args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self.mkcall('__sx_contains__', [node.comparators[0], node.left], node)
                if isinstance(op, ast.NotIn):
                    c = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
                return c
            return node
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            # a in b in c ...: evaluate pairwise through temporaries
            parts = []
            left = node.left
            for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
                tmp = '__sx_t%d' % i
                last = i == len(node.ops) - 1
                r = right if last else ast.NamedExpr(
                    target=ast.Name(id=tmp, ctx=ast.Store()), value=right)
                if isinstance(op, (ast.In, ast.NotIn)):
                    e = ast.Call(func=ast.Name(id='__sx_rcontains__', ctx=ast.Load()),
                                 args=[left, r], keywords=[])
                    if isinstance(op, ast.NotIn):
                        e = ast.UnaryOp(op=ast.Not(), operand=e)
                else:
                    e = ast.Compare(left=left, ops=[op], comparators=[r])
                parts.append(e)
                left = ast.Name(id=tmp, ctx=ast.Load())
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.mkcall('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self.mkcall('__sx_mod__', [load, node.value], node)), node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(value=chr(v.conversion) if v.conversion != -1 else None)
                if v.format_spec is None:
                    spec = ast.Constant(value='')
                else:
                    spec = self.visit(v.format_spec)
                args.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
        return self.mkcall('__sx_fstr__', args, node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self.mkcall('__sx_dict__', [node] if not node.keys or all(
            k is not None and isinstance(k, ast.Constant) for k in node.keys) else
            [self._pairs(node)], node)

    def _pairs(self, node):
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Starred(value=ast.Call(
                    func=ast.Name(id='__sx_items__', ctx=ast.Load()), args=[v], keywords=[]),
                    ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(ast.List(elts=elts, ctx=ast.Load()), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.mkcall('__sx_set__', [ast.copy_location(
            ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.mkcall('__sx_set__', [ast.copy_location(
            ast.ListComp(elt=node.elt, generators=node.generators), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        return self.mkcall('__sx_dict__', [ast.copy_location(
            ast.ListComp(elt=pair, generators=node.generators), node)], node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not self.in_annotation:
            sl = node.slice
            if isinstance(sl, ast.Constant):
                return node
            if isinstance(sl, ast.Slice):
                none = ast.Constant(value=None)
                sl = ast.Call(func=ast.Name(id='__sx_slice__', ctx=ast.Load()),
                              args=[sl.lower or none, sl.upper or none, sl.step or none],
                              keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred))
                                                   for e in sl.elts):
                return node
            return self.mkcall('__sx_getitem__', [node.value, sl], node)
        return node

    in_annotation = False

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    # -- exceptions ----------------------------------------------------
    def visit_Try(self, node):
        self.generic_visit(node)
        h = ast.ExceptHandler(type=ast.Name(id='__sx_abort__', ctx=ast.Load()), name=None,
                              body=[ast.Raise(exc=None, cause=None)])
        if node.handlers:
            node.handlers.insert(0, ast.copy_location(h, node))
        return node


HOOKS = {
    '__sx_call__': models.call,
    '__sx_contains__': models.contains,
    '__sx_rcontains__': lambda x, c: models.contains(c, x),
    '__sx_mod__': models.mod,
    '__sx_fstr__': models.fstr,
    '__sx_dict__': models.SxDict,
    '__sx_set__': models.SxSet,
    '__sx_kw__': lambda d: {models.concretise(k): d[k] for k in d} if isinstance(d, dict) else d,
    '__sx_items__': lambda d: list(d.items()),
    '__sx_slice__': slice,
    '__sx_getitem__': models.getitem,
    '__sx_deco__': models.deco,
    '__sx_abort__': Abort,
    models.MARK: True,
}

SOURCES = {}        # module name -> (path, [function names])


def instrument(source, filename, rename):
    tree = ast.parse(source, filename)
    rw = Rewriter(rename)
    # keep the docstring and __future__ imports in front
    tree.body = rw._body(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec'), rw.functions


class SxLoader(importlib.abc.Loader):
    def __init__(self, name, path, raw, rename):
        self.name, self.path, self.raw, self.rename = name, path, raw, rename

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        if self.raw:
            code = compile(src, self.path, 'exec')
            exec(code, module.__dict__)
            return
        code, fns = instrument(src, self.path, self.rename)
        SOURCES[self.name] = (self.path, fns)
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class SxFinder(importlib.abc.MetaPathFinder):
    def __init__(self, root, top, pkg):
        self.root, self.top, self.pkg = root, top, pkg

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.top and not fullname.startswith(self.top + '.'):
            return None
        parts = fullname.split('.')[1:]
        base = os.path.join(self.root, self.pkg, *parts)
        raw = parts[-1:] == ['_version']
        rename = {self.pkg: self.top}
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, p, loader=SxLoader(fullname, p, raw, rename),
                submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(
                fullname, p, loader=SxLoader(fullname, p, raw, rename))
        return None


def load_packages(repo='/repo', pkg='datashape', top='sxds'):
    """-> (instrumented package, native package)"""
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    native = importlib.import_module(pkg)
    if not os.path.abspath(native.__file__).startswith(os.path.abspath(repo) + os.sep):
        raise RuntimeError('native package comes from %s' % native.__file__)
    sys.meta_path.insert(0, SxFinder(repo, top, pkg))
    inst = importlib.import_module(top)
    for sub in ('util.testing', 'internal_utils', 'validation', 'type_symbol_table', 'lexer',
                'parser', 'error', 'discovery', 'promote', 'typesets', 'predicates', 'user',
                'coretypes', 'util', 'dispatch', 'py2help'):
        importlib.import_module(top + '.' + sub)
        importlib.import_module(pkg + '.' + sub)
    return inst, native


def load_harness(path, modname, ds, instrumented):
    """a fresh copy of a harness module bound to package `ds`"""
    import types
    with open(path, encoding='utf-8') as f:
        src = f.read()
    m = types.ModuleType(('sxh_' if instrumented else 'nat_') + modname)
    m.__file__ = path
    m.__dict__['ds'] = ds
    sys.modules[m.__name__] = m
    if instrumented:
        m.__dict__.update(HOOKS)
    common = os.path.join(os.path.dirname(path), '_common.py')
    files = [(path, src)]
    if os.path.exists(common):
        with open(common, encoding='utf-8') as f:
            files.insert(0, (common, f.read()))
    for p, text in files:
        if instrumented:
            code, _ = instrument(text, p, {})
        else:
            code = compile(text, p, 'exec')
        exec(code, m.__dict__)
    return m


# ----------------------------------------------------------------------
# module-level mutable state: snapshot and restore between paths
# ----------------------------------------------------------------------

class Snapshot(object):
    """every mutable container and instance dict reachable from the globals of
    the package's modules, restored to its import-time content before a path"""

    def __init__(self, top):
        import types
        self.items = []
        seen = set()
        mods = [m for n, m in list(sys.modules.items())
                if n == top or n.startswith(top + '.')]
        stack = []
        self.lru = []
        for m in mods:
            self.items.append(('names', m, {k: v for k, v in m.__dict__.items()
                                            if not k.startswith('__')}, None))
            for k, v in m.__dict__.items():
                if k.startswith('__sx') or k == '__builtins__':
                    continue
                stack.append((v, 0))
        while stack:
            o, d = stack.pop()
            if id(o) in seen or d > 8:
                continue
            seen.add(id(o))
            t = type(o)
            if isinstance(o, type):
                if getattr(o, '__module__', '').startswith(top):
                    self.items.append(('names', o, {k: v for k, v in o.__dict__.items()
                                                    if not k.startswith('__')}, None))
                    for k, v in list(o.__dict__.items()):
                        if isinstance(v, (dict, list, set)) and not k.startswith('__'):
                            stack.append((v, d + 1))
                        elif hasattr(v, 'cache_clear'):
                            self.lru.append(v)
                continue
            if hasattr(o, 'cache_clear') and hasattr(o, '__wrapped__'):
                self.lru.append(o)
                stack.append((o.__wrapped__, d))
                continue
            if isinstance(o, types.FunctionType):
                if getattr(o, '__module__', '') and o.__module__.startswith(top):
                    for c in (o.__closure__ or ()):
                        try:
                            stack.append((c.cell_contents, d + 1))
                        except ValueError:
                            pass
                    for v in (o.__defaults__ or ()):
                        stack.append((v, d + 1))
                    if o.__dict__:
                        stack.append((o.__dict__, d + 1))
                continue
            if isinstance(o, types.MethodType):
                stack.append((o.__self__, d + 1))
                continue
            if isinstance(o, dict):
                vals = [dict.__getitem__(o, k) for k in dict.keys(o)]
                self.items.append(('dict', o, dict(zip(dict.keys(o), vals)),
                                   list(o._sx) if isinstance(o, models._SxMap) else None))
                stack.extend((v, d + 1) for v in vals)
                stack.extend((k, d + 1) for k in dict.keys(o))
            elif isinstance(o, list):
                self.items.append(('list', o, list(o), None))
                stack.extend((v, d + 1) for v in o)
            elif isinstance(o, set):
                self.items.append(('set', o, set(set.__iter__(o)),
                                   list(o._sx) if isinstance(o, models._SxSetBase) else None))
            elif isinstance(o, tuple):
                stack.extend((v, d + 1) for v in o)
            elif getattr(t, '__module__', '').startswith(top) and hasattr(o, '__dict__'):
                slots = [(k, getattr(o, k)) for c in t.__mro__
                         for k in ([c.__dict__['__slots__']] if isinstance(
                             c.__dict__.get('__slots__', ()), str)
                             else c.__dict__.get('__slots__', ())) if hasattr(o, k)]
                if slots:
                    self.items.append(('slots', o, slots, None))
                    stack.extend((v, d + 1) for k, v in slots)
                self.items.append(('obj', o, dict(o.__dict__), None))
                stack.extend((v, d + 1) for v in list(o.__dict__.values()))

    def restore(self):
        for kind, o, saved, sx in self.items:
            if kind == 'names':
                now = o.__dict__
                for k, v in saved.items():
                    if now.get(k, self) is not v:
                        setattr(o, k, v)
                for k in [k for k, v in now.items() if k not in saved and
                          not k.startswith('__') and not isinstance(v, type(os))]:
                    delattr(o, k)
            elif kind == 'slots':
                for k, v in saved:
                    if getattr(o, k, self) is not v:
                        setattr(o, k, v)
            elif kind == 'dict':
                if sx is not None and o._sx:
                    o._sx = list(sx)
                elif dict.__len__(o) == len(saved):
                    same = True
                    for k in saved:
                        try:
                            if dict.__getitem__(o, k) is not saved[k]:
                                same = False
                                break
                        except KeyError:
                            same = False
                            break
                    if same:
                        continue
                dict.clear(o)
                dict.update(o, saved)
            elif kind == 'obj':
                d = o.__dict__
                if len(d) == len(saved) and all(d.get(k, self) is v for k, v in saved.items()):
                    continue
                d.clear()
                d.update(saved)
            elif kind == 'list':
                if len(o) != len(saved) or any(a is not b for a, b in zip(o, saved)):
                    o[:] = saved
            elif kind == 'set':
                if sx is not None and (o._sx or set.__len__(o) != len(saved)) \
                        or sx is None and len(o) != len(saved):
                    if sx is not None:
                        o._sx = list(sx)
                    set.clear(o)
                    set.update(o, saved)
        for f in self.lru:
            f.cache_clear()
