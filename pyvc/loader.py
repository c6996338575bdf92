"""Mechanical extraction: imports /repo's modules with loop hooks and library models."""
import ast
import builtins
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types
from . import npshim, loops, maps
from .sym import UNDEF

REPO = os.environ.get('PYVC_REPO', '/repo')
ROOTS = {'dp_accounting': REPO + '/python/dp_accounting/dp_accounting', 'clustering': REPO + '/learning/clustering'}
MUTATORS = {'append', 'extend', 'add', 'update', 'insert', 'pop', 'setdefault', 'remove', 'clear'}
LOADED = {}


class Locals(ast.NodeVisitor):
    """names bound in a statement list (not descending into functions)."""
    def __init__(self):
        self.names, self.nonlocal_, self.mut, self.attrs = [], set(), [], []
    def add(self, n):
        if n not in self.names: self.names.append(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)
    def visit_FunctionDef(self, n):
        if not n.name.startswith('VC__'): self.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_ExceptHandler(self, n):
        if n.name: self.add(n.name)
        self.generic_visit(n)
    def visit_Global(self, n): self.nonlocal_ |= set(n.names)
    visit_Nonlocal = visit_Global
    def visit_Import(self, n):
        for a in n.names: self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import
    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.base(n.value)
        self.generic_visit(n)
    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store): self.attr(n)
        self.generic_visit(n)
    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: self.base(n.func.value)
        self.generic_visit(n)
    def base(self, v):
        while isinstance(v, ast.Subscript): v = v.value
        if isinstance(v, ast.Name):
            if v.id not in self.mut: self.mut.append(v.id)
        elif isinstance(v, ast.Attribute): self.attr(v)
    def attr(self, v):
        if isinstance(v.value, ast.Name):
            p = (v.value.id, v.attr)
            if p not in self.attrs: self.attrs.append(p)


def name(n, ctx=None): return ast.Name(id=n, ctx=ctx or ast.Load())


class Rewriter(ast.NodeTransformer):
    """return/continue/break of a loop body."""
    def __init__(self, mk): self.mk = mk
    def visit_FunctionDef(self, n): return n
    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef
    def visit_Return(self, n):
        return ast.Return(value=ast.Tuple(elts=[ast.Constant('return'), n.value or ast.Constant(None)], ctx=ast.Load()))
    def visit_Continue(self, n): return ast.Return(value=self.mk('next'))
    def visit_Break(self, n): return ast.Return(value=self.mk('break'))
    def visit_For(self, n): return n
    visit_While = visit_For


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.scopes = []
        self.n = 0
        self.modname = modname
        self.loops = 0

    def visit_FunctionDef(self, node):
        v = Locals()
        for s in node.body: v.visit(s)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in own_nodes(node))
        self.scopes.append({'locals': set(params) | set(v.names) - v.nonlocal_, 'gen': gen, 'nonlocal': v.nonlocal_})
        node = self.generic_visit(node)
        self.scopes.pop()
        return node

    def visit_Lambda(self, node):
        return self.generic_visit(node)

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in npshim.BUILTINS:
            if not any(node.func.id in s['locals'] for s in self.scopes):
                node.func = ast.copy_location(name('VC__' + node.func.id), node.func)
        return node

    def _comp(self, node, lazy):
        node = self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async: return node
        g = node.generators[0]
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)): return node
        t = g.target
        if isinstance(t, ast.Name): ps, star = [t.id], False
        elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts): ps, star = [x.id for x in t.elts], True
        else: return node
        if not self.scopes: return node
        if star and len(set(ps)) != len(ps):      # e.g. `for _, _ in`
            seen, q = set(), []
            for i, p in enumerate(ps):
                q.append(p if p not in ps[i + 1:] else f'VC__u{i}')
            ps = q
        args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[])
        f = ast.Lambda(args=args, body=node.elt)
        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            cond = ast.Lambda(args=args, body=c)
        call = ast.Call(func=name('VC__comp'), args=[f, g.iter, cond, ast.Constant(star), ast.Constant(lazy)], keywords=[])
        return ast.copy_location(call, node)

    def visit_ListComp(self, node): return self._comp(node, False)
    def visit_GeneratorExp(self, node): return self._comp(node, True)

    def _loop(self, node, is_for):
        node = self.generic_visit(node)
        if not self.scopes or self.scopes[-1]['gen']: return node
        sc = self.scopes[-1]
        self.n += 1
        i = self.n
        v = Locals()
        if is_for: v.visit(node.target)
        for s in node.body: v.visit(s)
        if not is_for: v.visit(node.test)
        if v.nonlocal_: return node
        names = [x for x in v.names if x not in sc['nonlocal']]
        for m in v.mut:
            if m not in names and m in sc['locals'] and m not in sc['nonlocal'] and m not in ('self', 'cls'): names.append(m)
        attrs = [(o, a) for o, a in v.attrs if o not in names]
        st = lambda: ast.Tuple(elts=[name(x) for x in names], ctx=ast.Load())
        mk = lambda tag: ast.Tuple(elts=[ast.Constant(tag), st()], ctx=ast.Load())
        rw = Rewriter(mk)
        body = [rw.visit(s) for s in node.body]
        params = (['VC__item'] if is_for else []) + names
        fargs = lambda ps: ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[])
        pre = [ast.Assign(targets=[node.target], value=name('VC__item'))] if is_for else []
        fbody = ast.FunctionDef(name=f'VC__body{i}', args=fargs(params), body=pre + body + [ast.Return(value=mk('next'))], decorator_list=[], type_params=[])
        out = [fbody]
        # current values, tolerating unbound names
        cur = ast.Tuple(elts=[ast.Call(func=ast.Attribute(value=ast.Call(func=name('locals'), args=[], keywords=[]), attr='get', ctx=ast.Load()),
                                       args=[ast.Constant(x), name('VC__UNDEF')], keywords=[]) for x in names], ctx=ast.Load())
        nm = ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load())
        cl = ast.Tuple(elts=[ast.Tuple(elts=[name(o), ast.Constant(a)], ctx=ast.Load()) for o, a in attrs], ctx=ast.Load())
        if is_for:
            call = ast.Call(func=name('VC__for'), args=[node.iter, name(f'VC__body{i}'), cur, nm, cl], keywords=[])
        else:
            fcond = ast.FunctionDef(name=f'VC__cond{i}', args=fargs(names), body=[ast.Return(value=node.test)], decorator_list=[], type_params=[])
            out.append(fcond)
            call = ast.Call(func=name('VC__while'), args=[name(f'VC__cond{i}'), name(f'VC__body{i}'), cur, nm, cl], keywords=[])
        kn, rn = f'VC__k{i}', f'VC__r{i}'
        out.append(ast.Assign(targets=[ast.Tuple(elts=[name(kn, ast.Store()), name(rn, ast.Store())], ctx=ast.Store())], value=call))
        out.append(ast.If(test=ast.Compare(left=name(kn), ops=[ast.Eq()], comparators=[ast.Constant('return')]),
                          body=[ast.Return(value=name(rn))], orelse=[]))
        if names:
            out.append(ast.Assign(targets=[ast.Tuple(elts=[name(x, ast.Store()) for x in names], ctx=ast.Store())], value=name(rn)))
        if node.orelse:
            out.append(ast.If(test=ast.Compare(left=name(kn), ops=[ast.NotEq()], comparators=[ast.Constant('break')]), body=node.orelse, orelse=[]))
        self.loops += 1
        for s in out:
            ast.copy_location(s, node)
            for x in ast.walk(s):
                if not hasattr(x, 'lineno') and 'lineno' in getattr(x, '_attributes', ()): ast.copy_location(x, node)
        return out

    def visit_For(self, node): return self._loop(node, True)
    def visit_While(self, node): return self._loop(node, False)


def own_nodes(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(x))


class Loader(importlib.abc.Loader):
    def __init__(self, path): self.path = path
    def create_module(self, spec): return None
    def exec_module(self, module):
        src = open(self.path, encoding='utf-8').read()
        tree = ast.parse(src)
        t = T(module.__name__)
        tree = t.visit(tree)
        ast.fix_missing_locations(tree)
        LOADED[module.__name__] = {'path': self.path, 'sha256': hashlib.sha256(src.encode()).hexdigest(), 'loops_hooked': t.loops}
        g = module.__dict__
        for k, v in npshim.BUILTINS.items(): g['VC__' + k] = v
        g['VC__comp'], g['VC__for'], g['VC__while'], g['VC__UNDEF'] = loops.comp, loops.for_loop, loops.while_loop, UNDEF
        exec(compile(tree, self.path, 'exec'), g)
        swap(g)


SHIMS = {}


def swap(g):
    """replace references to numpy/math/scipy in a module by the models."""
    if not SHIMS:
        import math, numpy
        SHIMS[id(math)] = npshim.MathShim()
        SHIMS[id(numpy)] = npshim.NPShim()
        import itertools
        SHIMS[id(itertools)] = npshim.IterShim()
    for k, v in list(g.items()):
        if k.startswith('__'): continue
        if isinstance(v, types.ModuleType):
            if id(v) in SHIMS: g[k] = SHIMS[id(v)]
            elif v.__name__.split('.')[0] == 'scipy': g[k] = npshim.LibShim(v, v.__name__.split('.')[-1])


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in ROOTS: return None
        rel = fullname.split('.')[1:]
        p = os.path.join(ROOTS[top], *rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.machinery.ModuleSpec(fullname, Loader(f), origin=f, is_package=True)
        if os.path.isdir(p) and not rel:
            f = os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            s = importlib.machinery.ModuleSpec(fullname, Loader(p + '.py'), origin=p + '.py')
            s.has_location = True
            return s
        return None


def install():
    for m in list(sys.modules):
        if m.split('.')[0] in ROOTS: del sys.modules[m]
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def load(modname):
    install_once()
    return importlib.import_module(modname)


_inst = []


def install_once():
    if not _inst:
        install()
        _inst.append(1)
