"""Mechanical AST transformation of the package's source and the import hook that applies it.

The transformation keeps every statement of the verified function; it only routes language constructs that CPython
would execute on machine values through the run-time library:
  * ``for`` loops and list comprehensions go through the loop rule,
  * calls of the builtins in rt.CALLS go through their symbolic versions,
  * ``x.append(v)`` and stores to attributes/items announce themselves to the loop rule,
  * ``except:`` and ``except BaseException`` do not intercept the verifier's own control flow.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

from . import rt, snp

ROOT = os.path.realpath(os.environ.get('OCGIS_SRC', '/repo/src'))
STATE = dict(installed=False, files=set())


def walk_but_raise(n):
    yield n
    if not isinstance(n, ast.Raise):
        for c in ast.iter_child_nodes(n):
            for x in walk_but_raise(c):
                yield x


class Names(ast.NodeVisitor):
    """Names assigned in a loop body (not in nested functions) and lists appended to."""
    def __init__(self):
        self.names = set()

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_ListComp(self, n):
        self.visit(n.generators[0].iter)

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'update') and isinstance(n.func.value, ast.Name):
            self.names.add(n.func.value.id)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            self.names.add(n.value.id)
        self.generic_visit(n)


def rtcall(name, args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id='_rt_', ctx=ast.Load()), attr=name, ctx=ast.Load()), args=args,
                    keywords=[])


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def meth(obj, m, args):
    return ast.Call(func=ast.Attribute(value=name(obj), attr=m, ctx=ast.Load()), args=args, keywords=[])


class Stored(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_Global(self, n):
        self.names.update(n.names)

    visit_Nonlocal = visit_Global


def bound_names(node):
    """Names a function assigns or takes as parameters."""
    a = node.args
    v = Stored()
    v.names.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [i for i in (a.vararg, a.kwarg) if i])
    if isinstance(node.body, list):
        for s in node.body:
            v.visit(s)
    return v.names


class OwnYields(ast.NodeVisitor):
    """Yields of one function (not of nested ones): are they all statements, and is one of them in a loop?"""
    def __init__(self):
        self.stmts = self.total = self.looped = 0
        self.depth = 0

    def visit_FunctionDef(self, n):
        pass

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    visit_While = visit_For

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            self.stmts += 1
            self.looped += self.depth > 0
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.total += 1
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.total += 1


class Eager(ast.NodeTransformer):
    """Body of a generator that collects what it yields."""
    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            return ast.copy_location(ast.Assign(targets=[name('_ys_', ast.Store())], value=rtcall('yielded', [
                name('_ys_'), n.value.value or ast.Constant(None)])), n)
        return n

    def visit_Return(self, n):
        n.value = name('_ys_')
        return n


def split_generator(node):
    """Generators with yields in loops get a second form that collects the yielded values, used only when a contract asks
    for it (the consumer then sees the values after the generator has finished)."""
    y = OwnYields()
    for s in node.body:
        y.visit(s)
    if not y.looped or y.total != y.stmts:
        return
    import copy
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    names += [a.vararg.arg] if a.vararg else []
    names += [x.arg for x in a.kwonlyargs]
    names += [a.kwarg.arg] if a.kwarg else []

    def nested(nm, body):
        return ast.FunctionDef(name=nm, args=args(names), body=body, decorator_list=[], returns=None, type_comment=None)
    other = [Eager().visit(copy.deepcopy(s)) for s in node.body]
    other = [ast.Assign(targets=[name('_ys_', ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))] + other + [
        ast.Return(value=name('_ys_'))]
    call = lambda f: ast.Return(value=ast.Call(func=name(f), args=[name(n) for n in names], keywords=[]))
    gen = nested('_gen_', node.body)
    eager = nested('_eager_', other)
    node.body = [ast.If(test=rtcall('is_eager', [ast.Constant(node.name)]), body=[eager, call('_eager_')],
                        orelse=[gen, call('_gen_')])]


LOC = lambda: ast.Call(func=name('locals'), args=[], keywords=[])


class Xform(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.loops = []      # per function: stack of loop variable names ('while' entries are None)
        self.fdepth = 0
        self.fname = []
        self.bound = set()   # names local to the current function

    def split_names(self, found):
        """(names the loop body changes that are local to the function, other objects it changes in place)"""
        return sorted(found & self.bound), sorted(found - self.bound)

    # -- scopes
    def _func(self, node):
        saved, self.loops = self.loops, []
        self.fdepth += 1
        own = getattr(node, 'name', None)
        self.fname.append(own if own not in ('_gen_', '_eager_', None) else (self.fname[-1] if self.fname else None))
        if isinstance(node, ast.FunctionDef) and own not in ('_gen_', '_eager_'):
            split_generator(node)
        outer, self.bound = self.bound, bound_names(node)
        self.generic_visit(node)
        self.bound = outer
        self.fname.pop()
        self.fdepth -= 1
        self.loops = saved
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = _func

    def visit_Yield(self, node):
        self.generic_visit(node)
        lps = [l for l in self.loops if l]
        if lps:
            node.value = rtcall('yield_in', [ast.Tuple(elts=[name(l) for l in lps], ctx=ast.Load()),
                                             node.value or ast.Constant(None)])
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        lps = [l for l in self.loops if l]
        if lps:
            node.value = rtcall('yield_in', [ast.Tuple(elts=[name(l) for l in lps], ctx=ast.Load()), node.value])
        return node

    def visit_ClassDef(self, node):
        saved, self.fdepth = self.fdepth, 0
        sl, self.loops = self.loops, []
        self.generic_visit(node)
        self.fdepth = saved
        self.loops = sl
        return node

    # -- loops
    def visit_For(self, node):
        if not self.fdepth:
            return self.generic_visit(node)
        self.n += 1
        lv = '_lp%d_' % self.n
        v = Names()
        v.visit(node.target)
        for s in node.body:
            v.visit(s)
        names, free = self.split_names(v.names)
        node.iter = self.visit(node.iter)
        self.loops.append(lv)
        body = [self.visit_stmt(s) for s in node.body]
        self.loops.pop()
        body = [s for b in body for s in (b if isinstance(b, list) else [b])]
        orelse = [self.visit_stmt(s) for s in node.orelse]
        orelse = [s for b in orelse for s in (b if isinstance(b, list) else [b])]
        setup = ast.Assign(targets=[name(lv, ast.Store())], value=rtcall('loop', [
            node.iter, LOC(), ast.Tuple(elts=[ast.Constant(n) for n in names], ctx=ast.Load()),
            ast.Tuple(elts=[ast.Constant(n) for n in free], ctx=ast.Load())]))
        tnames = Names()
        tnames.visit(node.target)

        def inject(attr, skip=()):
            return self.inject(lv, names, attr, skip)
        inner = inject('inj', tnames.names) + body + [ast.Expr(meth(lv, 'end', [LOC()]))]
        guarded = ast.Try(body=inner, handlers=[ast.ExceptHandler(
            type=name('BaseException'), name='_ex_', body=[ast.Expr(meth(lv, 'exc', [name('_ex_')])), ast.Raise()])],
            orelse=[], finalbody=[])
        loop = ast.For(target=node.target, iter=name(lv), body=[guarded], orelse=inject('fin') + orelse)
        return [setup, loop]

    def visit_stmt(self, s):
        r = self.visit(s)
        return r

    def counting(self, node):
        """``while k < E: BODY; k += 1`` as ``for k in range(k, E): BODY; else: k = max(k, E)``, taken when the bounds are
        symbolic; the loop is kept as it is otherwise. E must not change in the loop (checked again at run time)."""
        t = node.test
        if node.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        left, op, right = t.left, t.ops[0], t.comparators[0]
        last = node.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and isinstance(last.op, (ast.Add, ast.Sub))
                and isinstance(last.value, ast.Constant) and type(last.value.value) is int and last.value.value > 0):
            return None
        k = last.target.id
        step = last.value.value if isinstance(last.op, ast.Add) else -last.value.value
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        op = type(op)
        if op not in flip:
            return None
        if isinstance(right, ast.Name) and right.id == k:
            left, right, op = right, left, flip[op]
        if not (isinstance(left, ast.Name) and left.id == k) or (op in (ast.Lt, ast.LtE)) != (step > 0):
            return None
        for x in ast.walk(right):
            if not isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.BinOp, ast.operator, ast.UnaryOp,
                                  ast.unaryop, ast.expr_context)) and not (
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'min', 'max', 'int')
                    and not x.keywords):
                return None
        v = Stored()
        for st in node.body[:-1]:
            v.visit(st)
        read = {x.id for x in ast.walk(right) if isinstance(x, ast.Name)}
        if k in v.names or k in read or v.names & read:
            return None
        todo = list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Continue, ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return None
            todo.extend(y for y in ast.iter_child_nodes(x))
        import copy
        self.n += 1
        b, e = '_cs%d_' % self.n, '_ce%d_' % self.n
        adj = {ast.Lt: 0, ast.Gt: 0, ast.LtE: 1, ast.GtE: -1}[op]
        stop = copy.deepcopy(right)
        if adj:
            stop = ast.BinOp(left=stop, op=ast.Add(), right=ast.Constant(adj))
        loop = ast.For(target=name(k, ast.Store()), iter=rtcall('count_range', [name(b), name(e), ast.Constant(step)]),
                       body=copy.deepcopy(node.body[:-1]) + [ast.Expr(rtcall('bound_kept', [name(e), copy.deepcopy(stop)]))],
                       orelse=[ast.Assign(targets=[name(k, ast.Store())],
                                          value=rtcall('count_end', [name(b), name(e), ast.Constant(step)]))])
        then = [ast.Assign(targets=[name(b, ast.Store())], value=name(k)),
                ast.Assign(targets=[name(e, ast.Store())], value=stop), loop]
        self.bound = self.bound | {b, e}
        return rtcall('countable', [ast.Constant(self.fname[-1] if self.fname else None), name(k), copy.deepcopy(right)]), then

    def visit_While(self, node):
        if not self.fdepth:
            return self.generic_visit(node)
        cnt = self.counting(node)
        if cnt is not None:
            test, then = cnt
            test = self.visit(test)
            body = []
            for st in then:
                r = self.visit(st)
                body += r if isinstance(r, list) else [r]
            r = self.plain_while(node)
            return ast.If(test=test, body=body, orelse=r if isinstance(r, list) else [r])
        return self.plain_while(node)

    def plain_while(self, node):
        if node.orelse:
            self.loops.append(None)
            self.generic_visit(node)
            self.loops.pop()
            return node
        self.n += 1
        lv = '_lp%d_' % self.n
        v = Names()
        for s in node.body:
            v.visit(s)
        names, free = self.split_names(v.names)
        # assigns local names only: no stores into objects, no calls (but to build an exception), no inner loops
        pure = not any(isinstance(y, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.With, ast.For, ast.While, ast.Try,
                                      ast.Delete, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)) or
                       isinstance(y, (ast.Subscript, ast.Attribute)) and not isinstance(y.ctx, ast.Load)
                       for x in [node.test] + node.body for y in walk_but_raise(x))
        test = self.visit(node.test)
        self.loops.append(lv)
        body = [self.visit_stmt(s) for s in node.body]
        self.loops.pop()
        body = [s for b in body for s in (b if isinstance(b, list) else [b])]
        setup = ast.Assign(targets=[name(lv, ast.Store())], value=rtcall('while_loop', [
            LOC(), ast.Tuple(elts=[ast.Constant(n) for n in names], ctx=ast.Load()), ast.Constant(self.fname[-1]),
            ast.Tuple(elts=[ast.Constant(n) for n in free], ctx=ast.Load()), ast.Constant(pure)]))
        leave = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Expr(meth(lv, 'brk', [LOC()])), ast.Break()],
                       orelse=[])
        inner = self.inject(lv, names, 'inj') + [leave] + body + [ast.Expr(meth(lv, 'end', [LOC()]))]
        guarded = ast.Try(body=inner, handlers=[ast.ExceptHandler(
            type=name('BaseException'), name='_ex_', body=[ast.Expr(meth(lv, 'exc', [name('_ex_')])), ast.Raise()])],
            orelse=[], finalbody=[])
        return [setup, ast.For(target=name('_w%d_' % self.n, ast.Store()), iter=name(lv), body=[guarded], orelse=[])]

    def inject(self, lv, names, attr, skip=()):
        out = []
        for n in names:
            if n in skip:
                continue
            out.append(ast.If(test=ast.Compare(left=ast.Constant(n), ops=[ast.In()], comparators=[
                ast.Attribute(value=name(lv), attr=attr, ctx=ast.Load())]),
                body=[ast.Assign(targets=[name(n, ast.Store())], value=ast.Subscript(
                    value=ast.Attribute(value=name(lv), attr=attr, ctx=ast.Load()), slice=ast.Constant(n),
                    ctx=ast.Load()))], orelse=[]))
        if not out:
            return []
        return [ast.If(test=ast.Attribute(value=name(lv), attr=attr, ctx=ast.Load()), body=out, orelse=[])]

    def visit_Continue(self, node):
        lv = self.loops[-1] if self.loops else None
        if lv is None:
            return node
        return [ast.Expr(meth(lv, 'end', [LOC()])), node]

    def visit_Break(self, node):
        lv = self.loops[-1] if self.loops else None
        if lv is None:
            return node
        return [ast.Expr(meth(lv, 'brk', [LOC()])), node]

    def visit_Return(self, node):
        self.generic_visit(node)
        lps = [l for l in self.loops if l]
        if lps:
            node.value = rtcall('ret_in', [ast.Tuple(elts=[name(l) for l in lps[::-1]], ctx=ast.Load()),
                                           node.value or ast.Constant(None)])
        return node

    # -- handlers
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = name('Exception')
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = name('Exception')
        return node

    # -- stores
    def _store(self, t):
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            t.value = rtcall('chk_store', [t.value])
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._store(e)
        elif isinstance(t, ast.Starred):
            self._store(t.value)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.fdepth:
            for t in node.targets:
                self._store(t)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.fdepth:
            self._store(node.target)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if self.fdepth:
            for t in node.targets:
                self._store(t)
        return node

    # -- expressions
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mult) and (isinstance(node.left, (ast.List, ast.Tuple)) or
                                              isinstance(node.right, (ast.List, ast.Tuple))):
            return rtcall('seqmul', [node.left, node.right])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in rt.CALLS:
            node.func = ast.Attribute(value=name('_rt_'), attr=node.func.id + '_', ctx=ast.Load())
        elif isinstance(node.func, ast.Attribute) and node.func.attr == 'append' and len(node.args) == 1 and \
                not node.keywords and not isinstance(node.args[0], ast.Starred):
            is_np = isinstance(node.func.value, ast.Name) and node.func.value.id in ('np', 'numpy')
            if not is_np:
                return rtcall('append', [node.func.value, node.args[0]])
        elif isinstance(node.func, ast.Attribute) and node.func.attr == 'update' and len(node.args) == 1 and \
                not node.keywords and not isinstance(node.args[0], ast.Starred):
            d = node.args[0]
            if isinstance(d, ast.Dict) and all(k is not None for k in d.keys):
                return rtcall('update_items', [node.func.value, ast.List(elts=[
                    ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(d.keys, d.values)], ctx=ast.Load())])
            return rtcall('update', [node.func.value, d])
        elif isinstance(node.func, ast.Attribute) and node.func.attr == 'indices' and len(node.args) == 1 and \
                not node.keywords and not isinstance(node.args[0], ast.Starred):
            return rtcall('indices', [node.func.value, node.args[0]])
        return node

    def _comp(self, node, wrap=None):
        self.generic_visit(node)
        if not self.fdepth or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(node)):
            return node
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'super')
               for x in ast.walk(node)):
            return node
        tgt = g.target
        for x in ast.walk(tgt):
            if isinstance(x, (ast.Attribute, ast.Subscript, ast.Starred)):
                return node

        def lam(e):
            if isinstance(tgt, ast.Name):
                return ast.Lambda(args=args([tgt.id]), body=e)
            # tuple target: unpack through an inner lambda
            if isinstance(tgt, (ast.Tuple, ast.List)) and all(isinstance(t, ast.Name) for t in tgt.elts):
                inner = ast.Lambda(args=args([t.id for t in tgt.elts]), body=e)
                return ast.Lambda(args=args(['_x_']), body=ast.Call(func=inner, args=[
                    ast.Starred(value=name('_x_'), ctx=ast.Load())], keywords=[]))
            return None
        fs = [lam(e) for e in ((node.key, node.value) if isinstance(node, ast.DictComp) else (node.elt,))]
        if fs[0] is None:
            return node
        a = fs + [g.iter]
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
            a.append(lam(test))
        return rtcall('dictcomp' if isinstance(node, ast.DictComp) else 'listcomp', a)

    def visit_ListComp(self, node):
        return self._comp(node)

    visit_DictComp = visit_ListComp


def args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


# names in rt for the transformed builtins
for _k, _v in rt.CALLS.items():
    setattr(rt, _k + '_', _v)


class ShadowItertools(snp.ShadowModule):
    pass


import itertools as _it  # noqa: E402
import math as _math  # noqa: E402
import functools as _ft  # noqa: E402


def _m(f, alt):
    def g(x, *a):
        from .sym import Sym
        if isinstance(x, Sym):
            return alt(x)
        return f(x, *a)
    return g


shadow_it = ShadowItertools('itertools', _it, {})
shadow_it.__dict__['product'] = lambda *a, **k: rt.product(*a, **k)
for _n in ['chain', 'groupby', 'islice', 'combinations', 'permutations', 'repeat', 'count', 'cycle', 'starmap', 'tee',
           'takewhile', 'dropwhile', 'accumulate', 'zip_longest', 'combinations_with_replacement', 'compress', 'filterfalse']:
    shadow_it.__dict__[_n] = getattr(_it, _n)
shadow_math = snp.ShadowModule('math', _math, {})
for _n in dir(_math):
    if not _n.startswith('_'):
        shadow_math.__dict__[_n] = getattr(_math, _n)
shadow_math.__dict__['floor'] = _m(_math.floor, lambda x: x.__floor__() if hasattr(x, '__floor__') else x)
shadow_math.__dict__['ceil'] = _m(_math.ceil, lambda x: x.__ceil__() if hasattr(x, '__ceil__') else x)

SHADOWS = {'numpy': snp.shadow_np, 'numpy.ma': snp.shadow_ma, 'itertools': shadow_it, 'math': shadow_math}


def _import(nm, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(nm, globals, locals, fromlist, level)
    if level == 0:
        if fromlist:
            if nm in SHADOWS:
                return SHADOWS[nm]
            if nm.startswith('numpy') and nm in ('numpy.core', 'numpy.core.multiarray'):
                return m
        else:
            top = nm.split('.')[0]
            if top in SHADOWS:
                return SHADOWS[top]
    return m


BUILTINS = dict(vars(builtins))
BUILTINS['__import__'] = _import


class Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def path_stats(self, path):
        raise OSError('no bytecode cache')

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Xform().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        STATE['files'].add(self.path)
        code = self.source_to_code(self.get_data(self.path), self.path)
        module.__dict__['__builtins__'] = BUILTINS
        module.__dict__['_rt_'] = rt
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'ocgis' and not fullname.startswith('ocgis.'):
            return None
        rel = fullname.replace('.', '/')
        for p, pkg in ((os.path.join(ROOT, rel, '__init__.py'), True), (os.path.join(ROOT, rel + '.py'), False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(fullname, p),
                    submodule_search_locations=[os.path.dirname(p)] if pkg else None)
        return None


def install():
    if not STATE['installed']:
        sys.meta_path.insert(0, Finder())
        STATE['installed'] = True


def preload():
    """Import every module of the package (tests excluded) before any path is explored."""
    import importlib
    install()
    import ocgis
    assert os.path.realpath(ocgis.__file__).startswith(ROOT), ocgis.__file__
    for d, dirs, files in os.walk(os.path.join(ROOT, 'ocgis')):
        dirs[:] = sorted(x for x in dirs if x not in ('test', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py'):
                m = os.path.relpath(os.path.join(d, f), ROOT)[:-3].replace('/', '.')
                if m.endswith('.__init__'):
                    m = m[:-9]
                if m in sys.modules or m == 'ocgis.ocli':
                    continue
                try:
                    importlib.import_module(m)
                except Exception:
                    pass
