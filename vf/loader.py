"""Executes the real source of /repo over the symbolic domain.

The modules under /repo/pyproximal are parsed from the current working tree on every run and
executed as they are, except that
  * imports of numpy, scipy, pylops, math, numba resolve to the assumed contracts in shims.py;
  * builtins that force a concrete value (float, int, bool, len, range, max, min, isinstance,
    print ...) are replaced by versions that keep symbolic values;
  * every for/while statement gets a hook at its head through which the engine can replace
    the loop-carried variables by an arbitrary state satisfying the loop invariant.
Nothing else of the text is changed or dropped."""
from __future__ import annotations

import ast
import builtins
import os
import sys
import types

import z3

from . import core, shims
from .core import BV, S, SB, Sm, SmB, Unsupported, V, smax, smin

REPO = os.environ.get('VF_REPO', '/repo')


class Undef:
    def __repr__(self):
        return '<undefined>'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('undefined local')


UNDEF = Undef()


# ------------------------------------------------------------------ instrumentation
class _Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = []

    def _locals(self, node):
        """names assigned in this function (not in nested ones)"""
        names, skip = set(), set()
        a = node.args
        for x in a.args + a.kwonlyargs + a.posonlyargs:
            names.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                names.add(x.arg)

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue      # a nested function's name is not loop data
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for s in ast.walk(c):
                        if isinstance(s, ast.NamedExpr):
                            names.add(s.target.id)
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    skip.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    names.add(c.id)
                walk(c)
        walk(node)
        return sorted(n for n in names - skip if not n.startswith('__vf'))

    def visit_FunctionDef(self, node):
        self.fn.append((node.name, self._locals(node)))
        self.generic_visit(node)
        self.fn.pop()
        return node

    def _tuple(self, names, ctx):
        return ast.Tuple([ast.Name(n, ctx()) for n in names], ctx())

    def _assign(self, meth, var, names):
        call = ast.Call(ast.Attribute(ast.Name(var, ast.Load()), meth, ast.Load()),
                        [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
        return ast.If(ast.Attribute(ast.Name(var, ast.Load()), 'sym', ast.Load()),
                      [ast.Assign([self._tuple(names, ast.Store)], call)], [])

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.fn:
            return node
        self.n += 1
        var = '__vfL%d' % self.n
        fname, names = self.fn[-1]
        lid = '%s:%s:%d' % (self.mod, fname, self.n)
        pre = ast.Assign([ast.Name(var, ast.Store())], ast.Call(
            ast.Name('__vf_for__', ast.Load()),
            [ast.Constant(lid), node.iter, ast.Constant(tuple(names))], []))
        node.iter = ast.Name(var, ast.Load())
        node.body = [self._assign('head', var, names)] + node.body
        node.orelse = [self._assign('exit', var, names)] + node.orelse
        return [pre, node]

    def visit_While(self, node):
        self.generic_visit(node)
        if not self.fn or node.orelse:
            return node
        self.n += 1
        var = '__vfL%d' % self.n
        fname, names = self.fn[-1]
        lid = '%s:%s:%d' % (self.mod, fname, self.n)
        body = {c.id for c in ast.walk(ast.Module(node.body + [ast.Expr(node.test)], [])) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)}
        pre = ast.Assign([ast.Name(var, ast.Store())], ast.Call(
            ast.Name('__vf_while__', ast.Load()), [ast.Constant(lid), ast.Constant(tuple(names)), ast.Constant(tuple(n for n in names if n in body))], []))
        test = ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'cond', ast.Load()), [node.test], [])),
                      [ast.Break()], [])
        node.test = ast.Call(ast.Attribute(ast.Name(var, ast.Load()), 'tick', ast.Load()), [], [])
        node.body = [self._assign('head', var, names), test] + node.body
        return [pre, node]


class SymRange:
    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def __iter__(self):
        i = 0
        a, b = self.start, self.stop
        while True:
            k = a + i if not (isinstance(a, int) and a == 0) else i
            if not (S(core.z(k)) < b):
                return
            yield k
            i += 1
            if i > 12:
                raise Unsupported('symbolic range unrolled too far')


class ForCtl:
    """default: iterate; the engine replaces it for the loop under an invariant"""
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class WhileCtl:
    sym = False

    def __init__(self, lid):
        self.n = 0

    def tick(self):
        self.n += 1
        if self.n > 200:
            raise Unsupported('while loop runs too long')
        return True

    def cond(self, c):
        return bool(c)


def vf_for(lid, it, names):
    h = core.ctx().loop_hook if core.ctx() is not None else None
    if h is not None:
        r = h(lid, it, names, True)
        if r is not None:
            return r
    return ForCtl(it)


class HavocWhile:
    """invariant True: the variables assigned in the body are arbitrary when the test first fails"""
    sym = True

    def __init__(self, names, assigned):
        self.names, self.assigned = names, assigned

    def head(self, loc):
        out = []
        for n in self.names:
            v = loc.get(n, UNDEF)
            if n in self.assigned and v is not UNDEF:
                if not (core.is_num(v) or isinstance(v, S)):
                    raise Unsupported('loop over %r without an invariant' % type(v))
                v = core.fresh('havoc_' + n)
            elif n in self.assigned:
                v = UNDEF
            out.append(v)
        return tuple(out)

    def tick(self):
        return True

    def cond(self, c):
        if isinstance(c, SB):
            core.ctx().assume(SB(z3.Not(c.e)))
        elif c:
            raise core.PathDone()
        return False


def vf_while(lid, names, assigned):
    c = core.ctx()
    h = c.loop_hook if c is not None else None
    if h is not None:
        r = h(lid, None, names, False)
        if r is not None:
            return r
    if c is not None and any(lid.startswith(p) for p in getattr(c, 'havoc', ())):
        return HavocWhile(names, assigned)
    return WhileCtl(lid)


# ------------------------------------------------------------------ builtins
class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, S) and not o.isint)

    def __call__(cls, x=0.0):
        if isinstance(x, SB):
            return x._s()
        if shims.sym(x):
            if isinstance(x, S):
                return S(x.e)
            raise Unsupported('float of array')
        return float(x)


class vfloat(float, metaclass=_FMeta):
    pass


class _IMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, S) and o.isint)

    def __call__(cls, x=0, *a):
        if isinstance(x, SB):
            return S(core.z(x), True)
        if shims.sym(x):
            if isinstance(x, S):
                return S(x.e, True) if x.isint else core.uscalar('trunc', (x,), isint=True) if not _counting(x) else S(x.e, True)
            raise Unsupported('int of array')
        return int(x, *a)


def _counting(x):
    return all(n.startswith('g<') or n.startswith('n!') for n in _pc(x.e))


def _pc(e):
    from . import prover
    return prover.consts_of([e])


class vint(int, metaclass=_IMeta):
    pass


class _BMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SB))

    def __call__(cls, x=False):
        if isinstance(x, SB):
            return x
        return bool(x)


class vbool(metaclass=_BMeta):
    pass


class _CMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, complex)

    def __call__(cls, *a):
        return complex(*a)


def vlen(x):
    if isinstance(x, V):
        return len(x.bufs) if x.rows else x.size
    return len(x)


def vrange(*a):
    if any(isinstance(x, S) for x in a):
        if len(a) == 3:
            raise Unsupported('stepped symbolic range')
        start, stop = (0, a[0]) if len(a) == 1 else a
        if isinstance(start, int) and isinstance(stop, S):
            q = core.num_of(core.simp(stop.e))
            if q is not None and q.denominator == 1:
                return range(start, int(q))
        return SymRange(start, stop)
    return range(*a)


def vmaxf(*a, **k):
    if k:
        if not shims.any_sym(a):
            return max(*a, **k)
        raise Unsupported('max with key')
    if len(a) == 1:
        x = a[0]
        if isinstance(x, V) and not x.rows:
            return core.vmax(x)
        if isinstance(x, Sm):
            return x.max()
        a = list(x)
    if not any(shims.sym(x) for x in a):
        return max(a)
    r = a[0]
    for x in a[1:]:
        r = smax(r, x)
    return r


def vminf(*a, **k):
    if k:
        if not shims.any_sym(a):
            return min(*a, **k)
        raise Unsupported('min with key')
    if len(a) == 1:
        x = a[0]
        if isinstance(x, V) and not x.rows:
            return -core.vmax(-x)
        a = list(x)
    if not any(shims.sym(x) for x in a):
        return min(a)
    r = a[0]
    for x in a[1:]:
        if isinstance(x, (int, S)) and isinstance(r, (int, S)) and getattr(x, 'isint', True) and getattr(r, 'isint', True):
            r = x if x < r else r          # an index or a size: decided on the path
            continue
        r = smin(r, x)
    return r


class _LMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, list)

    def __call__(cls, x=()):
        if isinstance(x, SymRange) and x.start == 0 and isinstance(x.start, int):
            return core.IndexAll(x.stop)
        return list(x)


class vlist(metaclass=_LMeta):
    def __class_getitem__(cls, k):
        return list[k]


def visinstance(o, t):
    if isinstance(t, tuple):
        return any(visinstance(o, x) for x in t)
    if t is float:
        t = vfloat
    elif t is int:
        t = vint
    elif t is bool:
        t = vbool
    elif t is vlist:
        t = list
    return isinstance(o, t)


def vsumf(x, start=0):
    t = start
    for i in x:
        t = t + i
    return t


def vprint(*a, **k):
    c = core.ctx()
    if c is not None:
        c.printed = getattr(c, 'printed', 0) + 1


class Loader:
    def __init__(self, repo=REPO, sources=None):
        self.repo = repo
        self.mods = {}
        self.sources = {}
        b = dict(builtins.__dict__)
        b.update({'__import__': self.imp, 'float': vfloat, 'int': vint, 'bool': vbool, 'len': vlen, 'range': vrange, 'max': vmaxf,
                  'min': vminf, 'isinstance': visinstance, 'list': vlist, 'print': vprint, 'sum': vsumf, '__vf_for__': vf_for, '__vf_while__': vf_while,
                  'callable': callable})
        self.builtins = b

    def path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        p, pkg = self.path(name)
        if p is None:
            if name == 'pyproximal.version':
                m = types.ModuleType(name)
                m.__version__ = m.version = '0'
                self.mods[name] = m
                return m
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        src = open(p).read()
        self.sources[name] = src
        tree = ast.parse(src)
        tree = ast.fix_missing_locations(_Instr(name).visit(tree))
        exec(compile(tree, p, 'exec'), m.__dict__)
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals['__package__']
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            name = pk + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'pyproximal':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        if top in ('numba', 'cupy'):
            raise ModuleNotFoundError(name)
        if top in ('numpy', 'scipy', 'pylops', 'math'):
            if name in shims.MODULES:
                if fromlist:
                    return shims.MODULES[name]
                return shims.MODULES[top]
            if name.startswith('pylops'):
                return shims._lazy(name)
            raise Unsupported('import of %s' % name)
        return __import__(name, globals, locals, fromlist, 0)


_LOADED = None


def loader():
    global _LOADED
    if _LOADED is None:
        _LOADED = Loader()
        _LOADED.load('pyproximal')
    return _LOADED
