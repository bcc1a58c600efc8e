"""Contracts assumed of the dependencies (numpy, scipy, pylops, math), over the symbolic domain.

Every function here is an *assumed* specification of the library function of the same name."""
from __future__ import annotations

import math as _math
import types

import numpy as _np
import z3

from . import core, prover, spectral
from .core import (BV, MaskedV, S, SB, Sm, SmB, SmM, Unsupported, V, Val, VT, Buf, Atom, bany, ball, ctx, elem, fresh, inner,
                   is_num, mk, num_of, sabs, sexp, simp, slog, smax, smin, spow, ssign, ssqrt, vatom, vconst, vdot,
                   vmax, vnorm2, vsum, z, zb)

_I = isinstance


def sym(x):
    return _I(x, (S, SB, V, BV, Sm, SmB, SmM, MaskedV, Mat, VT))


def any_sym(xs):
    for x in xs:
        if sym(x) or (_I(x, (list, tuple)) and any_sym(x)):
            return True
    return False


# ---------------------------------------------------------------- matrices, operators
class Mat:
    """symbolic matrix c0*I + c1 * (product of named matrices)"""

    def __init__(self, terms, nrow, ncol):
        self.terms = terms            # {word(tuple of (opname, adj)) : coef}
        self.nrow, self.ncol = nrow, ncol

    @property
    def shape(self):
        return (self.nrow, self.ncol)

    ndim = 2

    @staticmethod
    def eye(n):
        return Mat({(): z3.RealVal(1)}, n, n)

    @property
    def T(self):
        return Mat({tuple((o, not a) for o, a in reversed(w)): c for w, c in self.terms.items()}, self.ncol, self.nrow)

    def conj(self):
        return self

    def copy(self):
        return Mat(dict(self.terms), self.nrow, self.ncol)

    def scale(self, k):
        return Mat({w: z3.simplify(z(k) * c) for w, c in self.terms.items()}, self.nrow, self.ncol)

    def __add__(self, o):
        if not _I(o, Mat):
            raise Unsupported('matrix + scalar')
        t = dict(self.terms)
        for w, c in o.terms.items():
            t[w] = z3.simplify(t[w] + c) if w in t else c
        return Mat(t, self.nrow, self.ncol)

    __radd__ = __add__

    def __sub__(self, o):
        return self + o.scale(-1)

    def __neg__(self):
        return self.scale(-1)

    def __mul__(self, k):
        if _I(k, (Mat, V)):
            raise Unsupported('elementwise matrix product')
        return self.scale(k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self.scale(1 / S(z(k)))

    def __matmul__(self, o):
        if _I(o, Mat):
            t = {}
            for w, c in self.terms.items():
                for v, d in o.terms.items():
                    k = w + v
                    t[k] = z3.simplify(t[k] + c * d) if k in t else z3.simplify(c * d)
            return Mat(t, self.nrow, o.ncol)
        if _I(o, V):
            return V.of(self.apply(o.vals[0]))
        raise Unsupported('matrix product')

    def dot(self, o):
        return self @ o

    def apply(self, val):
        out = Val({}, self.nrow)
        for w, c in self.terms.items():
            v = val
            for op, adj in reversed(w):
                v = op.base_rmatvec(v) if adj else op.base_matvec(v)
            out = out.add(Val(v.lin, self.nrow).scale(c))
        return out


def solve(mat, y):
    """the exact solution of mat s = y (assumed of div / lsqr / cg / cho_solve).

    mat must be c0 I + c1 W with W one word; W s is then rewritten as (y - c0 s)/c1."""
    y = y.vals[0] if _I(y, V) else y
    terms = {w: c for w, c in mat.terms.items() if num_of(z3.simplify(c)) != 0}
    c0 = terms.pop((), z3.RealVal(0))
    if not y.lin:
        return V.of(Val({}, mat.ncol))
    if not terms:
        return V.of(Val(y.lin, mat.ncol).scale(S(z3.simplify(1 / c0))))
    if len(terms) != 1:
        return solve_many(mat, y, {**terms, (): c0})
    (w, c1), = terms.items()
    c = ctx()
    # semantic congruence: same system => same solution
    for (w2, c02, c12, y2, at) in c.cache.setdefault(('solves',), []):
        if w2 == w and len(y2.lin) == len(y.lin):
            from . import prover
            if prover.implied(c, c02 * c1 == c0 * c12):
                r = y.add(y2.scale(S(c0 / c02 if num_of(z3.simplify(c0)) != 0 else c1 / c12)), -1)
                if all(prover.implied(c, cf == 0) for cf in r.lin.values()):
                    return V.of(vatom(at))
    a = Atom(c.name('sol'), mat.ncol, tag=('solve', w, c0, c1, y))
    c.cache[('solves',)].append((w, c0, c1, y, a))
    return V.of(vatom(a))


def solve_many(mat, y, terms):
    """a system with several words: its solution is an (uninterpreted) function of matrix and right-hand side"""
    from . import prover
    c = ctx()
    for (t2, y2, at) in c.cache.setdefault(('solves*',), []):
        if set(t2) == set(terms) and all(prover.implied(c, t2[w] == terms[w]) for w in terms):
            r = y.add(y2, -1)
            if all(prover.implied(c, cf == 0) for cf in r.lin.values()):
                return V.of(vatom(at))
    a = Atom(c.name('sol'), mat.ncol, tag=('solve*', terms, y))
    c.cache[('solves*',)].append((terms, y, a))
    return V.of(vatom(a))


class LinOp:
    """linear operator; composites keep a Mat"""
    explicit = False

    def __init__(self, mat, dtype='float64', explicit=False):
        self.mat = mat
        self.dtype = dtype
        self.explicit = explicit

    @property
    def shape(self):
        return self.mat.shape

    @property
    def A(self):
        if not self.explicit:
            raise Unsupported('dense matrix of a matrix-free operator')
        return self.mat

    def matvec(self, x):
        if not _I(x, V):
            raise Unsupported('operator applied to non-array')
        if len(x.bufs) != 1:
            raise Unsupported('operator on a multi-block array')
        if self.inplace():
            return V(x.bufs)
        return V.of(self.mat.apply(x.vals[0]))

    def inplace(self):
        return False

    def rmatvec(self, x):
        return self.H.matvec(x)

    @property
    def H(self):
        return LinOp(self.mat.T, self.dtype, self.explicit)

    T = H

    def adjoint(self):
        return self.H

    def conj(self):
        return self

    def dot(self, x):
        if _I(x, LinOp):
            return LinOp(self.mat @ x.mat, self.dtype)
        if is_num(x) or _I(x, S):
            return LinOp(self.mat.scale(x), self.dtype)
        return self.matvec(x)

    def __matmul__(self, x):
        return self.dot(x)

    def __mul__(self, x):
        return self.dot(x)

    def __rmul__(self, k):
        return LinOp(self.mat.scale(k), self.dtype)

    def __neg__(self):
        return LinOp(self.mat.scale(-1), self.dtype)

    def __add__(self, o):
        return LinOp(self.mat + o.mat, self.dtype)

    def __sub__(self, o):
        return LinOp(self.mat - o.mat, self.dtype)

    def __truediv__(self, y):
        return solve(self.mat, y)

    def div(self, y, niter=100, densesolver=None):
        return solve(self.mat, y)


class BaseOp(LinOp):
    """an uninterpreted operator of the contract; ``identity`` returns its own argument"""

    def __init__(self, name, m, n, explicit=False, identity=False, orth=None):
        self.name, self.m, self.n = name, m, n
        self.identity = identity
        self.orth = orth             # A A^H = orth * I
        LinOp.__init__(self, Mat({((self, False),): z3.RealVal(1)}, m, n), explicit=explicit)
        if identity:
            self.mat = Mat.eye(n)

    def inplace(self):
        return self.identity

    @property
    def H(self):
        return AdjOp(self)

    T = H

    def _lin(self, val, adj):
        c = ctx()
        size = self.n if adj else self.m
        out = Val({}, size)
        for a, cf in val.lin.items():
            out = out.add(self._atom(a, adj, size).scale(S(cf)))
        return out

    def _atom(self, a, adj, size):
        c = ctx()
        k = ('lin', id(self), adj, a.id)
        if k in c.cache:
            return c.cache[k]
        if self.identity:
            return Val({a: z3.RealVal(1)}, size)
        t = a.tag
        # A applied to a known image
        if t and t[0] == 'lin' and t[1] is self and self.orth is not None and t[2] == 'adj' and not adj:
            r = Val({t[3]: z3.RealVal(1)}, size).scale(self.orth)
            c.cache[k] = r
            return r
        # rewriting with the equation of a solved system:  W s = (y - c0 s) / c1
        r = self._solve_rule(a, adj, size)
        if r is None:
            nm = '%s%s(%s)' % (self.name, '^H' if adj else '', a.name)
            r = vatom(Atom(nm, size, tag=('lin', self, 'adj' if adj else 'mat', a)))
        c.cache[k] = r
        return r

    def _solve_rule(self, a, adj, size):
        """word ending here: a = op_k ... op_1 s already applied, op = first letter of W"""
        w = [(self, adj)]
        x = a
        while True:
            t = x.tag
            if t and t[0] == 'solve':
                sw, c0, c1, y = t[1:]
                if tuple(w) == tuple(sw):
                    k = z3.simplify(1 / c1)
                    return Val(y.lin, size).add(Val({x: z3.RealVal(1)}, size).scale(S(c0)), -1).scale(S(k))
                return None
            if t and t[0] == 'lin':
                w.append((t[1], t[2] == 'adj'))
                x = t[3]
                continue
            return None

    def base_matvec(self, val):
        return self._lin(val, False)

    def base_rmatvec(self, val):
        return self._lin(val, True)

    def __repr__(self):
        return self.name


class Restriction(BaseOp):
    """entries of a vector at distinct places; restrictions of one partition have disjoint places: R_i R_j^H = 0 for i != j"""

    def __init__(self, name, m, n, others=()):
        BaseOp.__init__(self, name, m, n, orth=1)
        self.others = list(others)
        for o in self.others:
            o.others = o.others + [self]
        self.iava = core.Places(self)

    def _atom(self, a, adj, size):
        t = a.tag
        if not adj and t and t[0] == 'lin' and t[2] == 'adj' and any(t[1] is o for o in self.others):
            return Val({}, size)
        return BaseOp._atom(self, a, adj, size)


class AdjOp(LinOp):
    def __init__(self, base):
        self.base = base
        LinOp.__init__(self, base.mat.T, explicit=base.explicit)

    def inplace(self):
        return self.base.identity

    @property
    def H(self):
        return self.base

    T = H


class VStack(LinOp):
    """operators on top of one another: a multi-block range"""

    def __init__(self, ops, *a, **k):
        self.ops = list(ops)
        self.dtype, self.explicit = 'float64', False

    @property
    def mat(self):
        raise Unsupported('matrix of a stack')

    @property
    def shape(self):
        m = 0
        for o in self.ops:
            m = m + o.shape[0]
        return (m, self.ops[0].shape[1])

    def matvec(self, x):
        return V([b for o in self.ops for b in o.matvec(x).copy().bufs])

    def rmatvec(self, y):
        if len(y.bufs) != len(self.ops):
            raise Unsupported('blocks of a stack')
        out = None
        for i, o in enumerate(self.ops):
            r = o.rmatvec(V([y.bufs[i]]))
            out = r if out is None else out + r
        return out

    @property
    def H(self):
        raise Unsupported('adjoint of a stack')

    def gram(self):
        M = None
        for o in self.ops:
            q = o.mat.T @ o.mat
            M = q if M is None else M + q
        return M


def Identity(n, m=None, inplace=True, dtype='float64', **k):
    if m is not None:
        raise Unsupported('rectangular identity')
    return LinOp(Mat.eye(n))


def MatrixMult(A, *a, **k):
    if not _I(A, Mat):
        raise Unsupported('MatrixMult')
    return LinOp(A, explicit=True)


# ---------------------------------------------------------------- numpy
class _NDMeta(type):
    def __instancecheck__(cls, o):
        return _I(o, (V, BV, Sm, SmM, MaskedV, Mat, _np.ndarray))


class ndarray(metaclass=_NDMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return (_I(o, S) and not o.isint) or _I(o, float)


def un(fs, fv):
    def f(x, *a, **k):
        if _I(x, V):
            return x._new([fv(v) for v in x.vals])
        if _I(x, Sm):
            return Sm([fs(i) for i in x.items], x.col)
        if _I(x, BV):
            return f(x.num())
        if _I(x, SB):
            return fs(x._s())
        if _I(x, S) or is_num(x):
            return fs(x)
        if _I(x, (list, tuple)):
            return f(np_.array(x))
        raise Unsupported('ufunc on %r' % type(x))
    return f


def _elem1(name, sf):
    def fv(v):
        u = core.uniform(v)
        if u is not None:
            return vconst(sf(S(u)), v.size)
        return elem(lambda x: z(sf(S(x))), [v], v.size, base=name)
    return fv


def _vsqrt(v):
    u = core.uniform(v)
    if u is not None:
        return vconst(ssqrt(S(u)), v.size)
    if spectral.flipped([v]):
        return spectral.flip(_vsqrt(spectral.flip(v)))
    if len(v.lin) == 1:
        (a, cf), = v.lin.items()
        if a.tag and a.tag[0] == 'prod' and num_of(z3.simplify(cf)) == 1 and a.tag[1].key() == a.tag[2].key() and \
                prover.implied_idx(ctx(), lambda idx: a.tag[1].at(idx) >= 0):
            return a.tag[1]
    vec = None
    if v.lin and all(a.tag and a.tag[0] == 'prod' and a.tag[1].key() == a.tag[2].key() and num_of(z3.simplify(cf)) == 1 for a, cf in v.lin.items()):
        vec = [a.tag[1] for a in v.lin]

    def at(idx):
        s = ssqrt(S(v.at(idx)))
        if vec is not None and _I(s, S) and z3.is_const(s.e):
            ctx().sqvec[s.e.decl().name()] = [a.at(idx) for a in vec]
        return z(s)
    c = ctx()
    e = at(c.I)
    if not core._mentions(e, 'i!', c):
        return vconst(S(e), v.size)
    k = ('elem', e.get_id()) + core.ckey(z(v.size))
    c.keep.append(e)
    if k not in c.cache:
        c.cache[k] = Atom(c.name('sqrtv'), v.size, defn=at)
    return vatom(c.cache[k])


def bi(fs):
    def fz(a, b):
        return z(fs(S(a), S(b)))

    def f(x, y, *a, **k):
        for t in (x, y):
            if _I(t, (list, tuple)):
                return f(np_.array(x) if _I(x, (list, tuple)) else x, np_.array(y) if _I(y, (list, tuple)) else y)
        if _I(x, BV):
            x = x.num()
        if _I(y, BV):
            y = y.num()
        if _I(x, V) or _I(y, V):
            if _I(x, V) and core.isinf(y) or _I(y, V) and core.isinf(x):
                v, k_ = (x, y) if _I(x, V) else (y, x)
                r = fs(0.0, k_)
                if core.isinf(r):
                    raise Unsupported('infinite array')
                return v.copy()
            if _I(x, V):
                return x._ew(y, lambda a, b: _el2(fz, a, b))
            return y._ew(x, lambda b, a: _el2(fz, a, b))
        if _I(x, Sm):
            return x._ew(y, fs)
        if _I(y, Sm):
            return y._ew(x, fs, True)
        return fs(x, y)
    return f


def _el2(fz, a, b):
    ua, ub = core.uniform(a), core.uniform(b)
    if ua is not None and ub is not None:
        return vconst(fz(ua, ub), a.size)
    return elem(fz, [a, b], a.size)


def _real_exp(f):
    return f


class _NS(types.SimpleNamespace):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy function %s' % n)


def _sum(x, axis=None, keepdims=False, **k):
    if _I(x, (list, tuple)):
        t = 0.0
        for i in x:
            t = t + i
        if _I(t, (V, Sm)):
            if axis == 0:
                return t
            return _sum(t)
        return t
    if _I(x, types.GeneratorType):
        return _sum(list(x))
    if _I(x, (V, BV, Sm, S, SB)):
        return vsum(x, axis, keepdims)
    if is_num(x):
        return x
    raise Unsupported('sum')


def _norm(x, ord=None, axis=None, keepdims=False):
    if _I(x, V) and axis == 0 and x.rows:
        if ord in (None, 2):
            return np_.sqrt(np_.sum(x * x, axis=0))
        if ord == 1:
            return np_.sum(abs(x), axis=0)
        raise Unsupported('norm')
    if axis is not None and not (_I(x, V) and x.ndim == 1):
        raise Unsupported('norm axis')
    if _I(x, spectral.MatX) and ord == 'nuc':
        return spectral.nuc(x)
    if _I(x, spectral.Gram):
        x = x.full()
    if _I(x, spectral.MatRef):
        x = x.X                       # neither the Frobenius nor the nuclear norm sees a transposition
        if ord == 'nuc':
            return spectral.nuc(x)
    if _I(x, spectral.MatX) and ord not in (None, 'fro'):
        raise Unsupported('norm of a matrix')
    if ord in (None, 2, 'fro') or (ord == 2):
        if _I(x, (S,)) or is_num(x):
            return abs(x)
        return ssqrt(vnorm2(x), nonneg=True)
    if ord == 1:
        return vsum(abs(x))
    if ord == _math.inf:
        return vmax(abs(x))
    if ord == 0:
        return vsum(x != 0)
    raise Unsupported('norm ord')


def _like(k):
    def f(x, *a, **kw):
        if _I(x, V):
            return x._new([vconst(k, v.size) for v in x.vals])
        if _I(x, Sm):
            return Sm([float(k)] * len(x.items))
        if _I(x, S) or is_num(x):
            return S(z3.RealVal(k)) if _I(x, S) else float(k)
        if _I(x, BV):
            return x.like._new([vconst(k, v.size) for v in x.like.vals])
        raise Unsupported('like')
    return f


def _argm(sign):
    def f(x, axis=None, *a, **k):
        if _I(x, V) and x.rows and axis == 0:
            return core.ArgIdx(x, sign)
        raise Unsupported('argmin')
    return f


def _arange(*a, **k):
    if len(a) == 1 and _I(a[0], S):
        q = num_of(simp(a[0].e))
        return Sm(range(int(q))) if q is not None else core.IndexAll(a[0])
    if all(_I(i, int) for i in a):
        return Sm(list(range(*a)))
    raise Unsupported('arange')


def _mkshape(shape):
    if _I(shape, core.ShapeTok):
        return shape
    return shape


def _filled(k):
    def f(shape, *a, **kw):
        return _full(shape, k)
    return f


def _full(shape, k, *a, **kw):
    if _I(shape, S):
        q = num_of(simp(shape.e))
        if q is not None:
            return Sm([k] * int(q))
        bl = getattr(ctx(), 'blocks', {}).get(simp(shape.e).sexpr())
        if bl:
            return V([Buf(vconst(k, b)) for b in bl])
        return V.of(vconst(k, shape))
    if _I(shape, int):
        return Sm([k] * shape)
    if _I(shape, (tuple, list)):
        sh = list(shape)
        if len(sh) == 1:
            return _full(sh[0], k)
        if len(sh) == 2 and _I(sh[0], int) and _I(k, V) and len(k.bufs) == 1:
            return V([Buf(k.vals[0]) for _ in range(sh[0])], None, True)
        if len(sh) == 2 and _I(sh[0], int) and _I(sh[1], S):
            return V([Buf(vconst(k, sh[1])) for _ in range(sh[0])], None, True)
        if len(sh) == 2 and _I(sh[0], int) and _I(sh[1], int):
            return SmM([[k] * sh[1] for _ in range(sh[0])])
    raise Unsupported('full %r' % (shape,))


def _array(x, *a, **k):
    if _I(x, (V, Sm, BV, SmM, Mat)):
        return x.copy()
    if _I(x, (list, tuple)):
        x = list(x)
        if any(_I(i, V) for i in x):
            return _stack(x)
        if any(_I(i, (list, tuple, Sm)) for i in x):
            return SmM([list(i) for i in x])
        return Sm(x)
    if _I(x, (S, SB)) or is_num(x):
        return x
    raise Unsupported('array of %r' % type(x))


def _asarray(x, *a, **k):
    if _I(x, (V, Sm, BV, SmM, Mat, S)):
        return x
    if is_num(x) and not core.isinf(x):
        return S(z(x))
    return _array(x)


def _stack(xs, axis=0, **k):
    if axis != 0:
        raise Unsupported('stack axis')
    if not all(_I(x, V) and len(x.bufs) == 1 for x in xs):
        if all(_I(x, (S,)) or is_num(x) for x in xs):
            return Sm(list(xs))
        raise Unsupported('stack')
    return V([Buf(x.vals[0]) for x in xs], None, True)


def _vstack(xs, **k):
    out = []
    xs = list(xs)
    if any(_I(x, MaskedV) for x in xs):
        m = [x for x in xs if _I(x, MaskedV)][0]
        for x in xs:
            if _I(x, MaskedV):
                m._coerce(x)
            elif not (_I(x, V) and len(x.bufs) == 1):
                raise Unsupported('vstack')
            elif not _I(x, MaskedV):
                raise Unsupported('masked and full array')
        return MaskedV([Buf(v) for x in xs for v in x.vals], [f for x in xs for f in x.masks], m.like, True)
    for x in xs:
        if not _I(x, V):
            raise Unsupported('vstack')
        out.extend(Buf(v) for v in x.vals)
    return V(out, None, True)


def _concat(xs, axis=0, **k):
    out = []
    xs = list(xs)
    if all(_I(x, Sm) for x in xs):
        return Sm([i for x in xs for i in x.items])
    rows = any(_I(x, V) and x.rows for x in xs)
    for x in xs:
        if not _I(x, V):
            raise Unsupported('concatenate')
        out.extend(Buf(v) for v in x.vals)
    return V(out, None, rows)


def _hstack(xs, **k):
    return _concat(xs)


def _where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where with one argument')
    if _I(c, BV):
        av = c.like._coerce(a)
        bv = c.like._coerce(b)
        return c.like._new([core._ite(f, x, y) for f, x, y in zip(c.fns, av, bv)])
    if _I(c, core.MaskedB):
        return c.where(a, b)
    if _I(c, SB):
        if _I(a, V) or _I(b, V):
            return a if c else b
        return mk(z3.If(c.e, z(a), z(b)))
    if _I(c, SmB):
        ai = a.items if _I(a, Sm) else [a] * len(c.items)
        bi_ = b.items if _I(b, Sm) else [b] * len(c.items)
        return Sm([mk(z3.If(zb(k), z(x), z(y))) for k, x, y in zip(c.items, ai, bi_)])
    if _I(c, bool):
        return a if c else b
    raise Unsupported('where')


def _any(x, *a, **k):
    if _I(x, (SB, bool)):
        return x
    if _I(x, (BV, SmB)):
        return bany(x)
    if _I(x, (list, tuple)):
        return any(x)
    if _I(x, _np.bool_):
        return bool(x)
    if _I(x, (V, Sm)):
        return _any(x != 0)
    if _I(x, S) or is_num(x):
        return x != 0
    raise Unsupported('any')


def _all(x, *a, **k):
    if _I(x, (SB, bool)):
        return x
    if _I(x, (BV, SmB)):
        return ball(x)
    if _I(x, (list, tuple)):
        return all(x)
    raise Unsupported('all')


def _clip(x, lo=None, hi=None, **k):
    if lo is not None and not core.isinf(lo):
        x = np_.maximum(x, lo)
    if hi is not None and not core.isinf(hi):
        x = np_.minimum(x, hi)
    return x.copy() if _I(x, V) else x


def _isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    # |a-b| <= atol + rtol |b|
    d = np_.abs(a - b)
    return d <= np_.abs(b) * rtol + atol


def _allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    return _all(_isclose(a, b, rtol, atol))


def _randint(lo, hi=None, size=None, **k):
    """an arbitrary integer of the range"""
    if size is not None:
        raise Unsupported('random array')
    if hi is None:
        lo, hi = 0, lo
    c = ctx()
    n = c.name('randint')
    e = z3.Real(n)
    c.axioms[n] = [e >= z(lo), e <= z(hi) - 1]
    if is_num(lo) and is_num(hi) and hi - lo <= 8:
        c.axioms[n].append(z3.Or(*[e == i for i in range(int(lo), int(hi))]))
    c.pc.append(e >= z(lo))
    return S(e, True)


def _expand(x, axis):
    if _I(x, V) and len(x.bufs) == 1 and axis == 0 and not x.rows:
        return V(x.bufs, None, True)
    raise Unsupported('expand_dims')


def _mean(x, axis=None, **k):
    if _I(x, (V, Sm)):
        return x.mean(axis=axis)
    if _I(x, (list, tuple)):
        if x and _I(x[0], V):
            if axis == 0:
                return _sum(x) / len(x)
            raise Unsupported('mean')
        return _sum(x) / len(x)
    raise Unsupported('mean')


def _nan_to_num(x, nan=0.0, **k):
    """0/0 becomes nan (default 0), u/0 the largest float; only on a quotient of arrays (nothing else makes a nan here)"""
    if not _I(x, V):
        raise Unsupported('nan_to_num')
    out = []
    big = 1.7976931348623157e308
    for v in x.vals:
        if not v.lin:
            out.append(v)
            continue
        if len(v.lin) != 1:
            raise Unsupported('nan_to_num')
        (a, cf), = v.lin.items()
        if not a.tag or a.tag[0] != 'div' or num_of(z3.simplify(cf)) != 1:
            raise Unsupported('nan_to_num')
        out.append(elem(lambda n, d: z3.If(d == 0, z3.If(n == 0, z(nan), z3.If(n > 0, z(big), z(-big))), n / d), [a.tag[1], a.tag[2]], v.size))
    return x._new(out)


def _cumsum(x, *a, **k):
    if _I(x, (list, tuple, Sm)) and all(_I(i, S) or is_num(i) for i in x):
        out, t = [], 0
        for i in x:
            t = t + i
            out.append(t)
        return Sm(out)
    raise Unsupported('cumsum')


def _insert(x, i, v, **k):
    if _I(x, Sm) and _I(i, int) and (_I(v, S) or is_num(v)):
        t = list(x.items)
        t.insert(i, v)
        return Sm(t)
    raise Unsupported('insert')


def _pow(x, p, **k):
    if _I(x, (V, Sm, S)):
        return x ** p
    if is_num(x) and is_num(p):
        return x ** p
    raise Unsupported('power')


def _abs(x, *a, **k):
    if sym(x):
        return abs(x)
    if is_num(x):
        return abs(x)
    if _I(x, (list, tuple)):
        return abs(np_.array(x))
    raise Unsupported('abs')


def _max(x, axis=None, *a, **k):
    if _I(x, V):
        return x.max(axis)
    if _I(x, Sm):
        return x.max()
    if _I(x, (list, tuple)):
        r = x[0]
        for i in x[1:]:
            r = smax(r, i)
        return r
    return x


def _min(x, axis=None, *a, **k):
    if _I(x, V):
        return x.min(axis)
    if _I(x, Sm):
        r = x.items[0]
        for i in x.items[1:]:
            r = smin(r, i)
        return r
    if _I(x, (list, tuple)):
        r = x[0]
        for i in x[1:]:
            r = smin(r, i)
        return r
    return x


def _iscomplexobj(x):
    return False


def _copy(x, *a, **k):
    return x.copy()


def _conj(x):
    return x.conj() if _I(x, (spectral.MatX, spectral.MatRef, spectral.Fac)) else x


def _real(x):
    if sym(x) or is_num(x):
        return x
    raise Unsupported('real')


def _shape(x):
    return x.shape


def _logical(f):
    def g(a, b):
        if _I(a, BV) or _I(b, BV):
            return f(a, b)
        if _I(a, (SB,)) or _I(b, SB):
            return f(a, b)
        return bool(f(bool(a), bool(b)))
    return g


def _eye(n, *a, **k):
    if _I(n, S):
        return Mat.eye(n)
    if _I(n, int):
        return SmM([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])
    raise Unsupported('eye')


def _dot(a, b):
    if _I(a, (Mat, spectral.Fac, spectral.MatX, spectral.MatRef)):
        return a @ b
    if _I(a, Sm) and _I(b, V) and b.rows:
        return VT(b) @ a
    return vdot(a, b)


def _vdot_c(a, b):
    return vdot(a.ravel() if _I(a, V) else a, b.ravel() if _I(b, V) else b)


def _prod(x, *a, **k):
    r = 1
    for i in x:
        r = r * i
    return r


def _count_nonzero(x, *a, **k):
    if _I(x, BV):
        return vsum(x)
    return vsum(x != 0)


def _pinv(x):
    """a matrix determined by the entries of x"""
    if not _I(x, SmM):
        raise Unsupported('pinv')
    from . import stubs
    c = ctx()
    flat = Sm([e for r in x.rows_ for e in r])
    n = len(x.rows_)

    def make():
        return [[core.fresh('pinv') for _ in range(n)] for _ in x.rows_[0]]
    return SmM([list(r) for r in stubs.uapp(c, 'pinv%d' % n, [flat], make)])


def _inplace(name):
    def f(*a, out=None, **k):
        base = getattr(np_, name + '_')
        r = base(*a, **k)
        return r
    return f


def _mul(a, b, out=None, **k):
    r = a * b
    return _out(r, out)


def _out(r, out):
    if out is None:
        return r
    out = out[0] if _I(out, tuple) else out
    out[:] = r
    return out


def without(f):
    def g(*a, out=None, **k):
        return _out(f(*a, **k), out)
    return g


_linalg = _NS(norm=_norm, pinv=_pinv, LinAlgError=_np.linalg.LinAlgError)
_linalg.solve = lambda A, y: solve(A, y) if _I(A, Mat) else _smsolve(A, y)


def _smsolve(A, y):
    """A s = y for a small matrix: s is any vector satisfying the equations"""
    if not _I(A, SmM):
        raise Unsupported('solve')
    return _sminv(A) @ y


def _sminv(A):
    if not _I(A, SmM):
        raise Unsupported('inverse')
    n = len(A.rows_)
    c = ctx()
    k = ('inv',) + core.ckey(*[z(e) for r in A.rows_ for e in r])
    if k in c.cache:
        return c.cache[k]
    rows = [[fresh('inv') for _ in range(n)] for _ in range(n)]
    r = SmM(rows)
    c.cache[k] = r
    ax = []
    for i in range(n):
        for j in range(n):
            t = z3.RealVal(0)
            for l in range(n):
                t = t + z(A.rows_[i][l]) * z(rows[l][j])
            ax.append(t == (1 if i == j else 0))
    for rr in rows:
        for e in rr:
            c.axioms[e.e.decl().name()] = ax
    return r


_linalg.inv = _sminv
_linalg.svd = spectral.svd
_linalg.svdvals = lambda X: spectral.svd(X, compute_uv=False)
_linalg.eigvalsh = spectral.eigvalsh
_linalg.multi_dot = lambda fs: __import__('functools').reduce(lambda a, b: a @ b, fs)

np_ = _NS(
    ndarray=ndarray, inf=_math.inf, newaxis=None, pi=_math.pi, nan=_math.nan, float64='float64', float32='float32', int64='int64',
    complex128='complex128', bool_=SB, bool='bool', number=S, floating=S, integer=S, generic=S,
    abs=without(_abs), absolute=without(_abs), fabs=without(_abs), sum=_sum, sqrt=without(un(ssqrt, _vsqrt)),
    maximum=without(bi(smax)), minimum=without(bi(smin)), fmax=without(bi(smax)), fmin=without(bi(smin)),
    sign=without(un(ssign, _elem1('sign', ssign))), power=without(_pow), float_power=without(_pow),
    square=without(lambda x: x * x if not _I(x, V) else x ** 2),
    exp=without(un(sexp, _elem1('exp', sexp))), log=without(un(slog, _elem1('log', slog))),
    dot=_dot, vdot=_vdot_c, inner=vdot, matmul=lambda a, b: a @ b, real=_real, imag=lambda x: x.imag, conj=_conj, conjugate=_conj,
    zeros_like=_like(0), ones_like=_like(1), zeros=_filled(0.0), ones=_filled(1.0), full=_full,
    array=_array, asarray=_asarray, asanyarray=_asarray, atleast_1d=_asarray, ascontiguousarray=_asarray, copy=_copy, where=_where, clip=without(_clip), isclose=_isclose, allclose=_allclose,
    any=_any, all=_all, concatenate=_concat, hstack=_hstack, vstack=_vstack, stack=_stack, expand_dims=_expand,
    min=_min, max=_max, amin=_min, amax=_max, mean=_mean, prod=_prod, iscomplexobj=_iscomplexobj, nan_to_num=_nan_to_num, cumsum=_cumsum, insert=_insert,
    isscalar=lambda x: _I(x, S) or is_num(x), shape=_shape, ndim=lambda x: x.ndim if sym(x) else 0, size=lambda x: x.size,
    logical_and=_logical(lambda a, b: a & b), logical_or=_logical(lambda a, b: a | b), logical_not=lambda a: ~a if not _I(a, bool) else not a,
    count_nonzero=_count_nonzero, eye=_eye, identity=_eye, linalg=_linalg, ravel=lambda x, *a: x.ravel(), reshape=lambda x, s, *a: x.reshape(s),
    add=without(lambda a, b: a + b), subtract=without(lambda a, b: a - b), multiply=without(lambda a, b: a * b), divide=without(lambda a, b: a / b), true_divide=without(lambda a, b: a / b),
    negative=without(lambda a: -a), positive=without(lambda a: +a), greater=lambda a, b: a > b, less=lambda a, b: a < b, less_equal=lambda a, b: a <= b, greater_equal=lambda a, b: a >= b,
    equal=lambda a, b: a == b, not_equal=lambda a, b: a != b, squeeze=lambda x, *a, **k: x.squeeze(), isnan=lambda x: False, isfinite=lambda x: True, isinf=lambda x: False,
    errstate=_np.errstate, random=_NS(randint=_randint), fft=_NS(), dtype=lambda x: x, finfo=_np.finfo, array_equal=lambda a, b: _all(a == b), shares_memory=lambda a, b: bool(_I(a, V) and _I(b, V) and {id(x) for x in a.bufs} & {id(x) for x in b.bufs}),
)


def _empty(shape, *a, **k):
    """contents are arbitrary"""
    if (k.get('dtype', a[0] if a else None) in ('bool', bool)) and _I(shape, int):
        c = ctx()
        return core.SmB([SB(z3.Bool(c.name('emptyb'))) for _ in range(shape)])
    r = _full(shape, 0.0)
    if _I(r, V):
        for b in r.bufs:
            b.val = vatom(Atom(ctx().name('empty'), b.val.size))
        return r
    if _I(r, Sm):
        return Sm([fresh('empty') for _ in r.items])
    raise Unsupported('empty')


def _empty_like(x, *a, **k):
    if _I(x, V):
        return x._new([vatom(Atom(ctx().name('empty'), v.size)) for v in x.vals])
    raise Unsupported('empty_like')


np_.empty = _empty
np_.flip = np_.flipud = spectral.vflip
np_.diag = spectral.diag
def _argsort(x, axis=-1, kind=None, *a, **k):
    if not _I(x, V) or x.rows or a or k or axis not in (-1, 0, None):
        raise Unsupported('argsort')
    return core.ArgSort(x)


def _argpartition(x, kth, axis=-1, *a, **k):
    if not _I(x, V) or x.rows or a or k or axis not in (-1, 0, None):
        raise Unsupported('argpartition')
    kth = z(kth)
    return core.ArgSort(x, kth=z3.simplify(z3.If(kth < 0, z(x.size) + kth, kth)))


np_.argsort = _argsort
np_.argpartition = _argpartition
np_.argmin = _argm(1)
np_.argmax = _argm(-1)
np_.arange = _arange
np_.arccos = un(core.sacos, _elem1('acos', core.sacos))
np_.cos = un(core.scos, _elem1('cos', core.scos))
np_.cbrt = un(core.scbrt, _elem1('cbrt', core.scbrt))
np_.expm1 = lambda x: np_.exp(x) - 1
np_.log1p = lambda x: np_.log(x + 1)
np_.transpose = lambda x: x.T
np_.empty_like = _empty_like
np_.full_like = lambda x, k, *a, **kw: x._new([vconst(k, v.size) for v in x.vals]) if _I(x, V) else _like(k)(x)

# math
math_ = _NS(sqrt=ssqrt, inf=_math.inf, pi=_math.pi, isclose=lambda a, b, **k: _isclose(a, b), exp=sexp, log=slog, fabs=sabs, isnan=lambda x: False, isinf=lambda x: False)


# scipy / pylops solvers -----------------------------------------------------------
def _log(solver, names, a, k):
    k = dict(zip(names, a), **k)
    ctx().__dict__.setdefault('solver_log', []).append(dict(solver=solver, x0=k.get('x0'), niter=k.get('iter_lim', k.get('niter'))))


LOGGED = {'lsqr': ('damp', 'atol', 'btol', 'conlim', 'iter_lim', 'show', 'calc_var', 'x0'), 'cg': ('x0', 'niter'),
          'regularized_inversion': ('Regs', 'x0')}


def _lsqr(Op, y, *a, **k):
    """exact solution of a square positive definite system, or of the normal equations of a stack"""
    _log('lsqr', LOGGED['lsqr'], a, k)
    if _I(Op, VStack):
        return (solve(Op.gram(), Op.rmatvec(y)), 0, 0, 0, 0, 0, 0, 0, 0, 0)
    return (solve(Op.mat, y), 0, 0, 0, 0, 0, 0, 0, 0, 0)


def _cg(Op, y, *a, **k):
    _log('cg', LOGGED['cg'], a, k)
    return (solve(Op.mat, y), 0, 0)


class _Chol:
    def __init__(self, m):
        self.m = m

    def __getitem__(self, i):
        return self


def _cho_factor(m, *a, **k):
    return _Chol(m)


def _cho_solve(f, y, *a, **k):
    return solve(f.m, y)


def _reginv(Op, data, Regs=None, x0=None, Weight=None, dataregs=None, epsRs=None, **k):
    """argmin ||Op x - data||^2 + sum eps_i^2 ||R_i x - d_i||^2 via its normal equations"""
    _log('regularized_inversion', (), (), dict(k, x0=x0))
    M = Op.mat.T @ Op.mat
    rhs = Val(Op.mat.T.apply(data.vals[0]).lin, Op.mat.ncol)
    eps = epsRs if epsRs is not None else [1.0] * len(Regs or [])
    for R, d, e in zip(Regs or [], dataregs or [None] * len(Regs or []), eps):
        M = M + (R.mat.T @ R.mat).scale(e * e)
        if d is not None:
            rhs = rhs.add(R.mat.T.apply(d.vals[0]).scale(e * e))
    return (solve(M, V.of(rhs)), 0, 0, 0, 0)


def _bisect(f, a, b, args=(), **k):
    """a root of f in [a, b]; precondition: f changes sign on [a, b]"""
    c = ctx()
    fa, fb = f(a, *args), f(b, *args)
    c.oblige('the bracket handed to bisect has a sign change', z3.Or(z3.And(z(fa) <= 0, z(fb) >= 0), z3.And(z(fa) >= 0, z(fb) <= 0)))
    r = fresh('root')
    c.assume(SB(z(f(r, *args)) == 0))
    c.__dict__.setdefault('roots', []).append(r)
    c.assumed.add('scipy.optimize.bisect returns an exact root inside its bracket')
    return r


def _softthreshold(x, thresh):
    return np_.maximum(np_.abs(x) - thresh, 0.0) * np_.sign(x)


class _deps:
    cupy_enabled = False
    numba_enabled = False
    jax_enabled = False


_LAMBERT = un(core.slambertw, _elem1('lambertw', core.slambertw))
MODULES = {}


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    MODULES[name] = m
    return m


def _uns(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


_module('numpy')
MODULES['numpy'] = np_
_module('numpy.linalg')
MODULES['numpy.linalg'] = _linalg
MODULES['math'] = math_


class _LazyPkg(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _uns(self.__name__ + '.' + n)


def _lazy(name, **attrs):
    m = _LazyPkg(name)
    m.__dict__.update(attrs)
    MODULES[name] = m
    return m


_lazy('scipy')
_lazy('scipy.sparse')
_lazy('scipy.sparse.linalg', lsqr=_lsqr, cg=_cg)
_lazy('scipy.linalg', svd=spectral.svd, svdvals=lambda X: spectral.svd(X, compute_uv=False), eigvalsh=spectral.eigvalsh, cho_factor=_cho_factor, cho_solve=_cho_solve)
_lazy('scipy.optimize', bisect=_bisect, brentq=_bisect)
_lazy('scipy.special', lambertw=lambda z_, k=0, tol=1e-8: _LAMBERT(z_) if k == 0 else _uns('branch of lambertw')())
_lazy('pylops', Identity=Identity, VStack=VStack, MatrixMult=MatrixMult, LinearOperator=LinOp)
_lazy('pylops.utils', deps=_deps)
_lazy('pylops.utils.deps', cupy_enabled=False, numba_enabled=False)
_lazy('pylops.utils.typing', NDArray=object, ShapeLike=object, IntNDArray=object)
_lazy('pylops.utils.backend', get_array_module=lambda x: np_, get_module=lambda x='numpy': np_, get_module_name=lambda m: 'numpy',
      to_numpy=lambda x: x, to_cupy_conditional=lambda x, y: y, get_normalize_axis_index=_uns('normalize_axis_index'))
_lazy('pylops.optimization')
_lazy('pylops.optimization.basic', cg=_cg, lsqr=_lsqr)
_lazy('pylops.optimization.leastsquares', regularized_inversion=_reginv)
_lazy('pylops.optimization.cls_sparsity', _softthreshold=_softthreshold)
_lazy('pylops.linearoperator', LinearOperator=LinOp)
MODULES['scipy.sparse'].linalg = MODULES['scipy.sparse.linalg']
