"""Matrices seen through their singular value decomposition (symbolic reading).

Assumed of numpy.linalg: svd returns factors with  X = U diag(s) V^H, U^H U = V^H V = I, s >= 0; svd(c X) = (U, c s, V^H) for
c > 0; eigvalsh(X^H X) are the squared singular values in ascending order preceded by zeros; norm(X, 'nuc') = sum(s).
The map  L_X : d -> U diag(d) V^H  is then linear, L_X s = X and L_X^H L_X = I (an isometry); that is all that is used."""
from __future__ import annotations

import z3

from . import core
from .core import Atom, Buf, S, Unsupported, V, Val, ctx, is_num, vatom, vconst, z


def _op():
    from . import shims

    class SpecOp(shims.BaseOp):
        """d -> (U diag(d) V^H) flattened"""
        isometry = True

        def __init__(self, name, m, n, s, val):
            shims.BaseOp.__init__(self, name, m, n)
            self.s, self.val = s, val

        def _atom(self, a, adj, size):
            if not adj and a is self.s and self.val is not None:
                return self.val
            if adj and a.tag and a.tag[0] == 'lin' and a.tag[1] is self and a.tag[2] == 'mat':
                return vatom(a.tag[3])
            if adj and self.val is not None and len(self.val.lin) == 1:
                (b, cf), = self.val.lin.items()
                if b is a:
                    return vatom(self.s).scale(S(z3.simplify(1 / cf)))
            return shims.BaseOp._atom(self, a, adj, size)
    return SpecOp


class Rec:
    """the decomposition of one matrix"""

    def __init__(self, op, s, shape):
        self.op, self.s, self.shape = op, s, shape


def _s(name, k):
    a = Atom(name, k)
    ctx().elem_facts.append(lambda idx, a=a: a.at(idx) >= 0)
    return a


def matrix(C, name, dims):
    """an arbitrary matrix, flattened, written through its decomposition"""
    n, m = dims
    k = _least(n, m)
    s = _s('s(%s)' % name, k)
    size = S(z3.simplify(z(n) * z(m)), True)
    op = _op()('L(%s)' % name, size, k, s, None)
    x = Atom(name, size, tag=('lin', op, 'mat', s))
    C.cache[('lin', id(op), False, s.id)] = vatom(x)
    C.cache.setdefault('spectral', {})[(x.id,)] = Rec(op, s, (n, m))
    C.keep.append(op)
    return V([Buf(vatom(x), name)])


def _least(n, m):
    from . import prover
    if prover.implied(ctx(), z(n) <= z(m)):
        return n
    if prover.implied(ctx(), z(m) <= z(n)):
        return m
    return n if bool(S(z(n)) <= S(z(m))) else m


def decompose(X):
    """(Rec, factor c > 0) with  X = c * (matrix of Rec)"""
    from . import prover
    from .stubs import uapp
    c = ctx()
    val = X.bufs[0].val
    n, m = X.shape
    fac = z3.RealVal(1)
    if val.lin:
        a0 = min(val.lin, key=lambda a: a.id)
        cf = val.lin[a0]
        q = core.num_of(z3.simplify(cf))
        if (q is not None and q > 0) or (q is None and prover.implied(c, cf > 0)):
            fac = cf
            val = Val({a: (z3.RealVal(1) if a is a0 else z3.simplify(k / cf, som=True)) for a, k in val.lin.items()}, val.size)
    if len(val.lin) == 1:
        (a, cf), = val.lin.items()
        r = c.cache.get('spectral', {}).get((a.id,))
        if r is not None and core.num_of(z3.simplify(cf)) == 1 and _sameshape(r.shape, (n, m)):
            return r, fac
    k = _least(n, m)

    def make():
        nm = c.name('svd')
        s = _s('s(%s)' % nm, k)
        op = _op()('L(%s)' % nm, val.size, k, s, val)
        c.keep.append(op)
        return Rec(op, s, (n, m))
    return uapp(c, 'svd', [V.of(val), n, m], make), fac


def _sameshape(a, b):
    from . import prover
    return all(prover.implied(ctx(), z(p) == z(q)) for p, q in zip(a, b))


class MatX(V):
    """a two-dimensional array over one block"""

    def _new(self, vals):
        return MatX([Buf(v) for v in vals], self._shape)

    @property
    def T(self):
        return MatRef(self, True, False)

    def conj(self):
        return MatRef(self, False, True)

    conjugate = conj

    def transpose(self):
        return self.T

    def __matmul__(self, o):
        if isinstance(o, (MatRef, MatX)):
            return MatRef(self, False, False) @ o
        raise Unsupported('matrix product')

    def dot(self, o):
        return self @ o

    def ravel(self, *a, **k):
        return V(self.bufs)

    def copy(self, *a, **k):
        return MatX([Buf(v) for v in self.vals], self._shape)

    __hash__ = object.__hash__

    def __getitem__(self, i):
        if isinstance(i, core.BV) or (isinstance(i, slice) and i == slice(None)):
            return V.__getitem__(self, i)
        raise Unsupported('index into a matrix')


class MatRef:
    """transpose and/or conjugate of a matrix; the two flags are formal, so that the reading covers complex matrices"""
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, X, t, c):
        self.X, self.t, self.c = X, t, c

    @property
    def shape(self):
        return self.X.shape[::-1] if self.t else self.X.shape

    @property
    def T(self):
        return self._w(not self.t, self.c)

    def transpose(self):
        return self.T

    def conj(self):
        return self._w(self.t, not self.c)

    conjugate = conj

    def _w(self, t, c):
        return MatRef(self.X, t, c) if t or c else self.X

    def __matmul__(self, o):
        if isinstance(o, MatX):
            o = MatRef(o, False, False)
        if not isinstance(o, MatRef):
            raise Unsupported('matrix product')
        if len(self.X.bufs) != 1 or len(o.X.bufs) != 1:
            raise Unsupported('product of matrices')
        if o.t != self.t and o.c != self.c and self.X.bufs[0].val.key() == o.X.bufs[0].val.key():
            return Gram(self.X, self.shape[0], self.t)
        return product(self, o)

    def ravel(self, *a, **k):
        from . import words
        return V([Buf(words.matval(self.X.bufs[0].val, self.X.shape, self.t))])

    flatten = ravel

    def reshape(self, *shp):
        return self.ravel().reshape(*shp)

    def __neg__(self):
        return MatRef(-self.X, self.t, self.c)

    def __mul__(self, o):
        if isinstance(o, S) or is_num(o):
            return MatRef(self.X * o, self.t, self.c)
        raise Unsupported('product with a transposed matrix')

    __rmul__ = __mul__

    def __rmatmul__(self, o):
        return MatRef(o, False, False) @ self

    def dot(self, o):
        return self @ o

    def copy(self):
        return MatRef(self.X, self.t, self.c)


def product(p, q):
    from . import words
    val, shape = words.product(p.X.bufs[0].val, p.X.shape, p.t, q.X.bufs[0].val, q.X.shape, q.t)
    return MatX([Buf(val)], shape)


class Gram:
    """X^H X or X X^H"""
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, X, side, left):
        self.X, self.side, self.left = X, side, left

    def full(self):
        return product(MatRef(self.X, self.left, False), MatRef(self.X, not self.left, False))

    @property
    def shape(self):
        return (self.side, self.side)


class Fac:
    """U, V^H, diag(d), U diag(d) or diag(d) V^H"""
    __array_ufunc__ = None
    __array_priority__ = 3000
    ndim = 2
    _vf_fac = True

    def __init__(self, kind, rec, d=None):
        self.kind, self.rec, self.d = kind, rec, d

    @property
    def shape(self):
        k = self.rec.s.size if self.rec else self.d.size
        return {'U': (self.rec and self.rec.shape[0], k), 'UD': (self.rec and self.rec.shape[0], k), 'V': (k, self.rec and self.rec.shape[1]),
                'DV': (k, self.rec and self.rec.shape[1]), 'D': (k, k)}[self.kind]

    def _d(self):
        return self.d if self.d is not None else vconst(1, self.rec.s.size)

    def _scale(self, o, kinds):
        """columns of U (rows of V^H) scaled by the entries of o"""
        if isinstance(o, Line):
            if o.col != (self.kind in ('V', 'DV')):
                raise Unsupported('scaling of singular vectors')
            v = o.v.bufs[0].val
        elif isinstance(o, V) and not isinstance(o, MatX) and len(o.bufs) == 1 and not o.rows:
            if self.kind in ('V', 'DV', 'D'):
                raise Unsupported('scaling of singular vectors')
            v = o.bufs[0].val
        elif isinstance(o, S) or is_num(o):
            v = vconst(o, self._d().size)
        else:
            raise Unsupported('scaling of singular vectors by %r' % type(o))
        return v

    def __mul__(self, o):
        v = self._scale(o, None)
        return Fac({'U': 'UD', 'UD': 'UD', 'V': 'DV', 'DV': 'DV', 'D': 'D'}[self.kind], self.rec, core.vmul(self._d(), v))

    __rmul__ = __mul__

    def __truediv__(self, o):
        v = self._scale(o, None)
        return Fac({'U': 'UD', 'UD': 'UD', 'V': 'DV', 'DV': 'DV', 'D': 'D'}[self.kind], self.rec, core.vdiv(self._d(), v))

    def __matmul__(self, o):
        if not isinstance(o, Fac):
            raise Unsupported('product of a singular factor')
        k = (self.kind, o.kind)
        if k in (('U', 'D'), ('UD', 'D'), ('D', 'V'), ('D', 'DV'), ('D', 'D')):
            kind = {'U': 'UD', 'UD': 'UD', 'D': o.kind if o.kind == 'D' else 'DV'}[self.kind]
            return Fac(kind, self.rec or o.rec, core.vmul(self._d(), o._d()))
        if self.kind in ('U', 'UD') and o.kind in ('V', 'DV') and self.rec is o.rec:
            d = core.vmul(self._d(), o._d())
            return MatX([Buf(Val(self.rec.op.base_matvec(d).lin, self.rec.op.m))], self.rec.shape)
        raise Unsupported('product of singular factors')

    def __rmatmul__(self, o):
        raise Unsupported('product of a singular factor')

    def dot(self, o):
        return self @ o

    def copy(self):
        return Fac(self.kind, self.rec, self.d)

    def conj(self):
        raise Unsupported('conjugate of a singular factor')

    @property
    def T(self):
        raise Unsupported('transpose of a singular factor')

    def __getitem__(self, i):
        raise Unsupported('part of a singular factor')


class Line:
    """d[:, None] or d[None, :]"""
    __array_ufunc__ = None
    __array_priority__ = 2500
    ndim = 2

    def __init__(self, v, col):
        self.v, self.col = v, col

    @property
    def shape(self):
        return (self.v.size, 1) if self.col else (1, self.v.size)

    @property
    def T(self):
        return Line(self.v, not self.col)

    def __mul__(self, o):
        if isinstance(o, Fac):
            return o * self
        if isinstance(o, S) or is_num(o):
            return Line(self.v * o, self.col)
        raise Unsupported('broadcast product')

    __rmul__ = __mul__


def svd(X, full_matrices=True, compute_uv=True, **k):
    if not isinstance(X, MatX):
        raise Unsupported('svd of %r' % type(X))
    if compute_uv and full_matrices:
        raise Unsupported('full svd')
    r, c = decompose(X)
    s = V.of(vatom(r.s).scale(S(c)))
    if not compute_uv:
        return s
    return Fac('U', r), s, Fac('V', r)


def eigvalsh(G, *a, **k):
    if not isinstance(G, Gram):
        raise Unsupported('eigenvalues')
    if not isinstance(G, Gram):
        raise Unsupported('eigenvalues')
    r, c = decompose(G.X)
    s = vatom(r.s).scale(S(c))
    sq = flip(core.vmul(s, s))
    kk = r.s.size
    from . import prover
    if prover.implied(ctx(), z(G.side) == z(kk)):
        return V.of(sq)
    return V([Buf(Val({}, S(z3.simplify(z(G.side) - z(kk)), True))), Buf(sq)])


def eigh(G, *a, **k):
    return eigvalsh(G), Opaque('eigenvectors')


class Opaque:
    def __init__(self, what):
        self.what = what

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(self.what)


def nuc(X):
    return core.vsum(svd(X, compute_uv=False))


def diag(d, k=0):
    if isinstance(d, V) and len(d.bufs) == 1 and d.ndim == 1 and core.is_num(k) and k == 0:
        return Fac('D', None, d.bufs[0].val)
    raise Unsupported('diag')


# ---------------------------------------------------------------- reversal
def flip_atom(a):
    c = ctx()
    if a.tag == ('ones',):
        return a
    if a.tag and a.tag[0] == 'flip':
        return a.tag[1]
    k = ('flip', a.id)
    if k not in c.cache:
        n = z(a.size)
        c.cache[k] = Atom('flip(%s)' % a.name, a.size, defn=lambda idx: a.at(z3.simplify(n - 1 - idx)), tag=('flip', a))
    return c.cache[k]


def flip(val):
    out = Val({}, val.size)
    for a, cf in val.lin.items():
        out = out.add(Val({flip_atom(a): cf}, val.size))
    return out


def flipped(vals):
    """are these all reversals (or constant), at least one of them a reversal?"""
    some = False
    for v in vals:
        for a in v.lin:
            t = a.tag
            if t and t[0] == 'flip':
                some = True
            elif t != ('ones',):
                return False
    return some


def vflip(x, axis=None):
    if core.is_num(x) or isinstance(x, S):
        return x
    if isinstance(x, core.Sm):
        return core.Sm(x.items[::-1])
    if not isinstance(x, V) or x.rows or isinstance(x, MatX):
        raise Unsupported('flip')
    return V([Buf(flip(b.val)) for b in reversed(x.bufs)])
