"""Uninterpreted operands of the contracts (symbolic reading)."""
from __future__ import annotations

import z3

from . import core, prover
from .core import Atom, Buf, S, SB, Sm, Unsupported, V, Val, ctx, vatom, z


def argkey(a):
    if isinstance(a, V):
        return ('v',) + tuple(v.key() for v in a.vals)
    if isinstance(a, (Sm,)):
        return ('s',) + core.ckey(*[z(i) for i in a.items])
    if isinstance(a, (list, tuple)):
        return ('l',) + tuple(argkey(i) for i in a)
    if isinstance(a, S) or core.is_num(a):
        return ('r',) + core.ckey(z(a))
    raise Unsupported('argument of an abstract function: %r' % type(a))


def _diff(a, b):
    """list of z3 equalities making a == b, or None if shapes differ"""
    if isinstance(a, V) and isinstance(b, V):
        if len(a.bufs) != len(b.bufs):
            return None
        out = []
        for x, y in zip(a.vals, b.vals):
            d = x.add(y, -1)
            if d.lin:
                out.append(d)
        return out
    if isinstance(a, Sm) and isinstance(b, Sm) and len(a.items) == len(b.items):
        return [z(x) - z(y) for x, y in zip(a.items, b.items)]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            d = _diff(x, y)
            if d is None:
                return None
            out += d
        return out
    if (isinstance(a, S) or core.is_num(a)) and (isinstance(b, S) or core.is_num(b)):
        return [z(a) - z(b)]
    return None


def same_args(C, xs, ys):
    ds = []
    for a, b in zip(xs, ys):
        d = _diff(a, b)
        if d is None:
            return False
        ds += d
    # cheap rejection: distinct atoms with constant coefficients
    for d in ds:
        if isinstance(d, Val):
            for at, cf in d.lin.items():
                if at.defn is None:
                    q = core.num_of(z3.simplify(cf))
                    if q is not None and q != 0 and not _related(at, d):
                        return False
        else:
            q = core.num_of(z3.simplify(d))
            if q is not None and q != 0:
                return False
    # differences that do not vanish identically can only vanish through an equation on the path
    if not any(_has_eq(p) for p in C.pc):
        for d in ds:
            for e in (d.lin.values() if isinstance(d, Val) and not any(at.defn is not None for at in d.lin) else [] if isinstance(d, Val) else [d]):
                if _random_nonzero(e):
                    return False
    for d in ds:
        if isinstance(d, Val):
            if all(prover.implied(C, cf == 0, 800) for cf in d.lin.values()):
                continue
            if any(at.defn is not None for at in d.lin) and prover.implied(C, d.at(C.I) == 0, 800):
                continue
            return False
        if not prover.implied(C, d == 0, 800):
            return False
    return True


_eqm = {}


def _has_eq(p):
    k = p.get_id()
    if k not in _eqm:
        st, found = [p], False
        while st:
            x = st.pop()
            if z3.is_eq(x) or z3.is_distinct(x):
                found = not (z3.is_not(p) and x.get_id() == p.arg(0).get_id())
                if found:
                    break
            elif z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x):
                st.extend(x.children())
        _eqm[k] = (found, p)
    return _eqm[k][0]


def _random_nonzero(e):
    cs = prover.consts_of([e])
    if not cs:
        q = core.num_of(z3.simplify(e))
        return q is not None and q != 0
    import random
    r = random.Random(len(cs))
    sub = [(c, z3.RealVal('%d/%d' % (r.randrange(101, 999), r.randrange(101, 999)))) for c in cs.values() if c.sort() == z3.RealSort()]
    q = core.num_of(z3.simplify(z3.substitute(e, *sub)))
    return q is not None and q != 0


def _related(at, d):
    return any(o.defn is not None for o in d.lin if o is not at)


def uapp(C, fname, args, make):
    k = ('uapp', fname) + tuple(argkey(a) for a in args)
    if k in C.cache:
        return C.cache[k]
    for (ys, r) in C.apps.setdefault(('a', fname), []):
        if len(ys) == len(args) and same_args(C, args, ys):
            C.cache[k] = r
            return r
    r = make()
    # remember values, not the mutable arrays
    snap = [a.copy() if isinstance(a, (V, Sm)) else a for a in args]
    C.apps[('a', fname)].append((snap, r))
    C.cache[k] = r
    return r


def uvec(C, fname, args, same=None, sizes=None):
    def make():
        szs = sizes if sizes is not None else [v.size for v in same.vals]
        return [vatom(Atom(C.name(fname), s)) for s in szs]
    vals = uapp(C, fname, args, make)
    if same is not None:
        return V([Buf(v) for v in vals], same._shape, same.rows)
    return V([Buf(v) for v in vals])


def ureal(C, fname, args, axioms=None):
    def make():
        n = C.name(fname)
        k = z3.Real(n)
        if axioms:
            C.axioms[n] = axioms(k)
        return S(k)
    return uapp(C, fname, args, make)


def make_absprox(base):
    class AbsProx(base):
        """an arbitrary operator: prox, dual prox, value and gradient are uninterpreted functions"""

        def __init__(self, B, name, grad=True, inplace=False, dual=True, value='real', check=False, symmetric=False):
            self.vf_symmetric = symmetric        # of the value, under permutations of the entries
            super().__init__(None, grad)
            self.vf_check = check
            self.vf_B, self.vf_name, self.inplace = B, name, inplace
            self.vf_value = value
            self.ncalls = 0

        def _vf_step(self, tau):
            # the contract of every operator (P01): a step that is not positive is refused
            if self.vf_check:
                bad = tau <= 0
                if isinstance(bad, (core.BV, core.SmB)):
                    bad = bad.any()
                if bad:
                    raise ValueError('tau must be positive')

        def prox(self, x, tau, **k):
            C = ctx()
            self._vf_step(tau)
            self.ncalls += 1
            if not isinstance(x, V):
                raise Unsupported('prox of %r' % type(x))
            if self.inplace:
                return x
            return uvec(C, self.vf_name + '.prox', [x, tau], same=x)

        def proxdual(self, x, tau, **k):
            C = ctx()
            self._vf_step(tau)
            if not isinstance(x, V):
                raise Unsupported('proxdual of %r' % type(x))
            if self.inplace:
                return x
            return uvec(C, self.vf_name + '.proxdual', [x, tau], same=x)

        def __call__(self, x):
            C = ctx()
            if self.vf_symmetric:
                from . import spectral
                if isinstance(x, V) and len(x.bufs) == 1 and spectral.flipped(x.vals):
                    x = V([Buf(spectral.flip(x.vals[0]))])
            if self.vf_value == 'bool':
                def mkb():
                    return SB(z3.Bool(C.name(self.vf_name + '.ind')))
                return uapp(C, self.vf_name + '.ind', [x], mkb)
            return ureal(C, self.vf_name + '.value', [x])

        def grad(self, x):
            C = ctx()
            return uvec(C, self.vf_name + '.grad', [x], same=x)

        def __deepcopy__(self, memo):
            return self
    return AbsProx


def make_bilinear(base):
    class AbsBilinear(base):
        """an arbitrary bilinear functional: its partial gradients depend on the block handed in and the other block held"""

        def __init__(self, name):
            self.vf_name = name
            self.x = self.y = None
            self.sizex = self.sizey = 0

        def gx(self, x, y):
            return uvec(ctx(), self.vf_name + '.gradx', [x, y], same=x)

        def gy(self, x, y):
            return uvec(ctx(), self.vf_name + '.grady', [x, y], same=y)

        def val(self, x, y):
            return ureal(ctx(), self.vf_name + '.value', [x, y])

        def gradx(self, x):
            return self.gx(x, self.y)

        def grady(self, y):
            return self.gy(self.x, y)

        def __call__(self, x, y=None):
            if y is None:
                raise Unsupported('concatenated blocks')
            return self.val(x, y)

        def grad(self, x):
            if not isinstance(x, V) or len(x.bufs) != 2 or x.rows:
                raise Unsupported('concatenated blocks')
            from . import shims
            return shims.np_.hstack([self.gradx(x[:self.sizex]), self.grady(x[self.sizex:])])

        def lx(self, x):
            return ureal(ctx(), self.vf_name + '.lx', [x], axioms=lambda k: [k > 0])

        def ly(self, y):
            return ureal(ctx(), self.vf_name + '.ly', [y], axioms=lambda k: [k > 0])
    return AbsBilinear
