"""P07 (and P02, P08, P01): composition calculus."""
from vf.api import contract
from contracts.util import block, cat, sub


@contract('P07 P08 P09', 'ProxOperator._SumOperator.prox ProxOperator._SumOperator.__call__ ProxOperator._SumOperator.grad ProxOperator.affine_addition ProxOperator.__add__ ProxOperator.__sub__')
def affine_addition(B):
    f = B.prox('f')
    x, v, tau = B.vec('x'), B.vec('v'), B.scalar('tau', pos=True)
    for g in (f + v, f.affine_addition(v)):
        B.eq('value of f + v', g(x), f(x) + B.np.dot(v, x), 'P07')
        B.eq('prox of f + v', g.prox(x, tau), f.prox(x - tau * v, tau), 'P07')
        B.eq('gradient of f + v', g.grad(x), f.grad(x) + v, 'P08')
        B.same('gradient flag of f + v', g.hasgrad, True, 'P08')
    h = f - v
    B.eq('value of f - v', h(x), f(x) - B.np.dot(v, x), 'P07')
    B.eq('prox of f - v', h.prox(x, tau), f.prox(x + tau * v, tau), 'P07')
    B.eq('gradient of f - v', h.grad(x), f.grad(x) - v, 'P08')
    B.frames()


@contract('P07 P08 P09', 'ProxOperator._PostcompositionOperator.prox ProxOperator._PostcompositionOperator.__call__ ProxOperator._PostcompositionOperator.grad ProxOperator.postcomposition ProxOperator.__rmul__')
def postcomposition(B):
    f = B.prox('f')
    x, s, tau = B.vec('x'), B.scalar('sigma', pos=True), B.scalar('tau', pos=True)
    for g in (f.postcomposition(s), s * f):
        B.eq('value of sigma f', g(x), s * f(x), 'P07')
        B.eq('prox of sigma f', g.prox(x, tau), f.prox(x, s * tau), 'P07')
        B.eq('gradient of sigma f', g.grad(x), s * f.grad(x), 'P08')
        B.same('gradient flag of sigma f', g.hasgrad, True, 'P08')
    # the value and its gradient for a factor of any sign (no prox: the function need not be convex)
    r = B.scalar('r', ne=0)
    h = f.postcomposition(r)
    B.eq('value of sigma f (any sign)', h(x), r * f(x), 'P07')
    B.eq('gradient of sigma f (any sign)', h.grad(x), r * f.grad(x), 'P08')
    B.frames()


@contract('P07 P08 P09', 'ProxOperator._PrecompositionOperator.prox ProxOperator._PrecompositionOperator.__call__ ProxOperator._PrecompositionOperator.grad ProxOperator.precomposition',
          cfgs=[dict(b='scalar'), dict(b='array')])
def precomposition(B, b):
    f = B.prox('f')
    x, a, tau = B.vec('x'), B.scalar('a', ne=0), B.scalar('tau', pos=True)
    bv = B.scalar('b') if b == 'scalar' else B.vec('b')
    g = f.precomposition(a, bv)
    B.eq('value of f(a x + b)', g(x), f(a * x + bv), 'P07')
    B.eq('prox of f(a x + b)', g.prox(x, tau), (f.prox(a * x + bv, a * a * tau) - bv) / a, 'P07')
    B.eq('gradient of f(a x + b)', g.grad(x), a * f.grad(a * x + bv), 'P08')
    B.same('gradient flag of f(a x + b)', g.hasgrad, True, 'P08')
    B.frames()


@contract('P07 P09', 'ProxOperator._ChainOperator.prox ProxOperator._ChainOperator.__call__ ProxOperator.chain ProxOperator.__rmul__')
def chain(B):
    f, g = B.prox('f'), B.prox('g')
    x, tau = B.vec('x'), B.scalar('tau', pos=True)
    h = f.chain(g)
    B.eq('chained prox is prox g after prox f', h.prox(x, tau), g.prox(f.prox(x, tau), tau))
    h = f.__rmul__(g)
    B.eq('g * f applies prox g after prox f', h.prox(x, tau), g.prox(f.prox(x, tau), tau))
    B.frames()


@contract('P07 P08 P09', 'ProxOperator composition of compositions', cfgs=[dict(k=i) for i in range(6)])
def nested(B, k):
    """the calculus applies to derived operators again"""
    f = B.prox('f')
    x, v, w, tau = B.vec('x'), B.vec('v'), B.vec('w'), B.scalar('tau', pos=True)
    s, a, b = B.scalar('sigma', pos=True), B.scalar('a', ne=0), B.scalar('b')
    dot = B.np.dot
    if k == 0:
        g = s * (f + v)
        val, prx, grd = s * (f(x) + dot(v, x)), f.prox(x - s * tau * v, s * tau), s * (f.grad(x) + v)
    elif k == 1:
        g = (s * f) + v
        val, prx, grd = s * f(x) + dot(v, x), f.prox(x - tau * v, s * tau), s * f.grad(x) + v
    elif k == 2:
        g = (f + v).precomposition(a, b)
        y = a * x + b
        val, prx, grd = f(y) + dot(v, y), (f.prox(y - a * a * tau * v, a * a * tau) - b) / a, a * (f.grad(y) + v)
    elif k == 3:
        g = (f + v) - w
        val, prx, grd = f(x) + dot(v, x) - dot(w, x), f.prox(x + tau * w - tau * v, tau), f.grad(x) + v - w
    elif k == 4:
        g = s * f.precomposition(a, v)
        y = a * x + v
        val, prx, grd = s * f(y), (f.prox(y, a * a * s * tau) - v) / a, s * a * f.grad(y)
    else:
        g = f.precomposition(a, v).precomposition(s, w)
        y = a * (s * x + w) + v
        val, prx, grd = f(y), ((f.prox(y, a * a * s * s * tau) - v) / a - w) / s, s * a * f.grad(y)
    B.eq('value', g(x), val, 'P07')
    B.eq('prox', g.prox(x, tau), prx, 'P07')
    B.eq('gradient', g.grad(x), grd, 'P08')
    B.frames()


@contract('P02 P09', 'ProxOperator._AdjointOperator.prox ProxOperator._AdjointOperator.proxdual ProxOperator.H')
def adjoint(B):
    f = B.prox('f')
    x, tau = B.vec('x'), B.scalar('tau', pos=True)
    B.eq('adjoint prox is the dual prox', f.H.prox(x, tau), f.proxdual(x, tau), 'P02')
    B.eq('adjoint dual prox is the prox', f.H.proxdual(x, tau), f.prox(x, tau), 'P02')
    B.eq('twice adjoint prox', f.H.H.prox(x, tau), f.prox(x, tau), 'P02')
    B.eq('twice adjoint dual prox', f.H.H.proxdual(x, tau), f.proxdual(x, tau), 'P02')
    B.frames()


@contract('P02 P09', 'ProxOperator.prox ProxOperator.proxdual ProxOperator._prox_moreau ProxOperator._proxdual_moreau')
def moreau_derived(B):
    f = B.prox('f')
    base = B.P.ProxOperator

    class OnlyProx(base):
        def __init__(self):
            super().__init__(None, False)

        def prox(self, x, tau):
            return f.prox(x, tau)

    class OnlyDual(base):
        def __init__(self):
            super().__init__(None, False)

        def proxdual(self, x, tau):
            return f.proxdual(x, tau)
    x, tau = B.vec('x'), B.scalar('tau', pos=True)
    p, d = OnlyProx(), OnlyDual()
    B.eq('derived dual prox', p.proxdual(x, tau), x - tau * f.prox(x / tau, 1.0 / tau), 'P02')
    B.eq('derived prox', d.prox(x, tau), x - tau * f.proxdual(x / tau, 1.0 / tau), 'P02')
    B.eq('identity with the derived dual', p.prox(x, tau) + tau * p.proxdual(x / tau, 1.0 / tau), x, 'P02')
    B.eq('identity with the derived prox', d.prox(x, tau) + tau * d.proxdual(x / tau, 1.0 / tau), x, 'P02')
    B.eq('adjoint of an operator with a derived dual', p.H.prox(x, tau), x - tau * f.prox(x / tau, 1.0 / tau), 'P02')
    B.frames()


DERIVED = ['sum', 'diff', 'scale', 'pre', 'chain', 'adj', 'vstack', 'orth']


@contract('P02 P09', 'ProxOperator.proxdual on derived operators', cfgs=[dict(k=k) for k in DERIVED])
def moreau_composed(B, k):
    f = B.prox('f')
    x, v, tau, s = B.vec('x'), B.vec('v'), B.scalar('tau', pos=True), B.scalar('sigma', pos=True)
    g = {'sum': lambda: f + v, 'diff': lambda: f - v, 'scale': lambda: s * f, 'pre': lambda: f.precomposition(s, v), 'chain': lambda: f.chain(B.prox('g')),
         'adj': lambda: (f + v).H, 'vstack': lambda: B.P.VStack([f], nn=[x.size]), 'orth': lambda: B.P.Orthogonal(f, B.linop('Q', 'n', 'n', orth=1.0), b=v)}[k]()
    B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', g.prox(x, tau) + tau * g.proxdual(x / tau, 1.0 / tau), x, 'P02')
    B.frames()


@contract('P02', 'utils.moreau.moreau', ncases=60)
def moreau_helper(B):
    """True exactly when the identity holds numerically, otherwise raises or returns False"""
    f = B.prox('f')
    x, tau = B.vec('x'), B.scalar('tau', pos=True)
    off = B.vec('offset')
    base = B.P.ProxOperator

    class Off(base):
        def __init__(self):
            super().__init__(None, False)

        def prox(self, x, tau):
            return f.prox(x, tau)

        def proxdual(self, x, tau):
            return x - tau * f.prox(x / tau, 1.0 / tau) + off
    moreau = B.mod('utils.moreau').moreau
    err = B.np.abs(tau * off)
    o = Off()
    # the helper's own tolerance lies between the two thresholds
    if B.cond(B.all(err <= 1e-05)):
        B.true('accepts', moreau(o, x, tau), 'P02')
        B.true('accepts without raising', moreau(o, x, tau, raiseerror=False), 'P02')
    elif not B.cond(B.all(err <= 1e-04 + 1e-04 * B.np.abs(x))):
        B.true('rejects when asked not to raise', moreau(o, x, tau, raiseerror=False) == False, 'P02')  # noqa
        B.raises('raises', ValueError, lambda: moreau(o, x, tau), 'P02')
    good = Off()
    good.proxdual = lambda x, tau: x - tau * f.prox(x / tau, 1.0 / tau)
    B.true('accepts an exact dual', moreau(good, x, tau), 'P02')
    B.frames()


@contract('P07 P08 P09', 'VStack.__init__ VStack.prox VStack.__call__ VStack.grad', cfgs=[dict(k=1), dict(k=2), dict(k=3)])
def vstack_nn(B, k):
    names = ['n0', 'n1', 'n2'][:k]
    nn = [B.dim(n) for n in names]
    x = B.vec('x', blocks=names) if k > 1 else B.vec('x', 'n0')
    tau = B.scalar('tau', pos=True)
    ops = [B.prox('f%d' % i) for i in range(k)]
    f = B.P.VStack(ops, nn=nn)
    xs = [block(B, x, nn, i) for i in range(k)]
    val = 0.0
    for o, xi in zip(ops, xs):
        val = val + o(xi)
    B.eq('value is the sum over blocks', f(x), val, 'P07')
    p = f.prox(x, tau)
    B.same('length', True if B.sym else p.shape == x.shape, True, 'P07')
    B.eq('prox acts blockwise', p, cat(B, [o.prox(xi, tau) for o, xi in zip(ops, xs)]), 'P07')
    B.eq('gradient acts blockwise', f.grad(x), cat(B, [o.grad(xi) for o, xi in zip(ops, xs)]), 'P08')
    B.frames()


@contract('P07 P08 P09', 'VStack restriction branch', sym_only=True, replay='vstack_restr', cfgs=[dict(k=1), dict(k=2), dict(k=3)])
def vstack_restr_all(B, k):
    """blocks given as restrictions: any partition of the indices into k sets (two restrictions of disjoint places: R_i R_j^H = 0)"""
    from vf import shims
    n = B.dim('n0')
    sizes = [B.dim('n%d' % i) for i in range(k)]
    for m in sizes[1:]:
        n = n + m
    R = []
    for i, m in enumerate(sizes):
        R.append(shims.Restriction('R%d' % i, m, n, R))
    x, tau = B.vec('x', n), B.scalar('tau', pos=True)
    ops = [B.prox('f%d' % i) for i in range(k)]
    f = B.P.VStack(ops, restr=R)
    val, p, g = 0.0, 0 * x, 0 * x
    for o, r in zip(ops, R):
        xi = r.matvec(x)
        val, p, g = val + o(xi), p + r.rmatvec(o.prox(xi, tau)), g + r.rmatvec(o.grad(xi))
    B.eq('value', f(x), val, 'P07')
    B.eq('prox', f.prox(x, tau), p, 'P07')
    B.eq('gradient', f.grad(x), g, 'P08')
    B.raises('a wrong length is refused', ValueError, lambda: f(B.vec('w', n + 1)), 'P07')
    B.raises('neither nn nor restr is refused', ValueError, lambda: B.P.VStack(ops), 'P07')
    B.frames()


@contract('P07 P08 P09', 'VStack restriction branch', num_only=True, ncases=24)
def vstack_restr(B):
    """blocks given as restrictions (any partition of the indices)"""
    import numpy as np
    import pylops
    n = B.dim('n', 3, 9)
    perm = B.rng.permutation(n)
    cut = int(B.rng.integers(1, n))
    idx = [perm[:cut], perm[cut:]]
    if B.rng.random() < 0.5:
        idx = [np.sort(i) for i in idx]
    B.inputs['idx'] = [i.tolist() for i in idx]
    R = [pylops.Restriction(n, i, inplace=bool(B.rng.random() < 0.5)) for i in idx]
    x = B.vec('x', 'n')
    tau = B.scalar('tau', pos=True)
    ops = [B.prox('f0'), B.prox('f1')]
    f = B.P.VStack(ops, restr=R)
    B.eq('value', f(x), sum(o(x[i]) for o, i in zip(ops, idx)), 'P07')
    ref, g = np.zeros(n), np.zeros(n)
    for o, i in zip(ops, idx):
        ref[i] = o.prox(x[i], tau)
        g[i] = o.grad(x[i])
    B.eq('prox', f.prox(x, tau), ref, 'P07')
    B.eq('gradient', f.grad(x), g, 'P08')
    B.raises('a wrong length is refused', ValueError, lambda: f(np.zeros(n + 1)), 'P07')
    B.raises('neither nn nor restr is refused', ValueError, lambda: B.P.VStack(ops), 'P07')
    B.frames()


@contract('P07 P09', 'Orthogonal.__init__ Orthogonal.prox Orthogonal.__call__', cfgs=[dict(partial=p, b=b, ident=i) for p in (0, 1) for b in (0, 1) for i in (0, 1) if not (p and i)])
def orthogonal(B, partial, b, ident):
    tau, al = B.scalar('tau', pos=True), B.scalar('alpha', pos=True)
    f = B.prox('f')
    if ident:
        x = B.vec('x')
        Q = B.linop('Q', identity=True)
        bv = B.vec('b') if b else None
        al = 1.0
    else:
        if B.sym:
            Q = B.linop('Q', 'm', 'n', orth=al if partial else 1.0)
        else:
            B.dims['n'] = B.dim('m') if not partial else B.dim('m') + int(B.rng.integers(0, 3))
            Q = B.linop('Q', 'm', 'n', orth=al if partial else 1.0)
        x = B.vec('x', 'n')
        bv = B.vec('b', 'm') if b else None
    g = B.P.Orthogonal(f, Q, partial=bool(partial), b=bv, alpha=al)
    y = Q.matvec(x)
    bb = bv if b else 0.0
    B.eq('value is f(Qx + b)', g(x), f(y + bb) if b else f(y), 'P07')
    if partial:
        pr = f.prox(y + bb, al * tau)
        ref = x + (Q.rmatvec(pr - bb - y)) / al
    else:
        ref = Q.rmatvec(f.prox(y + bb, tau) - bb)
    B.eq('prox formula', g.prox(x, tau), ref, 'P07')
    B.frames()


@contract('P07', 'Orthogonal.prox as a minimiser', num_only=True, cfgs=[dict(partial=0), dict(partial=1)])
def orthogonal_min(B, partial):
    """for a convex f the documented formula is the prox of f(Qx+b)"""
    from contracts.util import minimiser
    tau = B.scalar('tau', pos=True)
    f = B.prox('f')
    al = B.scalar('alpha', pos=True) if partial else 1.0
    B.dims['n'] = B.dim('m') if not partial else B.dim('m') + int(B.rng.integers(0, 3))
    Q = B.linop('Q', 'm', 'n', orth=al)
    x, b = B.vec('x', 'n'), B.vec('b', 'm')
    g = B.P.Orthogonal(f, Q, partial=bool(partial), b=b, alpha=al)
    minimiser(B, 'prox minimises', g, x, tau, g.prox(x, tau), 'P07')
    B.eq('value', g(x), f(Q.matvec(x) + b), 'P07')


@contract('P07', 'ProxOperator.affine_addition ProxOperator.postcomposition ProxOperator.precomposition', num_only=True, ncases=12)
def calculus_minimises(B):
    """for a convex f every composed prox minimises the composed value"""
    from contracts.util import minimiser
    f = B.prox('f')
    x, v, tau, s, a = B.vec('x'), B.vec('v'), B.scalar('tau', pos=True), B.scalar('sigma', pos=True), B.scalar('a', ne=0)
    for nm, g in (('f+v', f + v), ('f-v', f - v), ('sigma f', s * f), ('f(ax+b)', f.precomposition(a, v)), ('nested', (s * (f.precomposition(a, v))) + v)):
        minimiser(B, 'prox of %s minimises' % nm, g, x, tau, g.prox(x, tau), 'P07')
    fs = B.P.L1(s)
    n = x.size
    st = B.P.VStack([f, fs], nn=[n, n])
    X = B.np.hstack([x, v])
    minimiser(B, 'prox of a stack minimises', st, X, tau, st.prox(X, tau), 'P07')


@contract('P07 P08', 'ProxOperator compositions and Orthogonal, VStack on complex data', num_only=True, ncases=24)
def complex_data(B):
    """the composed formulas also hold for complex vectors, shifts and unitary maps"""
    import numpy as np
    import pylops
    n = B.dim('n', 2, 6)
    w = 0.3 + np.abs(B._draw(n))

    def draw(m=n):
        return B._draw(m) + 1j * B._draw(m)

    class F(B.P.ProxOperator):
        def __init__(self, k=1.0):
            super().__init__(None, True)
            self.k = k

        def __call__(self, u):
            return float(self.k * np.sum(np.abs(u)) + np.sum(u.imag ** 2))

        def prox(self, u, tau):
            return u * self.k / (1 + tau * (w[:u.size] + 1j * self.k)) + tau * 1j * np.conj(u)

        def grad(self, u):
            return self.k * u ** 2 + 1j * np.conj(u)
    f, g = F(), F(0.4)
    x, v, tau, s, a = draw(), draw(), B.scalar('tau', pos=True), B.scalar('sigma', pos=True), B.scalar('a', ne=0)
    h = f + v
    B.eq('prox of f + v', h.prox(x, tau), f.prox(x - tau * v, tau), 'P07')
    B.eq('gradient of f + v', h.grad(x), f.grad(x) + v, 'P08')
    B.eq('prox of f - v', (f - v).prox(x, tau), f.prox(x + tau * v, tau), 'P07')
    h = s * f
    B.eq('value of sigma f', h(x), s * f(x), 'P07')
    B.eq('prox of sigma f', h.prox(x, tau), f.prox(x, s * tau), 'P07')
    B.eq('gradient of sigma f', h.grad(x), s * f.grad(x), 'P08')
    h = f.precomposition(a, v)
    B.eq('value of f(a x + b)', h(x), f(a * x + v), 'P07')
    B.eq('prox of f(a x + b)', h.prox(x, tau), (f.prox(a * x + v, a * a * tau) - v) / a, 'P07')
    B.eq('gradient of f(a x + b)', h.grad(x), a * f.grad(a * x + v), 'P08')
    B.eq('chained prox', f.chain(g).prox(x, tau), g.prox(f.prox(x, tau), tau), 'P07')
    # stacks
    m = int(B.rng.integers(1, n))
    st = B.P.VStack([f, g], nn=[m, n - m])
    B.eq('value of a stack', st(x), f(x[:m]) + g(x[m:]), 'P07')
    B.eq('prox of a stack', st.prox(x, tau), np.hstack([f.prox(x[:m], tau), g.prox(x[m:], tau)]), 'P07')
    perm = B.rng.permutation(n)
    st = B.P.VStack([f, g], restr=[pylops.Restriction(n, i, dtype='complex128') for i in (perm[:m], perm[m:])])
    ref = np.zeros(n, complex)
    ref[perm[:m]], ref[perm[m:]] = f.prox(x[perm[:m]], tau), g.prox(x[perm[m:]], tau)
    B.eq('value of a restricted stack', st(x), f(x[perm[:m]]) + g(x[perm[m:]]), 'P07')
    B.eq('prox of a restricted stack', st.prox(x, tau), ref, 'P07')
    # maps with Q Q^H = alpha I
    M = np.linalg.qr(draw(n * n).reshape(n, n))[0]
    for partial, al, rows in ((False, 1.0, n), (True, s, m)):
        R = np.sqrt(al) * M[:rows]
        o = B.P.Orthogonal(f, pylops.MatrixMult(R, dtype='complex128'), partial=partial, b=v[:rows], alpha=al)
        y = R @ x + v[:rows]
        B.eq('value under an orthogonal map', o(x), f(y), 'P07')
        ref = R.conj().T @ (f.prox(y, al * tau) - y) / al + x
        B.eq('prox under an orthogonal map', o.prox(x, tau), ref, 'P07')
