"""P08: Moreau-envelope gradients, gradient-test helpers; gradients that are derivatives of the value."""
from vf.api import contract
from contracts.registry import OPS, SYM, GRAD


@contract('P08 P09', 'ProxOperator.grad ProxOperator.__init__')
def moreau_envelope_gradient(B):
    f = B.prox('f')
    x, s = B.vec('x'), B.scalar('sigmame', pos=True)
    base = B.P.ProxOperator

    class NoGrad(base):
        def __init__(self, **k):
            super().__init__(None, False, **k)

        def prox(self, x, tau):
            return f.prox(x, tau)
    g = NoGrad(sigmame=s)
    B.eq('gradient of the Moreau envelope', g.grad(x), (x - f.prox(x, s)) / s, 'P08')
    B.eq('default envelope parameter is one', NoGrad().grad(x), x - f.prox(x, 1.0), 'P08')
    B.same('no gradient declared', g.hasgrad, False, 'P08')
    B.frames()


# operators without a gradient of their own, and what they must declare
NOGRAD = ['Box', 'EuclideanBall', 'HalfSpace', 'AffineSet', 'L1', 'L1_shifted', 'L1_weighted', 'L21', 'Huber', 'HuberCircular', 'SCAD', 'Log1', 'L0',
          'RelaxedMumfordShah', 'QuadraticEnvelopeCard', 'Orthogonal', 'Orthogonal_partial', 'derived_moreau', 'derived_dual', 'denoise']
NOGRAD_REAL = sorted((set(OPS) - GRAD - {'VStack', 'VStack_restr', 'chained', 'adjoint', 'Nonlinear', 'L1_scheduled', 'L0_scheduled', 'L0Ball_scheduled', 'RelaxedMumfordShah_scheduled',
                                  'Huber', 'HuberCircular', 'Intersection', 'Nuclear_weighted', 'SCAD'}) | {'SCAD'})


@contract('P08 P09', 'ProxOperator.grad on every operator without its own', cfgs=[dict(op=n) for n in NOGRAD], ncases=6)
def envelope_of_operators(B, op):
    f, x = OPS[op](B)
    if op == 'SCAD':
        B.assume(f.a > 2.1)
    g = f.grad(x)
    B.eq('gradient of the Moreau envelope', g, x - f.prox(x, 1.0), 'P08')
    B.frames()


@contract('P08 P09', 'ProxOperator.grad on every operator without its own', num_only=True, cfgs=[dict(op=n) for n in NOGRAD_REAL], ncases=8)
def envelope_of_operators_real(B, op):
    f, x = OPS[op](B)
    f.sigmame = s = [1.0, 0.5, 2.0][B.seed_mod(3)] if op != 'SCAD' else 1.0
    B.eq('gradient of the Moreau envelope', f.grad(x), (x - f.prox(x, s)) / s, 'P08')
    B.same('no gradient declared', bool(f.hasgrad), False, 'P08') if op not in ('VStack', 'Sum1', 'Sum2', 'Sum3', 'Sum2_parallel') else None
    B.frames()


@contract('P08', 'grad of every operator that declares one', num_only=True, cfgs=[dict(op=n) for n in sorted(GRAD)], ncases=12)
def gradient_is_derivative(B, op):
    """bounded: central differences of the operator's own value, in every coordinate, itself and composed"""
    import numpy as np
    f, x = OPS[op](B)
    v = B.vec('shift', x.size)
    if op in ('affine', 'affine_minus', 'scaled', 'precomposed'):
        return                      # of an abstract operand: proved in the calculus contracts
    B.same('gradient declared', f.hasgrad, True, 'P08')
    fs = [('itself', f), ('f + v', f + v), ('f - v', f - v), ('2.5 f', 2.5 * f), ('f(a x + b)', f.precomposition(-0.7, v)), ('nested', (1.5 * f.precomposition(0.5, 0.3)) + v)]
    if op == 'Euclidean' and np.linalg.norm(x) < 1e-3:
        return
    for nm, g in fs:
        if op == 'Euclidean' and nm in ('f(a x + b)', 'nested'):
            y = -0.7 * x + v if nm != 'nested' else 0.5 * x + 0.3
            if np.linalg.norm(y) < 1e-2:
                continue
        B.same('gradient declared by ' + nm, g.hasgrad, True, 'P08')
        e = 1e-5 * (1 + np.max(np.abs(x)))
        fd = np.array([(g(x + e * d) - g(x - e * d)) / (2 * e) for d in np.eye(x.size)])
        B.eq('gradient of %s is the derivative of its value' % nm, np.real(g.grad(x)), fd, 'P08', tol=3e-5)


def call(B, fn):
    """(passed, raised)"""
    try:
        return fn(), False
    except AssertionError:
        return None, True


@contract('P08 P09', 'utils.gradtest.gradtest_proximal', cfgs=[dict(verb=False), dict(verb=True)], ncases=40)
def gradtest_proximal(B, verb):
    """a value whose finite differences are exact, with a gradient off by a known amount in every component"""
    gradtest = B.mod('utils.gradtest').gradtest_proximal
    x, c, d, off = B.vec('x'), B.vec('c'), B.scalar('d'), B.vec('off')
    delta, atol, rtol = B.scalar('delta', pos=True), B.scalar('atol', pos=True), B.scalar('rtol', nonneg=True)
    if not B.sym:
        atol, rtol = atol * 1e-3, rtol * 1e-6
        off *= [0.0, 1.0, 1e-4][B.seed_mod(3)]
        B.owned = [(n, v, v.copy()) for n, v, _ in B.owned]
    base = B.P.ProxOperator

    class Op(base):
        def __init__(self):
            super().__init__(None, True)

        def __call__(self, u):
            return B.np.dot(c, u) + d

        def grad(self, u):
            return c + off
    op = Op()
    n = x.size
    kw = dict(x=x, delta=delta, atol=atol, rtol=rtol, verb=verb)
    err = B.np.abs(off)
    if B.cond(B.all(err <= atol * 0.99 if not B.sym else err <= atol)):
        B.true('accepts', gradtest(op, n, **kw), 'P08')
        B.true('accepts without raising', gradtest(op, n, raiseerror=False, **kw), 'P08')
    elif B.cond(B.all(err > atol * 1.01 + rtol * (B.np.abs(c) + B.np.abs(c + off)))):
        B.raises('rejects', AssertionError, lambda: gradtest(op, n, **kw), 'P08')
        B.true('rejects when asked not to raise', gradtest(op, n, raiseerror=False, **kw) == False, 'P08')  # noqa
    B.frames()


@contract('P08 P09', 'utils.gradtest.gradtest_bilinear', cfgs=[dict(verb=False), dict(verb=True)], ncases=40)
def gradtest_bilinear(B, verb):
    """a value linear in each block, with partial gradients off by a known amount in every component"""
    gradtest = B.mod('utils.gradtest').gradtest_bilinear
    x, y = B.vec('x', 'nx'), B.vec('y', 'ny')
    cx, cy, ox, oy = B.vec('cx', 'nx'), B.vec('cy', 'ny'), B.vec('ox', 'nx'), B.vec('oy', 'ny')
    delta, atol, rtol = B.scalar('delta', pos=True), B.scalar('atol', pos=True), B.scalar('rtol', nonneg=True)
    if not B.sym:
        atol, rtol = atol * 1e-3, rtol * 1e-6
        ox *= [0.0, 1.0, 1e-4][B.seed_mod(3)]
        oy *= [0.0, 1.0, 1e-4][B.seed_mod(3)]
        B.owned = [(n, v, v.copy()) for n, v, _ in B.owned]
    base = B.mod('utils.bilinear').BilinearOperator

    class Op(base):
        def __init__(self):
            super().__init__()
            self.x, self.y = x, y
            self.sizex, self.sizey = x.size, y.size

        def __call__(self, u, w=None):
            return B.np.dot(cx, u) + B.np.dot(cy, w)

        def gradx(self, u):
            return cx + ox

        def grady(self, w):
            return cy + oy

        def grad(self, u):
            return None

        def lx(self, u):
            return 1.0

        def ly(self, w):
            return 1.0
    op = Op()
    kw = dict(delta=delta, atol=atol, rtol=rtol, verb=verb)
    ex, ey = B.np.abs(ox), B.np.abs(oy)
    slack = 1.0 if B.sym else 0.99
    if B.cond(B.both(B.all(ex <= atol * slack), B.all(ey <= atol * slack))):
        B.true('accepts', gradtest(op, **kw), 'P08')
        B.true('accepts without raising', gradtest(op, raiseerror=False, **kw), 'P08')
    elif B.cond(B.both(B.all(ex > atol * 1.01 + rtol * (B.np.abs(cx) + B.np.abs(cx + ox))), B.all(ey > atol * 1.01 + rtol * (B.np.abs(cy) + B.np.abs(cy + oy))))):
        B.raises('rejects', AssertionError, lambda: gradtest(op, **kw), 'P08')
        B.true('rejects when asked not to raise', gradtest(op, raiseerror=False, **kw) == False, 'P08')  # noqa
    B.frames()


@contract('P08', 'utils.gradtest.gradtest_proximal utils.gradtest.gradtest_bilinear', num_only=True, ncases=60, narrow=True)
def gradtest_real(B):
    """bounded: curved, complex and default inputs; every coordinate and part the helper may draw"""
    import numpy as np
    G = B.mod('utils.gradtest')
    np.random.seed(B.seed)
    n = B.dim('n', 1, 5)
    s = B.scalar('sigma', pos=True)
    base = B.P.ProxOperator
    cplx = bool(B.seed % 2)
    wrong = [0.0, 0.5, 0.5j][B.seed % 3] if cplx else [0.0, 0.5][B.seed % 2 if B.seed % 3 else 0]
    w = np.abs(B.rng.normal(size=n)) + 0.1

    class Op(base):
        def __init__(self):
            super().__init__(None, True)

        def __call__(self, u):
            return float(s / 2 * np.sum(w * np.abs(u) ** 2) + np.sum(np.cos(u.real)) + (np.sum(np.sin(u.imag)) if np.iscomplexobj(u) else 0))

        def grad(self, u):
            g = s * w * u - np.sin(u.real)
            if np.iscomplexobj(u):
                g = g + 1j * np.cos(u.imag)
            return g + wrong
    for rep in range(6):
        kw = dict(delta=1e-6, rtol=1e-4, atol=1e-3, complexflag=cplx)
        x = B._draw(n) + (1j * B._draw(n) if cplx else 0) if rep % 2 else None
        r = G.gradtest_proximal(Op(), n, x=x, raiseerror=False, verb=bool(rep % 3 == 0), **kw)
        if wrong == 0:
            B.same('accepts an exact gradient', r, True, 'P08')
        elif not cplx:
            B.same('rejects a wrong gradient', r, False, 'P08')
    if cplx and wrong:
        # the wrong part is drawn about every second time
        B.same('rejects a wrong part', all(G.gradtest_proximal(Op(), n, raiseerror=False, delta=1e-6, atol=1e-3, complexflag=True) for _ in range(40)), False, 'P08')
    k, m = 2, 3
    L = G  # noqa
    X, Y, D = B._draw(n * k).reshape(n, k), B._draw(k * m).reshape(k, m), B._draw(n * m)
    L = B.mod('utils.bilinear').LowRankFactorizedMatrix(X, Y, D)
    for _ in range(4):
        B.same('accepts the exact partial gradients', G.gradtest_bilinear(L, delta=1e-6, atol=1e-3, raiseerror=False), True, 'P08')
    for blk in 'xy':
        L2 = B.mod('utils.bilinear').LowRankFactorizedMatrix(X, Y, D)
        gx, gy = L2.gradx, L2.grady
        if blk == 'x':
            L2.gradx = lambda u: gx(u) + 0.4
        else:
            L2.grady = lambda u: gy(u) + 0.4
        B.same('rejects a wrong partial gradient', all(G.gradtest_bilinear(L2, delta=1e-6, atol=1e-3, raiseerror=False) for _ in range(30)), False, 'P08')


@contract('P08', 'utils.gradtest.gradtest_bilinear complex', num_only=True, ncases=16, narrow=True)
def gradtest_bilinear_complex(B):
    """bounded: complex factors: exact partial gradients are accepted, a wrong real or imaginary part of either is rejected"""
    import numpy as np
    G, L = B.mod('utils.gradtest'), B.mod('utils.bilinear').LowRankFactorizedMatrix
    np.random.seed(B.seed)
    n, k, m = (int(i) for i in B.rng.integers(1, 4, size=3))
    cx = lambda *s: B.rng.normal(size=s) + 1j * B.rng.normal(size=s)  # noqa
    X, Y, D = cx(n, k), cx(k, m), cx(n * m)
    kw = dict(delta=1e-6, atol=1e-3, raiseerror=False, complexflag=True)
    for _ in range(6):
        B.same('accepts the exact partial gradients of complex factors', G.gradtest_bilinear(L(X, Y, D), **kw), True, 'P08')
    for blk, off in (('gradx', 0.4), ('gradx', 0.4j), ('grady', 0.4), ('grady', 0.4j)):
        H = L(X, Y, D)
        exact = getattr(H, blk)
        setattr(H, blk, lambda u: exact(u) + off)
        B.same('rejects a wrong part of a partial gradient of complex factors', all(G.gradtest_bilinear(H, **kw) for _ in range(60)), False, 'P08')
