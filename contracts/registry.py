"""Every operator of the package, built from symbolic or concrete inputs.

OPS[name](B) -> (operator, x).  SYM: buildable in the symbolic reading.  CPLX: accepts complex x."""
OPS, SYM, CONVEX, GRAD, NODUAL, SCHED = {}, set(), set(), set(), set(), set()


def reg(sym=True, convex=False, grad=False):
    def deco(fn):
        n = fn.__name__.lstrip('_')
        OPS[n] = fn
        if sym:
            SYM.add(n)
        if convex:
            CONVEX.add(n)
        if grad:
            GRAD.add(n)
        return fn
    return deco


def P(B):
    return B.P


# ------------------------------------------------------------------ closed forms
@reg(convex=True)
def Box(B):
    lo = B.vec('lower')
    return B.P.Box(lower=lo, upper=lo + B.vec('width', nonneg=True)), B.vec('x')


@reg(convex=True, grad=True)
def Euclidean(B):
    return B.P.Euclidean(B.scalar('sigma', pos=True)), B.vec('x')


@reg(convex=True)
def EuclideanBall(B):
    return B.P.EuclideanBall(B.vec('c'), B.scalar('radius', pos=True)), B.vec('x')


@reg(convex=True)
def HalfSpace(B):
    w = B.vec('w')
    B.assume(B.np.dot(w, w) > 0)
    return B.P.HalfSpace(w, B.scalar('b')), B.vec('x')


@reg(convex=True)
def AffineSet(B):
    if not B.sym:
        B.dims['n'] = B.dim('m') + int(B.rng.integers(0, 3))
    A = B.linop('A')
    return B.P.AffineSet(A, B.vec('b', 'm'), niter=50), B.vec('x')


@reg(convex=True)
def L1(B):
    return B.P.L1(B.scalar('sigma', pos=True)), B.vec('x')


@reg(convex=True)
def L1_shifted(B):
    return B.P.L1(B.scalar('sigma', pos=True), g=B.vec('g')), B.vec('x')


@reg(convex=True)
def L1_weighted(B):
    return B.P.L1(B.vec('sigma', pos=True)), B.vec('x')


@reg()
def L1_scheduled(B):
    return B.P.L1(B.posfunc('sigma')), B.vec('x')


@reg(convex=True, grad=True)
def L2(B):
    return B.P.L2(b=B.vec('b'), q=B.vec('q'), sigma=B.scalar('sigma', pos=True), alpha=B.scalar('alpha')), B.vec('x')


@reg(convex=True, grad=True)
def L2_plain(B):
    return B.P.L2(sigma=B.scalar('sigma', pos=True)), B.vec('x')


@reg(convex=True, grad=True)
def L2_dense(B):
    return B.P.L2(Op=B.linop('A', explicit=True), b=B.vec('b', 'm'), sigma=B.scalar('sigma', pos=True)), B.vec('x')


@reg(convex=True, grad=True)
def L2_factorized(B):
    return B.P.L2(Op=B.linop('A', explicit=True), b=B.vec('b', 'm'), q=B.vec('q'), sigma=B.scalar('sigma', pos=True), densesolver='factorize'), B.vec('x')


@reg(convex=True, grad=True)
def L2_iterative(B):
    return B.P.L2(Op=B.linop('A'), b=B.vec('b', 'm'), q=B.vec('q'), x0=B.vec('x0'), sigma=B.scalar('sigma', pos=True), niter=60 if B.sym else 400, warm=False), B.vec('x')


@reg(convex=True, grad=True)
def L2_iterative_warm(B):
    return B.P.L2(Op=B.linop('A'), b=B.vec('b', 'm'), x0=B.vec('x0'), sigma=B.scalar('sigma', pos=True), niter=60 if B.sym else 400), B.vec('x')


@reg(convex=True, grad=True)
def L2_cg(B):
    return B.P.L2(Op=B.linop('A'), b=B.vec('b', 'm'), x0=B.vec('x0'), sigma=B.scalar('sigma', pos=True), niter=60 if B.sym else 400, warm=False, solver='cg'), B.vec('x')


@reg(convex=True, grad=True)
def L2_cgls(B):
    return B.P.L2(Op=B.linop('A'), b=B.vec('b', 'm'), x0=B.vec('x0'), sigma=B.scalar('sigma', pos=True), niter=60 if B.sym else 400, solver='cgls', kwargs_solver=dict(tol=1e-12)), B.vec('x')


@reg(sym=False, convex=True, grad=True)
def L2Convolve(B):
    n = B.dim('n', 2, 6)
    return B.P.L2Convolve(B.vec('h', 3), B.vec('b', 16), nfft=16, sigma=B.scalar('sigma', pos=True)), B.vec('x', 'n')


@reg(sym=False, convex=True, grad=True)
def L2Convolve_2d(B):
    return B.P.L2Convolve(B.vec('h', 3), B.vec('b', 32).reshape(2, 16), nfft=16, sigma=B.scalar('sigma', pos=True), dims=(2, 5), dir=1), B.vec('x', 10)


@reg(convex=True)
def L21(B):
    return B.P.L21(2, B.scalar('sigma', pos=True)), B.vec('x', blocks=['n', 'n'])


@reg(sym=False, convex=True)
def L21_plus_L1(B):
    return B.P.L21_plus_L1(B.scalar('sigma', pos=True), B.scalar('rho', lo=0.1, hi=0.9)), B.vec('x')


@reg(convex=True)
def L21_plus_L1_2d(B):
    return B.P.L21_plus_L1(B.scalar('sigma', pos=True), B.scalar('rho', lo=0.1, hi=0.9)), B.vec('x', blocks=['n', 'n'], rows=True)


@reg(convex=True)
def Huber(B):
    return B.P.Huber(B.scalar('alpha', pos=True)), B.vec('x')


@reg(convex=True)
def HuberCircular(B):
    return B.P.HuberCircular(B.scalar('alpha', pos=True)), B.vec('x')


@reg(sym=False, convex=True)
def TV1(B):
    B.dim('n', 3, 8)
    return B.P.TV(dims=None, sigma=B.scalar('sigma', pos=True), niter=50), B.vec('x')


@reg(sym=False, convex=True)
def TV2(B):
    n, m = B.dim('n', 2, 4), B.dim('m', 2, 4)
    return B.P.TV(dims=(n, m), sigma=B.scalar('sigma', pos=True), niter=20), B.vec('x', n * m)


@reg(convex=True, grad=True)
def Quadratic(B):
    R = B.linop('R')
    if B.sym:
        A = R.H.dot(R)
        A.explicit = False
    else:
        import numpy as np
        from vf.numstubs import _Free
        n = B.dim('n')
        A = _Free(np.array([R.rmatvec(R.matvec(e)) for e in np.eye(n)]).T)
    return B.P.Quadratic(Op=A, b=B.vec('b'), c=B.scalar('c'), niter=60 if B.sym else 400, x0=B.vec('x0')), B.vec('x')


@reg(convex=True, grad=True)
def Quadratic_linear(B):
    return B.P.Quadratic(b=B.vec('b'), c=B.scalar('c')), B.vec('x')


@reg(sym=False, grad=True)
def Nonlinear(B):
    import numpy as np
    base = B.mod('proximal.Nonlinear').Nonlinear

    class NL(base):
        def fun(self, x):
            return float(np.sum(0.5 * x ** 2 + np.cos(x)))

        def grad(self, x):
            return x - np.sin(x)

        def optimize(self):
            from scipy.optimize import minimize
            return minimize(lambda u: self._fungradprox(u, self.tau), self.x0, jac=True, method='BFGS', options={'gtol': 1e-9}).x
    return NL(x0=B.vec('x0'), niter=50, warm=bool(B.seed_mod(2))), B.vec('x')


@reg(convex=True)
def Orthogonal(B):
    Q = B.linop('Q', 'n', 'n', orth=1.0)
    return B.P.Orthogonal(B.prox('f', check=True), Q, b=B.vec('b')), B.vec('x')


@reg(convex=True)
def Orthogonal_partial(B):
    al = B.scalar('alpha', pos=True)
    if not B.sym:
        B.dims['n'] = B.dim('m') + int(B.rng.integers(0, 3))
    Q = B.linop('Q', 'm', 'n', orth=al)
    return B.P.Orthogonal(B.prox('f', check=True), Q, partial=True, b=B.vec('b', 'm'), alpha=al), B.vec('x')


@reg(convex=True)
def VStack(B):
    nn = [B.dim('n0'), B.dim('n1')]
    return B.P.VStack([B.prox('f0', check=True), B.prox('f1', check=True)], nn=nn), B.vec('x', blocks=['n0', 'n1'])


@reg(sym=False, convex=True)
def VStack_restr(B):
    import numpy as np
    import pylops
    n = B.dim('n', 2, 8)
    perm = B.rng.permutation(n)
    cut = int(B.rng.integers(1, n))
    R = [pylops.Restriction(n, i) for i in (perm[:cut], perm[cut:])]
    return B.P.VStack([B.prox('f0', check=True), B.prox('f1', check=True)], restr=R), B.vec('x')


@reg(convex=True)
def Sum1(B):
    return B.P.Sum([B.prox('f0', check=True)]), B.vec('x')


@reg(sym=False, convex=True)
def Sum2(B):
    return B.P.Sum([B.prox('f0', check=True), B.prox('f1', check=True)], niter=30), B.vec('x')


@reg(sym=False, convex=True)
def Sum3(B):
    w = B.vec('w', 3, pos=True)
    return B.P.Sum([B.prox('f%d' % i, check=True) for i in range(3)], weights=w / w.sum(), niter=30), B.vec('x')


@reg(sym=False, convex=True)
def Sum2_parallel(B):
    return B.P.Sum([B.prox('f%d' % i, check=True) for i in range(2)], niter=30, use_parallel=True, use_original_tau=bool(B.seed_mod(2))), B.vec('x')


@reg(sym=False, convex=True)
def GenericIntersection(B):
    import numpy as np
    return B.P.GenericIntersectionProx([lambda u: np.clip(u, -1, 1), lambda u: np.maximum(u, 0)], niter=50), B.vec('x')


# ------------------------------------------------------------------ non-convex
@reg()
def SCAD(B):
    return B.P.SCAD(B.scalar('sigma', pos=True), B.scalar('a', lo=2.5, hi=30)), B.vec('x')


@reg()
def Log(B):
    return B.P.Log(B.scalar('sigma', pos=True), B.scalar('gamma', pos=True)), B.vec('x')


@reg()
def Log1(B):
    return B.P.Log1(B.scalar('sigma', pos=True), B.scalar('delta', lo=0.01, hi=1)), B.vec('x')


@reg()
def ETP(B):
    return B.P.ETP(B.scalar('sigma', pos=True), B.scalar('gamma', pos=True)), B.vec('x')


@reg()
def Geman(B):
    return B.P.Geman(B.scalar('sigma', pos=True), B.scalar('gamma', pos=True)), B.vec('x')


@reg()
def L0(B):
    return B.P.L0(B.scalar('sigma', pos=True)), B.vec('x')


@reg()
def L0_scheduled(B):
    return B.P.L0(B.posfunc('sigma')), B.vec('x')


@reg()
def RelaxedMumfordShah(B):
    return B.P.RelaxedMumfordShah(B.scalar('sigma', pos=True), B.scalar('kappa', pos=True)), B.vec('x')


@reg()
def RelaxedMumfordShah_scheduled(B):
    return B.P.RelaxedMumfordShah(B.posfunc('sigma'), B.posfunc('kappa')), B.vec('x')


@reg()
def QuadraticEnvelopeCard(B):
    return B.P.QuadraticEnvelopeCard(B.scalar('mu', pos=True)), B.vec('x')


@reg(sym=False)
def QuadraticEnvelopeCardIndicator(B):
    return B.P.QuadraticEnvelopeCardIndicator(B.count('r0', 1, 3)), B.vec('x')


# ------------------------------------------------------------------ sets with root finders or sorting
@reg()
def L0Ball(B):
    return B.P.L0Ball(B.count('r', 1, 3)), B.vec('x')


@reg()
def L0Ball_scheduled(B):
    if not B.sym:
        B.dim('n', 4, 7)
    return B.P.L0Ball(B.func('radius', True)), B.vec('x')


@reg()
def L10Ball(B):
    return B.P.L10Ball(2, B.count('r', 1, 2)), B.vec('x', blocks=['k', 'k'])


@reg()
def L01Ball(B):
    return B.P.L01Ball(2, B.count('r', 1, 2)), B.vec('x', blocks=['k', 'k'])


@reg(sym=False, convex=True)
def L1Ball(B):
    return B.P.L1Ball(B.dim('n'), B.scalar('radius', pos=True)), B.vec('x')


@reg(sym=False, convex=True)
def Simplex(B):
    return B.P.Simplex(B.dim('n'), B.scalar('radius', pos=True)), B.vec('x')


@reg(sym=False, convex=True)
def Simplex_dims(B):
    n, m = B.dim('n', 2, 4), B.dim('m', 2, 4)
    return B.P.Simplex(n * m, B.scalar('radius', pos=True), dims=(n, m), axis=B.seed_mod(2)), B.vec('x', n * m)


@reg(sym=False, convex=True)
def Simplex_numba(B):
    n, m = B.dim('n', 2, 4), B.dim('m', 2, 4)
    return B.P.Simplex(n * m, B.scalar('radius', pos=True), dims=(n, m), axis=B.seed_mod(2), engine='numba'), B.vec('x', n * m)


@reg(sym=False, convex=True)
def Simplex_numba_1d(B):
    return B.P.Simplex(B.dim('n'), B.scalar('radius', pos=True), engine='numba'), B.vec('x')


@reg(sym=False, convex=True)
def Intersection(B):
    k, n = B.dim('k', 2, 3), B.dim('n', 2, 4)
    return B.P.Intersection(k, n, B.scalar('sigma', pos=True)), B.vec('x', k * n)


# ------------------------------------------------------------------ spectral
@reg(sym=False, convex=True)
def Nuclear(B):
    n, m = B.dim('n', 1, 4), B.dim('m', 1, 4)
    return B.P.Nuclear((n, m), B.scalar('sigma', pos=True)), B.vec('x', n * m)


@reg(sym=False)
def Nuclear_weighted(B):
    n, m = B.dim('n', 1, 4), B.dim('m', 1, 4)
    return B.P.Nuclear((n, m), B.vec('sigma', min(n, m), pos=True)), B.vec('x', n * m)


@reg(sym=False, convex=True)
def NuclearBall(B):
    n, m = B.dim('n', 1, 4), B.dim('m', 1, 4)
    return B.P.NuclearBall((n, m), B.scalar('radius', pos=True)), B.vec('x', n * m)


@reg(sym=False)
def SingularValuePenalty(B):
    n, m = B.dim('n', 1, 4), B.dim('m', 1, 4)
    return B.P.SingularValuePenalty((n, m), B.prox('f', check=True)), B.vec('x', n * m)


@reg(sym=False)
def QuadraticEnvelopeRankL2(B):
    n, m = B.dim('n', 1, 4), B.dim('m', 1, 4)
    return B.P.QuadraticEnvelopeRankL2((n, m), B.count('r0', 1, 3), B.vec('M', n * m).reshape(n, m)), B.vec('x', n * m)


@reg(sym=False, convex=True)
def Hankel(B):
    n, m = B.dim('n', 1, 4), B.dim('m', 1, 4)
    return B.P.Hankel((n, m)), B.vec('x', n * m)


# ------------------------------------------------------------------ derived operators (of an arbitrary f that keeps P01)
@reg(convex=True)
def adjoint(B):
    return B.prox('f', check=True).H, B.vec('x')


@reg(convex=True, grad=True)
def affine(B):
    return B.prox('f', check=True) + B.vec('v'), B.vec('x')


@reg(convex=True, grad=True)
def affine_minus(B):
    return B.prox('f', check=True) - B.vec('v'), B.vec('x')


@reg(convex=True, grad=True)
def scaled(B):
    return B.prox('f', check=True).postcomposition(B.scalar('sigma', pos=True)), B.vec('x')


@reg(convex=True, grad=True)
def precomposed(B):
    return B.prox('f', check=True).precomposition(B.scalar('a', ne=0), B.vec('b')), B.vec('x')


@reg()
def chained(B):
    return B.prox('f', check=True).chain(B.prox('g', check=True)), B.vec('x')


@reg()
def denoise(B):
    dn = B.vfun('D')
    x = B.vec('x')
    return B.mod('optimization.pnp')._Denoise(lambda u, t: dn(u), x.shape), x


@reg(convex=True)
def derived_moreau(B):
    """an operator with only a dual prox"""
    f = B.prox('f', check=True)
    base = B.P.ProxOperator

    class OnlyDual(base):
        def __init__(self):
            super().__init__(None, False)

        def proxdual(self, x, tau):
            return f.proxdual(x, tau)

        def __call__(self, x):
            return f(x)
    return OnlyDual(), B.vec('x')


@reg(convex=True)
def derived_moreau_stored(B):
    """an operator with only a dual prox, which hands out an array it keeps"""
    c = B.vec('c')
    base = B.P.ProxOperator

    class Stored(base):
        def __init__(self):
            super().__init__(None, False)
            self.c = c

        def proxdual(self, x, tau):
            return self.c

        def __call__(self, x):
            return B.np.dot(self.c, x)
    return Stored(), B.vec('x')


@reg(convex=True)
def derived_dual_stored(B):
    """an operator with only a prox, which hands out an array it keeps"""
    c = B.vec('c')
    base = B.P.ProxOperator

    class Stored(base):
        def __init__(self):
            super().__init__(None, False)
            self.c = c

        def prox(self, x, tau):
            return self.c

        def __call__(self, x):
            return True
    return Stored(), B.vec('x')


@reg(convex=True)
def derived_dual(B):
    """an operator with only a prox"""
    f = B.prox('f', check=True)
    base = B.P.ProxOperator

    class OnlyProx(base):
        def __init__(self):
            super().__init__(None, False)

        def prox(self, x, tau):
            return f.prox(x, tau)

        def __call__(self, x):
            return f(x)
    return OnlyProx(), B.vec('x')
