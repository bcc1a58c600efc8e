"""P05 (and P09): projections and indicators of sets."""
from vf.api import contract
from contracts.util import norm, sq


def nearest(B, label, x, p, cond, tofeas=None, near=(), prop='P05', tol=1e-7, add=None, around=False, name='w'):
    """p is at least as close to x as any w in the set"""
    dp = sq(B, p - x)
    for w in B.competitors(name, x, near=[p] + list(near), around=p if around else None):
        if not B.sym:
            if tofeas is not None:
                w = tofeas(w)
            c = cond(w)
            if not (all(bool(B.np.all(i)) for i in c) if isinstance(c, (list, tuple)) else bool(B.np.all(c))):
                continue
        else:
            B.assume(cond(w))
        extra = add(w) if (add is not None and B.sym) else 0.0
        B.le(label, dp + extra, sq(B, w - x), prop, tol=tol)


@contract('P05 P09', 'Box.prox Box.__call__ BoxProj.__call__', cfgs=[dict(k='scalar'), dict(k='array'), dict(k='lower'), dict(k='upper')])
def box(B, k):
    tau, tau2, x = B.scalar('tau', pos=True), B.scalar('tau2', pos=True), B.vec('x')
    if k == 'array':
        lo, w = B.vec('lo'), B.vec('width', nonneg=True)
        hi = lo + w
        f, pr = B.P.Box(lo, hi), B.mod('projection').BoxProj(lo, hi)
    elif k == 'scalar':
        lo, w = B.scalar('lo'), B.scalar('width', nonneg=True)
        hi = lo + w
        f, pr = B.P.Box(lo, hi), B.mod('projection').BoxProj(lo, hi)
    elif k == 'lower':
        lo, hi = B.scalar('lo'), None
        f, pr = B.P.Box(lower=lo), B.mod('projection').BoxProj(lower=lo)
    else:
        lo, hi = None, B.scalar('hi')
        f, pr = B.P.Box(upper=hi), B.mod('projection').BoxProj(upper=hi)

    def inside(w):
        c = []
        if lo is not None:
            c.append(B.all(w >= lo))
        if hi is not None:
            c.append(B.all(w <= hi))
        return c

    def clip(w):
        if lo is not None:
            w = B.np.maximum(w, lo)
        return B.np.minimum(w, hi) if hi is not None else w
    p = f.prox(x, tau)
    for c in inside(p):
        B.true('feasible', c)
    B.eq('independent of tau', f.prox(x, tau2), p)
    B.eq('projection and prox agree', pr(x), p)
    B.eq('idempotent', f.prox(p, tau), p)
    B.true('indicator accepts the result', f(p))
    if B.cond(B.implies(True, inside(x)[0])) and B.cond(inside(x)[-1]):
        B.eq('feasible points are unchanged', p, x)
        B.true('indicator accepts feasible points', f(x))
    else:
        B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    nearest(B, 'nearest feasible point', x, p, inside, clip)
    B.frames()


@contract('P05 P09', 'EuclideanBall.prox EuclideanBall.__call__ EuclideanBallProj.__call__', cfgs=[dict(c='array'), dict(c='scalar')])
def euclidean_ball(B, c):
    tau, tau2, r, u = B.scalar('tau', pos=True), B.scalar('tau2', pos=True), B.scalar('radius', pos=True), B.vec('x_minus_center')
    cv = B.vec('center') if c == 'array' else B.scalar('center')
    x = B.own('x', u + cv)
    f = B.P.EuclideanBall(cv, r)
    p = f.prox(x, tau)
    B.le('feasible', norm(B, p - cv), r)
    B.eq('independent of tau', f.prox(x, tau2), p)
    B.eq('projection and prox agree', B.mod('projection').EuclideanBallProj(cv, r)(x), p)
    B.true('indicator accepts the result', f(p if B.sym else cv + (p - cv) * (1 - 1e-9)))
    n = norm(B, x - cv)
    if B.cond(n <= r):
        B.eq('feasible points are unchanged', p, x)
        B.true('indicator accepts feasible points', f(x if B.sym else cv + (x - cv) * (1 - 1e-9)))
    elif B.sym or n > r * (1 + 1e-9):
        B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    nearest(B, 'nearest feasible point', x, p, lambda w: norm(B, w - cv) <= r,
            lambda w: cv + (w - cv) * min(1.0, r / max(norm(B, w - cv), 1e-300)) * (1 - 1e-12), around=True)
    B.frames()


@contract('P05 P09', 'HalfSpace.prox HalfSpace.__call__ HalfSpaceProj.__init__ HalfSpaceProj.__call__')
def half_space(B):
    tau, tau2, b, x, w0 = B.scalar('tau', pos=True), B.scalar('tau2', pos=True), B.scalar('b'), B.vec('x'), B.vec('normal')
    B.assume(sq(B, w0) > 0)
    f = B.P.HalfSpace(w0, b)
    p = f.prox(x, tau)
    dot = B.np.dot
    B.le('feasible', dot(w0, p), b)
    B.eq('independent of tau', f.prox(x, tau2), p)
    B.eq('projection and prox agree', B.mod('projection').HalfSpaceProj(w0, b)(x), p)
    eps = 0 if B.sym else 1e-9 * (1 + abs(b))
    B.true('indicator accepts the result', f(p if B.sym else p - w0 * eps / sq(B, w0)))
    v = dot(w0, x)
    if B.cond(v <= b):
        B.eq('feasible points are unchanged', p, x)
        B.true('indicator accepts feasible points', f(x if B.sym else x - w0 * eps / sq(B, w0)))
    elif B.sym or v > b + eps:
        B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    nearest(B, 'nearest feasible point', x, p, lambda w: dot(w0, w) <= b,
            lambda w: w - w0 * (max(0.0, float(dot(w0, w)) - b) / sq(B, w0)) * (1 + 1e-12), around=True)
    B.frames()


@contract('P05 P09', 'AffineSet.prox AffineSet.__call__ AffineSetProj.__call__')
def affine_set(B):
    tau, tau2 = B.scalar('tau', pos=True), B.scalar('tau2', pos=True)
    if not B.sym:
        B.dims['n'] = B.dim('m', 1, 3) + int(B.rng.integers(0, 4))
    x, A = B.vec('x', 'n'), B.linop('A')
    # b in the range of A
    b = A.matvec(B.vec('x_feasible', 'n'))
    if not B.sym and B.np.linalg.cond(B.inputs['A'] @ B.inputs['A'].T) > 1e6:
        return
    f = B.P.AffineSet(A, b, niter=1000)
    p = f.prox(x, tau)
    B.eq('feasible', A.matvec(p), b, tol=1e-4)
    B.eq('independent of tau', f.prox(x, tau2), p)
    B.eq('projection and prox agree', B.mod('projection').AffineSetProj(A, b, 1000)(x), p)
    if B.sym:
        B.true('indicator accepts the result', f(p))
        if B.cond(f(x)):
            B.true('indicator accepts near-feasible points only', B.all(B.np.abs(A.matvec(x) - b) <= 1e-03 + 1e-03 * B.np.abs(b)))
    else:
        B.true('indicator accepts feasible points', f(B.inputs['x_feasible']))
        B.true('indicator rejects the mirrored point', f(-B.inputs['x_feasible']) == (not B.np.any(b)))
        if B.np.max(abs(A.matvec(x) - b)) > 1e-3 * (1 + B.np.max(abs(b))):
            B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    B.eq('feasible points are unchanged', f.prox(p, tau), p, tol=1e-4)
    if B.sym:
        nearest(B, 'nearest feasible point', x, p, lambda w: _veq(B, A.matvec(w), b), around=True)
    else:
        M = B.inputs['A']
        B.eq('nearest feasible point', p, x - M.T @ B.np.linalg.solve(M @ M.T, M @ x - b), tol=1e-4)
    B.frames()


def _veq(B, a, b):
    return B.all(a == b)


@contract('P05 P09', 'HyperPlaneBoxProj.__init__ HyperPlaneBoxProj.__call__ BoxProj.__call__', cfgs=[dict(k='upper'), dict(k='box')], num_only=False)
def hyperplane_box(B, k):
    """coefficients are positive; the set is non-empty"""
    B.havoc_whiles('projection.')
    x, c = B.vec('x'), B.vec('coeffs', pos=True)
    lo = B.scalar('lo')
    if k == 'upper':
        hi = None
        gap = B.vec('gap', nonneg=True)
        feas = lo + gap
        pr = B.mod('projection').HyperPlaneBoxProj
        args = (lo, float('inf')) if not B.sym else (lo, B.np.inf)
    else:
        wd = B.scalar('width', pos=True)
        hi = lo + wd
        frac = B.vec('frac', nonneg=True)
        feas = B.np.minimum(lo + frac, hi)
        pr = B.mod('projection').HyperPlaneBoxProj
        args = (lo, hi)
    b = B.np.dot(c, feas)
    if not B.sym and (B.np.all(feas == lo) or (hi is not None and B.np.all(feas == hi))):
        return
    p = pr(c, b, *args, xtol=1e-10)(x)
    B.eq('on the hyperplane', B.np.dot(c, p), b, tol=1e-4)
    B.true('above the lower bound', B.all(p >= lo - (0 if B.sym else 1e-9)))
    if hi is not None:
        B.true('below the upper bound', B.all(p <= hi + (0 if B.sym else 1e-9)))
    if B.sym:
        mu = B.C.roots[-1]
        dot = B.np.dot

        def inside(w):
            r = [B.all(w >= lo), dot(c, w) == b]
            return r + ([B.all(w <= hi)] if hi is not None else [])
        nearest(B, 'nearest feasible point', x, p, inside, add=lambda w: 2 * mu * (dot(c, p) - dot(c, w)))
    else:
        _kkt(B, x, p, c, lo, hi)
    B.frames()


def _kkt(B, x, p, c, lo, hi, tol=2e-4):
    """there is a multiplier mu with x - p = mu c on free components and the right sign on active ones"""
    np = B.np
    mu = (x - p) / c
    free = p > lo + 1e-9
    if hi is not None:
        free &= p < hi - 1e-9
    if not np.any(free):
        return
    m = float(np.median(mu[free]))
    B.eq('one multiplier on the free components', mu[free], m + 0 * mu[free], tol=tol)
    low = p <= lo + 1e-9
    B.true('components at the lower bound want to go lower', np.all(x[low] - m * c[low] <= lo + tol * (1 + abs(m))))
    if hi is not None:
        up = p >= hi - 1e-9
        B.true('components at the upper bound want to go higher', np.all(x[up] - m * c[up] >= hi - tol * (1 + abs(m))))


def simplex_ref(x, r):
    """exact projection onto {u >= 0, sum u = r} by sorting"""
    import numpy as np
    u = np.sort(x)[::-1]
    cs = np.cumsum(u) - r
    k = np.nonzero(u - cs / np.arange(1, x.size + 1) > 0)[0][-1]
    return np.maximum(x - cs[k] / (k + 1.0), 0)


@contract('P05 P09', '_Simplex.__init__ _Simplex.prox _Simplex.__call__ Simplex SimplexProj.__init__ SimplexProj.__call__ HyperPlaneBoxProj.__call__')
def simplex(B):
    B.havoc_whiles('projection.')
    tau, tau2, r, x = B.scalar('tau', pos=True), B.scalar('tau2', pos=True), B.scalar('radius', pos=True), B.vec('x')
    f = B.P.Simplex(x.size, r, maxiter=200)
    p = f.prox(x, tau)
    B.true('non-negative', B.all(p >= 0))
    B.eq('sums to the radius', B.np.sum(p), r, tol=1e-6)
    if B.sym:
        mu = B.C.roots[-1]
        nearest(B, 'nearest feasible point', x, p, lambda w: [B.all(w >= 0), B.np.sum(w) == r], add=lambda w: 2 * mu * (B.np.sum(p) - B.np.sum(w)))
        B.true('indicator accepts the result', f(p))
    else:
        q = simplex_ref(x, r)
        B.eq('nearest feasible point', p, q, tol=1e-6)
        B.eq('independent of tau', f.prox(x, tau2), p)
        B.eq('projection and prox agree', B.mod('projection').SimplexProj(x.size, r, 200, 1e-8)(x), q, tol=1e-5)
        B.eq('feasible points are unchanged', f.prox(q, tau), q, tol=1e-6)
        B.true('indicator accepts feasible points', f(q))
        B.true('indicator accepts points off by less than its tolerance', f(q * (1 + 1e-10)))
        for bad in (q * 1.01, q * 0.99):
            B.true('indicator rejects a wrong sum', f(bad) == False)  # noqa
        if q.size > 1:
            q[0] -= 0.01 + q[0]
            q[1] += r - q.sum()
            B.true('indicator rejects negative entries', f(q) == False)  # noqa
    B.frames()


@contract('P05 P09', 'Simplex with dims, numba engine', num_only=True, cfgs=[dict(engine=e, axis=a) for e in ('numpy', 'numba') for a in (0, 1, -1, None)])
def simplex_dims(B, engine, axis):
    import numpy as np
    tau, r = B.scalar('tau', pos=True), B.scalar('radius', pos=True)
    if axis is None:
        x = B.vec('x')
        f = B.P.Simplex(x.size, r, engine=engine, maxiter=200)
        B.eq('nearest feasible point', f.prox(x, tau), simplex_ref(x, r), tol=1e-6)
    else:
        n, m = B.dim('n', 1, 5), B.dim('m', 1, 5)
        x = B.vec('x', n * m)
        f = B.P.Simplex(n * m, r, dims=(n, m), axis=axis, engine=engine, maxiter=200)
        X = x.reshape(n, m)
        ref = np.apply_along_axis(simplex_ref, axis, X, r)
        B.eq('each row or column is projected', f.prox(x, tau), ref.ravel(), tol=1e-6)
        g = B.P.Simplex(n * m, r, dims=(n, m), axis=axis, engine=engine, call=True)
        B.true('indicator accepts feasible points', g(ref.ravel()))
        bad = ref.copy()
        sl = (slice(None), 0) if axis == 0 else (0, slice(None))
        bad[sl] = bad[sl] * 1.5
        B.true('indicator rejects a larger sum', g(bad.ravel()) == False)  # noqa
        bad = ref.copy()
        bad[0, 0] = -0.5
        B.true('indicator rejects negative entries', g(bad.ravel()) == False)  # noqa
    B.frames()


@contract('P05 P09', '_Simplex.__init__ _Simplex.prox _Simplex.__call__ with dims', sym_only=True, replay='simplex_dims', cfgs=[dict(rows=1, axis=1), dict(rows=2, axis=1), dict(rows=3, axis=-1)])
def simplex_dims_all(B, rows, axis):
    """a given number of rows of any length: each row is projected on its own"""
    B.havoc_whiles('projection.')
    tau, r, k = B.scalar('tau', pos=True), B.scalar('radius', pos=True), B.dim('k')
    x = B.vec('x', blocks=['k'] * rows)
    f = B.P.Simplex(rows * k, r, dims=(rows, k), axis=axis, engine='numpy', maxiter=200, call=True)
    p = f.prox(x, tau)
    B.eq('flattened result of the same length', p.size, x.size)
    B.true('non-negative', B.all(p >= 0))
    roots = B.C.roots[-rows:]
    from vf import core
    for i in range(rows):
        xi, pi = core.V([x.bufs[i]]), core.V([p.bufs[i]])
        B.eq('each row sums to the radius', B.np.sum(pi), r)
        nearest(B, 'nearest feasible row', xi, pi, lambda w: [B.all(w >= 0), B.np.sum(w) == r], add=lambda w: 2 * roots[i] * (B.np.sum(pi) - B.np.sum(w)), name='w%d' % i)
    B.true('indicator accepts the result', f(p))
    B.frames()


@contract('P05', '_Simplex.__call__ with dims', num_only=True, ncases=8)
def simplex_dims_small_sum(B):
    """rows that sum to less than the radius are outside the simplex"""
    import numpy as np
    r = B.scalar('radius', pos=True)
    n, m = B.dim('n', 1, 5), B.dim('m', 1, 5)
    f = B.P.Simplex(n * m, r, dims=(n, m), axis=1)
    x = np.full((n, m), 0.5 * r / m).ravel()
    B.true('indicator rejects a smaller sum', f(x) == False)  # noqa


@contract('P05 P09', 'L1Ball.prox L1Ball.__call__ L1BallProj.__call__ SimplexProj.__call__', weight=2)
def l1_ball(B):
    B.havoc_whiles('projection.')
    tau, tau2, r, x = B.scalar('tau', pos=True), B.scalar('tau2', pos=True), B.scalar('radius', pos=True), B.vec('x')
    f = B.P.L1Ball(x.size, r, maxiter=200, xtol=1e-10)
    s = B.np.sum(B.np.abs(x))
    inside = B.cond(s <= r)
    n1 = lambda u: B.np.sum(B.np.abs(u))  # noqa
    nroots = len(B.C.__dict__.get('roots', ())) if B.sym else 0
    p = f.prox(x, tau)
    if B.sym and not inside and len(B.C.__dict__.get('roots', ())) == nroots:
        mu = 0   # no multiplier was computed
    elif B.sym and not inside:
        mu = B.C.roots[-1]
        if B.cond(mu < 0):
            # a negative multiplier would make the thresholded sum exceed the 1-norm
            B.fact_le('multiplier is non-negative', s, B.np.sum(B.np.maximum(B.np.abs(x) - mu, 0)))
            B.true('multiplier is non-negative', False)
            return
        B.fact_le('thresholding keeps the sum', n1(p), B.np.sum(B.np.maximum(B.np.abs(x) - mu, 0)))
    B.le('feasible', n1(p), r, tol=1e-5)
    B.true('indicator accepts the result', f(p))
    if inside:
        B.eq('feasible points are unchanged', p, x)
        B.true('indicator accepts feasible points', f(x))
    if B.sym:
        if not inside:
            for w in B.competitors('w', x):
                B.assume(n1(w) <= r)
                B.le('nearest feasible point', sq(B, p - x) + 2 * mu * (n1(p) - n1(w)), sq(B, w - x))
        else:
            nearest(B, 'nearest feasible point', x, p, lambda w: n1(w) <= r)
    else:
        import numpy as np
        q = x if s <= r else np.sign(x) * simplex_ref(np.abs(x), r)
        B.eq('nearest feasible point', p, q, tol=1e-5)
        B.eq('independent of tau', f.prox(x, tau2), p)
        B.eq('projection and prox agree', B.mod('projection').L1BallProj(x.size, r, 200, 1e-10)(x), p)
        for d in (1e-6, 1e-5, 1e-4, 1e-3, 1e-2):
            # just outside the ball
            xb = x * (r * (1 + d) / s) if s > 1e-3 else None
            if xb is not None:
                B.le('feasible (a point just outside)', n1(f.prox(xb, tau)), r * (1 + 1e-7) + 1e-8)
        if s > r * (1 + 1e-3) + 1e-3:
            B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    B.frames()


@contract('P05', 'L1BallProj.__call__ complex branch', num_only=True)
def l1_ball_complex(B):
    import numpy as np
    r, tau = B.scalar('radius', pos=True), B.scalar('tau', pos=True)
    x = B.vec('x') * np.exp(1j * B.vec('phase'))
    f = B.P.L1Ball(x.size, r, maxiter=200, xtol=1e-10)
    a = np.abs(x)
    ref = x if a.sum() <= r else np.exp(1j * np.angle(x)) * simplex_ref(a, r)
    B.eq('nearest feasible point', f.prox(x, tau), ref, tol=1e-5)


@contract('P05 P09', 'L0BallProj.__init__ L0BallProj.__call__ L0Ball.__init__ L0Ball.prox L0Ball.__call__', ncases=40)
def l0_ball_all(B):
    """keeps the entries of largest magnitude: all n and every radius; nearest point among those with at most radius non-zeros"""
    r, tau, x = B.count('radius', 0, 9), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.L0Ball(r)
    p = f.prox(x, tau)
    B.eq('projection and prox agree', B.mod('projection').L0BallProj(r)(x), p)
    B.eq('independent of tau', f.prox(x, 2 * tau), p)
    n, a = B.np.sum(1 + 0 * x), B.np.abs(x)
    m, t = B.removed(x, p, a, r)
    B.eq('entries are kept or set to zero', p, (1 - m) * x)
    B.eq('all but radius entries are removed', B.np.sum(m), B.np.maximum(n - r, 0))
    B.true('the largest magnitudes are kept', B.all((m * a <= m * t) & ((1 - m) * a >= (1 - m) * t)))
    B.fact_le('non-zero entries were kept', B.np.count_nonzero(p), n - B.np.sum(m))
    B.le('feasible', B.np.count_nonzero(p), r)
    B.true('indicator accepts the result', f(p))
    B.true('indicator accepts exactly the vectors with few non-zeros', B.any(B.both(f(x), B.np.count_nonzero(x) <= r), B.both(B.not_(f(x)), B.np.count_nonzero(x) > r)))
    for y in B.competitors('y', x, near=[p]):
        if not B.sym:
            y = y.copy()
            y[B.np.argsort(abs(y))[:max(y.size - r, 0)]] = 0.0
        B.assume(B.np.count_nonzero(y) <= r)
        B.fact_le('count', B.np.count_nonzero(y), n)
        B.fact_le('exchange', B.np.sum((p - x) ** 2), B.np.sum((y - x) ** 2) + t * t * (B.np.sum(m) - n + B.np.count_nonzero(y)))
        B.fact_le('exchange rate', t * t * (B.np.sum(m) - n + B.np.count_nonzero(y)), 0 if not B.sym else 0 * t)
        B.le('nearest feasible point', B.np.sum((p - x) ** 2), B.np.sum((y - x) ** 2))
    B.frames()


@contract('P05 P09', 'L0BallProj.__call__ L0Ball.prox L0Ball.__call__', num_only=True, ncases=60, cfgs=[dict(cplx=0), dict(cplx=1)])
def l0_ball(B, cplx):
    import numpy as np
    n = B.dim('n', 1, 9)
    r = int(B.rng.integers(0, n + 3))
    B.inputs['radius'] = r
    tau, x = B.scalar('tau', pos=True), B.vec('x', 'n')
    if cplx:
        x = x * np.exp(1j * B.vec('phase', 'n'))
    f = B.P.L0Ball(r)
    p = f.prox(x, tau)
    B.eq('independent of tau', f.prox(x, 2 * tau), p)
    B.eq('projection and prox agree', B.mod('projection').L0BallProj(r)(x), p)
    k = p != 0
    B.true('feasible', np.count_nonzero(p) <= r)
    B.eq('kept entries are unchanged', p[k], x[k])
    B.eq('the largest magnitudes are kept', np.sort(np.abs(p))[::-1][:r], np.sort(np.abs(x))[::-1][:r])
    B.true('indicator accepts the result', f(p))
    if np.count_nonzero(x) <= r:
        B.eq('feasible points are unchanged', p, x)
        B.true('indicator accepts feasible points', f(x))
    else:
        B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    B.frames()


@contract('P05 P09', 'L10BallProj.__init__ L10BallProj.__call__ L10Ball.__init__ L10Ball.prox L10Ball.__call__ L01Ball.__init__ L01BallProj.__init__', ncases=30,
          cfgs=[dict(nd=1, old=0), dict(nd=2, old=0), dict(nd=2, old=1), dict(nd=3, old=0)])
def l10_ball_all(B, nd, old):
    """keeps the columns of largest 1-norm: any number of columns and every radius"""
    r, tau, x = B.count('radius', 0, 9), B.scalar('tau', pos=True), B.vec('x', blocks=['k'] * nd)
    f = (B.P.L01Ball if old else B.P.L10Ball)(nd, r)
    p = f.prox(x, tau)
    X, Pm = x.reshape(nd, x.size // nd), p.reshape(nd, x.size // nd)
    pj = (B.mod('projection').L01BallProj if old else B.mod('projection').L10BallProj)(r)
    B.eq('projection and prox agree', pj(X), Pm)
    B.eq('independent of tau', f.prox(x, 2 * tau), p)
    g, h = B.np.sum(B.np.abs(X), axis=0), B.np.sum(B.np.abs(Pm), axis=0)
    n = B.np.sum(1 + 0 * g)
    m, t = B.removed(X, Pm, g, r)
    B.eq('columns are kept or set to zero', Pm, X * (1 - m))
    B.eq('all but radius columns are removed', B.np.sum(m), B.np.maximum(n - r, 0))
    B.true('the columns largest in the 1-norm are kept', B.all((m * g <= m * t) & ((1 - m) * g >= (1 - m) * t)))
    B.fact_le('non-zero columns were kept', B.np.count_nonzero(h), n - B.np.sum(m))
    B.le('feasible', B.np.count_nonzero(h), r)
    B.true('indicator accepts the result', f(p))
    B.true('indicator accepts exactly the arrays with few non-zero columns', B.any(B.both(f(x), B.np.count_nonzero(g) <= r), B.both(B.not_(f(x)), B.np.count_nonzero(g) > r)))
    B.frames()


@contract('P05 P09', 'L10BallProj.__call__ L10Ball.prox L10Ball.__call__ L01Ball L01BallProj', num_only=True, ncases=60, cfgs=[dict(old=0), dict(old=1)])
def l10_ball(B, old):
    import numpy as np
    nd, m = B.dim('ndim', 1, 4), B.dim('m', 1, 7)
    r = int(B.rng.integers(0, m + 2))
    B.inputs['radius'] = r
    tau, x = B.scalar('tau', pos=True), B.vec('x', nd * m)
    f = (B.P.L01Ball if old else B.P.L10Ball)(nd, r)
    p = f.prox(x, tau)
    B.same('flattened result', p.shape == x.shape, True)
    X, Pm = x.reshape(nd, m), p.reshape(nd, m)
    B.eq('independent of tau', f.prox(x, 2 * tau), p)
    pj = (B.mod('projection').L01BallProj if old else B.mod('projection').L10BallProj)(r)
    B.eq('projection and prox agree', pj(X), Pm)
    k = np.any(Pm != 0, axis=0)
    B.true('feasible', np.count_nonzero(k) <= r)
    B.eq('kept columns are unchanged', Pm[:, k], X[:, k])
    g = np.sum(np.abs(X), axis=0)
    B.eq('the columns largest in the 1-norm are kept', np.sort(np.sum(np.abs(Pm), axis=0))[::-1][:r], np.sort(g)[::-1][:r])
    B.true('indicator accepts the result', f(p))
    if np.count_nonzero(g) <= r:
        B.eq('feasible points are unchanged', p, x)
    else:
        B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    B.frames()


@contract('P05 P09', 'Hankel.prox Hankel.__call__ HankelProj.__call__', num_only=True, ncases=40)
def hankel(B):
    import numpy as np
    if B.seed % 10 == 7:
        n, m = [(140, 2), (2, 150), (290, 1), (300, 300)][B.seed // 10 % 4]
    else:
        n, m = B.dim('n', 1, 6), B.dim('m', 1, 6)
    tau, x = B.scalar('tau', pos=True), B.vec('x', n * m)
    f = B.P.Hankel((n, m))
    X = x.reshape(n, m)
    ref = np.zeros((n, m))
    for s in range(n + m - 1):
        ij = [(i, s - i) for i in range(n) if 0 <= s - i < m]
        v = np.mean([X[i, j] for i, j in ij])
        for i, j in ij:
            ref[i, j] = v
    p = f.prox(x, tau)
    B.same('flattened result', p.shape == x.shape, True)
    B.eq('antidiagonal means', p, ref.ravel())
    B.eq('projection and prox agree', B.mod('projection').HankelProj()(X), ref)
    B.true('indicator accepts the result', f(p))
    if not np.allclose(X, ref, rtol=1e-3, atol=1e-3):
        B.true('indicator rejects infeasible points', f(x) == False)  # noqa
    B.frames()


@contract('P05 P09', 'Intersection.prox Intersection.__call__ IntersectionProj.__init__ IntersectionProj.__call__', num_only=True, ncases=40, cfgs=[dict(s='scalar'), dict(s='matrix')])
def intersection(B, s):
    """columns with pairwise differences bounded: exact projection by an independent QP-free check of the optimality conditions"""
    import numpy as np
    k, n = B.dim('k', 2, 4), B.dim('n', 1, 4)
    tau, x = B.scalar('tau', pos=True), B.vec('x', k * n)
    if s == 'scalar':
        sg = B.scalar('sigma', pos=True)
        S = sg * np.ones((k, k))
    else:
        S = np.exp(B.rng.normal(size=(k, k)))
        S = (S + S.T) / 2
        sg = S
        B.owned.append(('sigma', S, S.copy()))
    f = B.P.Intersection(k, n, sg, niter=20000, tol=1e-11)
    p = f.prox(x, tau)
    B.same('flattened result', p.shape == x.shape, True)
    X, Pm = x.reshape(k, n), p.reshape(k, n)
    for i in range(k):
        for j in range(i + 1, k):
            B.true('feasible', np.all(np.abs(Pm[i] - Pm[j]) <= S[i, j] + 1e-5))
    B.eq('column sums are kept', Pm.sum(0), X.sum(0), tol=1e-5)
    # any feasible competitor is at least as far
    for w in B.competitors('w', x, near=[p]):
        W = w.reshape(k, n)
        t = min([1.0] + [float(np.min(np.where(np.abs(W[i] - W[j]) > 0, S[i, j] / np.maximum(np.abs(W[i] - W[j]), 1e-300), np.inf))) for i in range(k) for j in range(i + 1, k)])
        m = W.mean(0)
        W = m + (W - m) * min(1.0, t)
        B.le('nearest feasible point', np.sum((Pm - X) ** 2), np.sum((W - X) ** 2), tol=1e-4)
    # obtuse-angle criterion against feasible points
    B.eq('independent of tau', f.prox(x, 3 * tau), p)
    mid = X.mean(0) + (Pm - X.mean(0)) * (1 - 1e-4)
    B.true('indicator accepts the result', f(mid.ravel()))
    big = mid.copy()
    big[0] = big[1] + S[0, 1] * 1.5 + 0.1
    B.true('indicator rejects infeasible points', f(big.ravel()) == False)  # noqa
    B.true('indicator disabled', B.P.Intersection(k, n, sg, call=False)(mid.ravel()) == False)  # noqa
    if all(np.all(np.abs(X[i] - X[j]) <= S[i, j]) for i in range(k) for j in range(i + 1, k)):
        B.eq('feasible points are unchanged', p, x, tol=1e-6)
    B.frames()
