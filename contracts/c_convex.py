"""P03 (and P02, P08, P09): closed forms of the convex operators."""
from vf.api import contract
from contracts.util import minimiser, moreau_id, norm, sq


@contract('P03 P02 P09', 'L1.prox L1.proxdual L1.__call__ _softthreshold _current_sigma BoxProj.__call__', cfgs=[dict(g=False), dict(g=True)])
def l1(B, g):
    s, tau, x = B.scalar('sigma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    gv = B.vec('g') if g else None
    f = B.P.L1(s, g=gv) if g else B.P.L1(s)
    ref = (lambda u: s * B.np.sum(B.np.abs(u - gv))) if g else (lambda u: s * B.np.sum(B.np.abs(u)))
    B.eq('value is sigma |x - g|_1', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    minimiser(B, 'prox minimises', ref, x, tau, p, 'P03', near=[gv] if g else [])
    moreau_id(B, f, x, tau)
    B.frames()


@contract('P03 P09', 'L1.prox L1.__call__')
def l1_vector_sigma(B):
    s, tau, x = B.vec('sigma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.L1(s)
    p = f.prox(x, tau)
    minimiser(B, 'prox minimises the weighted norm', lambda u: B.np.sum(s * B.np.abs(u)), x, tau, p, 'P03')
    B.frames()


@contract('P03 P02 P08 P09', 'L2.prox L2.__call__ L2.grad', cfgs=[dict(b=b, q=q) for b in (0, 1) for q in (0, 1)])
def l2(B, b, q):
    s, a, tau, x = B.scalar('sigma', pos=True), B.scalar('alpha'), B.scalar('tau', pos=True), B.vec('x')
    bv = B.vec('b') if b else None
    qv = B.vec('q') if q else None
    f = B.P.L2(b=bv, q=qv, sigma=s, alpha=a)

    def ref(u):
        r = s / 2 * sq(B, u - bv if b else u)
        return r + a * B.np.dot(qv, u) if q else r
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    minimiser(B, 'prox minimises', ref, x, tau, p, 'P03', around=True)
    moreau_id(B, f, x, tau)
    g = s * (x - bv) if b else s * x
    B.eq('gradient', f.grad(x), g + a * qv if q else g, 'P08')
    f2 = B.P.L2(b=bv, q=qv, sigma=s, alpha=a, qgrad=False)
    B.eq('gradient without the linear term when asked', f2.grad(x), g, 'P08')
    B.frames()


L2OP = [dict(explicit=e, q=q, solver=s, dense=d) for (e, s, d) in ((True, 'legacy', None), (True, 'legacy', 'factorize'), (False, 'legacy', None),
        (False, 'cg', None), (False, 'cgls', None), (True, 'cgls', None)) for q in (0, 1)]


@contract('P03 P02 P08 P09', 'L2.__init__ L2.prox L2.__call__ L2.grad', cfgs=L2OP, ncases=14)
def l2_operator(B, explicit, q, solver, dense):
    s, a, tau, x = B.scalar('sigma', pos=True), B.scalar('alpha'), B.scalar('tau', pos=True), B.vec('x')
    A = B.linop('A', explicit=explicit)
    bv = B.vec('b', 'm')
    qv = B.vec('q') if q else None
    f = B.P.L2(Op=A, b=bv, q=qv, sigma=s, alpha=a, solver=solver, densesolver=dense, niter=200)

    def ref(u):
        r = s / 2 * sq(B, A.matvec(u) - bv)
        return r + a * B.np.dot(qv, u) if q else r
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    # iterative solvers are assumed exact in the proof; their default tolerance shows in the concrete runs
    minimiser(B, 'prox minimises', ref, x, tau, p, 'P03', around=True, tol=1e-5 if dense or explicit else 1e-4)
    g = s * A.rmatvec(A.matvec(x) - bv)
    B.eq('gradient', f.grad(x), g + a * qv if q else g, 'P08')
    f2 = B.P.L2(Op=A, b=bv, q=qv, sigma=s, alpha=a, qgrad=False, solver=solver, densesolver=dense)
    B.eq('gradient without the linear term when asked', f2.grad(x), g, 'P08')
    f3 = B.P.L2(Op=A, b=bv, q=qv, sigma=s, alpha=a, solver=solver, densesolver=dense, niter=200, warm=False)
    B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', f3.prox(x, tau) + tau * f3.proxdual(x / tau, 1.0 / tau), x, 'P02', tol=1e-4)
    B.frames()


@contract('P03 P02 P08 P09', 'Euclidean.prox Euclidean.proxdual Euclidean.__call__ Euclidean.grad')
def euclidean(B):
    s, tau, x = B.scalar('sigma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.Euclidean(s)
    B.eq('value', f(x), s * norm(B, x), 'P03')
    p = f.prox(x, tau)
    minimiser(B, 'prox minimises', lambda u: s * norm(B, u), x, tau, p, 'P03')
    moreau_id(B, f, x, tau)
    B.assume(norm(B, x) > 0)
    B.eq('gradient times the norm is sigma x', f.grad(x) * norm(B, x), s * x, 'P08')
    B.frames()


@contract('P03 P09', 'Huber.prox Huber.__call__')
def huber(B):
    a, tau, x = B.scalar('alpha', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.Huber(a)

    def ref(u):
        au = B.np.abs(u)
        return B.np.sum(B.np.where(au <= a, u * u / (2 * a), au - a / 2))
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    minimiser(B, 'prox minimises', ref, x, tau, p, 'P03')
    B.frames()


@contract('P03 P09', 'HuberCircular.prox HuberCircular.__call__')
def huber_circular(B):
    a, tau, x = B.scalar('alpha', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.HuberCircular(a)

    def ref(u):
        n = norm(B, u)
        return B.np.where(n <= a, n ** 2 / (2 * a), n - a / 2)
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    minimiser(B, 'prox minimises', ref, x, tau, p, 'P03')
    B.frames()


@contract('P02', 'Huber.proxdual HuberCircular.proxdual ProxOperator.proxdual ProxOperator._proxdual_moreau', cfgs=[dict(k='Huber'), dict(k='HuberCircular')])
def huber_dual(B, k):
    a, tau, x = B.scalar('alpha', pos=True), B.scalar('tau', pos=True), B.vec('x')
    moreau_id(B, getattr(B.P, k)(a), x, tau)


QCF = [dict(Op=o, b=b) for o in ('none', 'explicit', 'free') for b in (0, 1)]


@contract('P03 P02 P08 P09', 'Quadratic.prox Quadratic.__call__ Quadratic.grad Quadratic.__init__', cfgs=QCF, ncases=16)
def quadratic(B, Op, b):
    tau, c, x = B.scalar('tau', pos=True), B.scalar('c'), B.vec('x')
    bv = B.vec('b') if b else None
    A = None
    if Op != 'none':
        R = B.linop('R', explicit=(Op == 'explicit'))
        A = R.H @ R if not B.sym else R.H.dot(R)
        if not B.sym:
            import numpy as np
            import pylops
            from vf.numstubs import _Free
            M = R.H @ np.eye(1) if False else np.array([R.rmatvec(R.matvec(e)) for e in np.eye(x.size)]).T
            A = pylops.MatrixMult(M) if Op == 'explicit' else _Free(M)
        else:
            A.explicit = (Op == 'explicit')
    f = B.P.Quadratic(Op=A, b=bv, c=c, niter=300)

    def ref(u):
        r = c
        if A is not None:
            r = r + B.np.dot(u, A.matvec(u)) / 2
        if b:
            r = r + B.np.dot(bv, u)
        return r
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    minimiser(B, 'prox minimises', ref, x, tau, p, 'P03', around=True, tol=1e-5)
    if A is not None or b:
        g = A.matvec(x) if A is not None else bv
        if A is not None and b:
            g = g + bv
        B.eq('gradient', f.grad(x), g, 'P08')
    moreau_id2(B, B.P.Quadratic(Op=A, b=bv, c=c, niter=300, warm=False), x, tau)
    B.frames()


def moreau_id2(B, f, x, tau):
    B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', f.prox(x, tau) + tau * f.proxdual(x / tau, 1.0 / tau), x, 'P02', tol=1e-4)


def group_threshold(B, ws, ps, N, k, q, c):
    """w - p is a subgradient of c |.| at p = w k, for pairs w with |w| = N, k = max(1 - c / N, 0), |p| = q"""
    hy = [lambda w0, w1, N, k, p0, p1, q, c: c >= 0, lambda w0, w1, N, k, p0, p1, q, c: N >= 0, lambda w0, w1, N, k, p0, p1, q, c: N * N == w0 * w0 + w1 * w1,
          lambda w0, w1, N, k, p0, p1, q, c: k * N >= N - c, lambda w0, w1, N, k, p0, p1, q, c: k * N * (k * N - N + c) == 0,
          lambda w0, w1, N, k, p0, p1, q, c: p0 == w0 * k, lambda w0, w1, N, k, p0, p1, q, c: p1 == w1 * k, lambda w0, w1, N, k, p0, p1, q, c: k >= 0,
          lambda w0, w1, N, k, p0, p1, q, c: q >= 0, lambda w0, w1, N, k, p0, p1, q, c: q * q == p0 * p0 + p1 * p1]
    g = (ws[0], ws[1], N, k, ps[0], ps[1], q, c)
    B.derive('distance of the group threshold', g, hy, lambda w0, w1, N, k, p0, p1, q, c: (w0 - p0) * (w0 - p0) + (w1 - p1) * (w1 - p1) <= c * c, 'P03')
    B.derive('direction of the group threshold', g, hy, lambda w0, w1, N, k, p0, p1, q, c: (w0 - p0) * p0 + (w1 - p1) * p1 == c * q, 'P03')


def group_cauchy(B, b, ys, Y, c):
    B.derive('Cauchy', (b[0], b[1], ys[0], ys[1], Y, c), [lambda u, v, y, z, Y, c: u * u + v * v <= c * c, lambda u, v, y, z, Y, c: Y * Y == y * y + z * z],
             lambda u, v, y, z, Y, c: (u * y + v * z) * (u * y + v * z) <= c * Y * (c * Y), 'P03')
    B.derive('projection on the group', (b[0] * ys[0] + b[1] * ys[1], c * Y), [lambda t, u: t * t <= u * u, lambda t, u: u >= 0], lambda t, u: t <= u, 'P03')


@contract('P03 P02 P09', 'L21.prox L21.proxdual L21.__call__', cfgs=[dict(ndim=1), dict(ndim=2), dict(ndim=3, _num=True)], weight=2)
def l21(B, ndim):
    s, tau = B.scalar('sigma', pos=True), B.scalar('tau', pos=True)
    x = B.vec('x', blocks=['k'] * ndim) if ndim > 1 or not B.sym else B.vec('x', 'k')
    f = B.P.L21(ndim=ndim, sigma=s)

    def nrm(u):
        if B.sym:
            t = None
            for i in range(ndim):
                w = u._part(i)
                t = w * w if t is None else t + w * w
            return B.np.sqrt(t)
        r = u.reshape(ndim, u.size // ndim)
        return B.np.sqrt(B.np.sum(r * r, axis=0))

    def ref(u):
        return s * B.np.sum(nrm(u))
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    B.lemma('norms shrink by tau sigma', nrm(p), B.np.maximum(nrm(x) - tau * s, 0.0), 'P03')
    pairs = B.sym and ndim == 2
    if pairs:
        np, c = B.np, tau * s
        xs, ps = [x._part(i) for i in range(2)], [p._part(i) for i in range(2)]
        N, q = nrm(x), nrm(p)
        k = np.maximum(1 - c / np.where(N == 0, 1 + 0 * N, N), 0)
        b = [u - v for u, v in zip(xs, ps)]
        for u, v in zip(xs, ps):
            B.fact_all('a factor common to the group', v == u * k, 'P03')
        group_threshold(B, xs, ps, N, k, q, c)
    for y in B.competitors('w', x, near=[p, x]):
        if pairs:
            ys, Y = [y._part(i) for i in range(2)], nrm(y)
            group_cauchy(B, b, ys, Y, c)
            B.derive('the objective grows away from p', (xs[0], xs[1], ps[0], ps[1], ys[0], ys[1], c * Y, c * q),
                     [lambda x, z, p, r, y, w, Y, q: (x - p) * y + (z - r) * w <= Y, lambda x, z, p, r, y, w, Y, q: (x - p) * p + (z - r) * r == q],
                     lambda x, z, p, r, y, w, Y, q: q + ((p - x) * (p - x) + (r - z) * (r - z)) / 2 <= Y + ((y - x) * (y - x) + (w - z) * (w - z)) / 2, 'P03')
        B.le('prox minimises', tau * ref(p) + 0.5 * sq(B, p - x), tau * ref(y) + 0.5 * sq(B, y - x), 'P03', tol=1e-7)
    moreau_id(B, f, x, tau)
    B.frames()


@contract('P03 P09', 'L21_plus_L1.prox L21_plus_L1.__call__', cfgs=[dict(shape='1d', _num=True), dict(shape='2d'), dict(shape='axis1', _num=True), dict(shape='2d3', _num=True)])
def l21_plus_l1(B, shape):
    s, rho, tau = B.scalar('sigma', pos=True), B.scalar('rho', lo=0.0, hi=1.0), B.scalar('tau', pos=True)
    x = B.vec('x', 'k') if shape == '1d' else B.vec('x', blocks=['k'] * (3 if shape == '2d3' else 2), rows=True)
    f = B.P.L21_plus_L1(sigma=s, rho=rho)
    ax = 1 if shape == 'axis1' else 0

    def ref(u):
        return rho * s * B.np.sum(B.np.abs(u)) + (1 - rho) * s * B.np.sum(B.np.sqrt(B.np.sum(u * u, axis=ax)))
    if ax == 0:
        B.eq('value', f(x), ref(x), 'P03')
        p = f.prox(x, tau)
    else:
        p = f.prox(x, tau, axis=1)
    if B.sym:
        # x - p = a + b with a in the subdifferential of th |.|_1 and b in that of c |.|_2 at p
        np, th, c = B.np, tau * s * rho, tau * s * (1 - rho)
        R = range(2)
        xs, ps = [x[i] for i in R], [p[i] for i in R]
        ws = [np.sign(u) * np.maximum(np.abs(u) - th, 0) for u in xs]
        N, q = np.sqrt(ws[0] * ws[0] + ws[1] * ws[1]), np.sqrt(ps[0] * ps[0] + ps[1] * ps[1])
        k = np.maximum(1 - c / np.where(N == 0, 1 + 0 * N, N), 0)
        a, b = [u - w for u, w in zip(xs, ws)], [w - v for w, v in zip(ws, ps)]
        for i in R:
            B.fact_all('soft threshold, then a factor common to the group', ps[i] == ws[i] * k, 'P03')
            B.fact_all('distance of the soft threshold', np.abs(a[i]) <= th, 'P03')
            B.fact_all('direction of the soft threshold', a[i] * ws[i] == th * np.abs(ws[i]), 'P03')
            B.derive('the common factor is not negative', (a[i], ws[i], k, ps[i], th), [lambda A, w, k, v, th: k >= 0, lambda A, w, k, v, th: v == w * k, lambda A, w, k, v, th: A * w == th * abs(w)],
                     lambda A, w, k, v, th: A * v == th * abs(v), 'P03')
        group_threshold(B, ws, ps, N, k, q, c)
    for y in B.competitors('w', x, near=[p, x]):
        if B.sym:
            ys = [y[i] for i in R]
            Y = np.sqrt(ys[0] * ys[0] + ys[1] * ys[1])
            for i in R:
                B.derive('subgradient of the 1-norm', (a[i], ys[i], th), [lambda A, y, th: abs(A) <= th],
                         lambda A, y, th: A * y <= th * abs(y), 'P03')
            group_cauchy(B, b, ys, Y, c)
            B.derive('expansion of the distances', tuple(ps + a + b + xs + ys),
                     [lambda p, r, a, c, b, d, x, z, y, w: x == p + a + b, lambda p, r, a, c, b, d, x, z, y, w: z == r + c + d],
                     lambda p, r, a, c, b, d, x, z, y, w: ((y - x) * (y - x) + (w - z) * (w - z)) / 2 - ((p - x) * (p - x) + (r - z) * (r - z)) / 2
                     == ((y - p) * (y - p) + (w - r) * (w - r)) / 2 - (a * y + c * w) + (a * p + c * r) - (b * y + d * w) + (b * p + d * r), 'P03')
            G = ((ys[0] - ps[0]) * (ys[0] - ps[0]) + (ys[1] - ps[1]) * (ys[1] - ps[1])) / 2
            D = [((u[0] - xs[0]) * (u[0] - xs[0]) + (u[1] - xs[1]) * (u[1] - xs[1])) / 2 for u in (ys, ps)]
            dot = [u[0] * v[0] + u[1] * v[1] for u, v in ((a, ys), (a, ps), (b, ys), (b, ps))]
            one = [th * abs(v[0]) + th * abs(v[1]) for v in (ys, ps)]
            B.derive('the objective grows away from p', tuple([G] + D + dot + one + [c * Y, c * q]),
                     [lambda G, D, E, s, t, u, v, f, g, h, k: D - E == G - s + t - u + v, lambda G, D, E, s, t, u, v, f, g, h, k: G >= 0, lambda G, D, E, s, t, u, v, f, g, h, k: s <= f,
                      lambda G, D, E, s, t, u, v, f, g, h, k: t == g, lambda G, D, E, s, t, u, v, f, g, h, k: u <= h, lambda G, D, E, s, t, u, v, f, g, h, k: v == k],
                     lambda G, D, E, s, t, u, v, f, g, h, k: g + k + E <= f + h + D, 'P03')
        B.le('prox minimises', tau * ref(p) + 0.5 * sq(B, p - x), tau * ref(y) + 0.5 * sq(B, y - x), 'P03', tol=1e-7)
    B.frames()


@contract('P03 P08 P02', 'L1 L2 Euclidean HuberCircular on complex data', num_only=True, ncases=40,
          cfgs=[dict(kind=k) for k in ('plain', 'b', 'explicit', 'factorize', 'cg', 'lsqr', 'inversion', 'L1', 'Euclidean', 'HuberCircular')])
def complex_convex(B, kind):
    """bounded: complex vectors, data and operators: the minimiser of the documented function, its value and its gradient"""
    import numpy as np
    import pylops
    rng = B.rng
    n, m = int(rng.integers(2, 6)), int(rng.integers(2, 7))
    cv = lambda k: rng.normal(size=k) + 1j * rng.normal(size=k)  # noqa
    x, tau, sg = cv(n), float(np.exp(rng.uniform(-2, 2))), float(np.exp(rng.uniform(-1.5, 1.5)))
    tol = 1e-6
    if kind in ('L1', 'Euclidean', 'HuberCircular'):
        f = getattr(B.P, kind)(sg)
        ax, nx = np.abs(x), np.linalg.norm(x)
        if kind == 'L1':
            val, p = sg * np.sum(ax), np.maximum(ax - tau * sg, 0) * x / ax
        elif kind == 'Euclidean':
            val, p = sg * nx, max(1 - tau * sg / nx, 0) * x
        else:
            val, p = (nx ** 2 / (2 * sg) if nx <= sg else nx - sg / 2), (1 - tau / max(nx, tau + sg)) * x
        B.eq('value of a complex vector', f(x), val)
        B.eq('minimiser for a complex vector', f.prox(x, tau), p, tol=tol)
        B.eq('Moreau identity for a complex vector', f.prox(x, tau) + tau * f.proxdual(x / tau, 1 / tau), x, 'P02', tol=tol)
        return
    if kind == 'plain':
        f, A, b = B.P.L2(sigma=sg), np.eye(n), np.zeros(n)
    elif kind == 'b':
        b = cv(n)
        f, A = B.P.L2(b=b, sigma=sg), np.eye(n)
    else:
        A, b = rng.normal(size=(m, n)) + 1j * rng.normal(size=(m, n)), cv(m)
        M = pylops.MatrixMult(A, dtype='complex128')
        kw = {}
        if kind == 'factorize':
            kw['densesolver'] = 'factorize'
        elif kind != 'explicit':
            M = pylops.FunctionOperator(lambda v: A @ v, lambda v: A.conj().T @ v, m, n, dtype='complex128')
            kw['niter'] = 400
            if kind == 'cg':
                kw.update(solver='cg', kwargs_solver=dict(tol=1e-14))
            elif kind == 'lsqr':
                kw.update(solver='legacy', kwargs_solver=dict(atol=1e-13, btol=1e-13))
            else:
                kw.update(solver='cgls', kwargs_solver=dict(tol=1e-14))
        f = B.P.L2(M, b, sigma=sg, **kw)
        tol = 1e-4
    AH = A.conj().T
    r = A @ x - b
    B.eq('value of a complex vector', f(x), sg / 2 * np.linalg.norm(r) ** 2)
    B.eq('gradient at a complex vector', f.grad(x), sg * AH @ r, 'P08', tol=1e-8)
    for _ in range(2):
        p = np.linalg.solve(np.eye(n) + tau * sg * AH @ A, x + tau * sg * AH @ b)
        B.eq('minimiser for a complex vector', f.prox(x, tau), p, tol=tol)
        B.eq('Moreau identity for a complex vector', f.prox(x, tau) + tau * f.proxdual(x / tau, 1 / tau), x, 'P02', tol=tol)
        x, tau = cv(n), tau * 1.7
