"""P15 (and P16, P09): outer drivers."""
from vf.api import contract


BR = [dict(A=a, warm=w, tup=t, show=s) for a, w, t, s in ((False, False, False, False), (True, True, False, False), (False, True, True, True), (True, False, True, True))]


@contract('P15 P16 P09', 'Bregman', cfgs=BR, ncases=20)
def bregman(B, A, warm, tup, show):
    """the inner solver is an arbitrary function of what it can observe of the subproblem: value and prox of both terms at an arbitrary
    point, the starting point, the operator and the extra arguments"""
    f, g, N = B.prox('f'), B.prox('g'), B.count('niterouter', 1 if show else 0, 7)
    Op = B.linop('A', B.dim('m', 1, 4), B.dim('n', 1, 4)) if A else None
    x0 = B.vec('x0')
    probe, t0 = B.vec('probe'), B.scalar('t0', pos=True, num=(0.2, 1.5))
    gprobe = B.vec('gprobe', 'm') if A else probe
    al = B.scalar('alpha', pos=True, num=(0.3, 3.0))
    tx, tf = B.scalar('tolx', nonneg=True, num=(1e-4, 0.3)), B.scalar('tolf', nonneg=True, num=(1e-4, 0.3))
    extra = B.scalar('extra', pos=True)
    inner = B.vfun('inner')
    np = B.np

    def result(start, fp, fv, gp, gv):
        u = gp if not A else Op.rmatvec(gp)
        return inner(start, fp, u, fv, gv, extra)

    def solver(pf, pg, x0, **k):
        B.same('extra arguments are handed on', ' '.join(sorted(k)), 'A extra' if A else 'extra')
        B.eq('extra argument', k['extra'], extra)
        if A:
            B.eq('the linear operator is handed on', k['A'].matvec(probe), Op.matvec(probe))
        x = result(x0, pf.prox(probe, t0), pf(probe), pg.prox(gprobe, t0), pg(gprobe))
        return (x, x + 1.0) if tup else x

    def step(s, k):
        aq = al * s.q
        x = result(s.x if warm else x0, f.prox(probe + t0 * aq, t0), f(probe) - np.dot(aq, probe), g.prox(gprobe, al * t0), al * g(gprobe))
        return dict(x=x, q=s.q - f.grad(x) / al, d=np.linalg.norm(x - s.x), F=f(x))
    kw = dict(A=Op) if A else {}
    B.machine(lambda cb, n: B.mod('optimization.bregman').Bregman(f, g, x0, solver, alpha=al, niterouter=n, warm=warm, tolx=tx, tolf=tf, bregcallback=cb, show=show, extra=extra, **kw), N,
              lambda: dict(x=x0.copy(), q=0 * x0, d=1.0, F=1.0), step, cb=lambda s: (s.x,), out=lambda s: s.x,
              stop=lambda s, k: B.any(s.d < tx, s.F < tf), prop='P15')
    B.frames()


@contract('P15 P16', 'Bregman', cfgs=[dict(A=False), dict(A=True)])
def bregman_defaults(B, A):
    """cold start by default; q starts at zero, alpha one"""
    f, g = B.prox('f'), B.prox('g')
    Op = B.linop('A', B.dim('m', 1, 4), B.dim('n', 1, 4)) if A else None
    x0, probe, t0 = B.vec('x0'), B.vec('probe'), B.scalar('t0', pos=True, num=(0.2, 1.5))
    starts, out = [], [B.vec('r1'), B.vec('r2'), B.vec('r3')]

    def solver(pf, pg, x0, **k):
        i = len(starts)
        starts.append(x0.copy())
        q = 0 * x0
        for j in range(i):
            q = q - f.grad(out[j])
        B.eq('data term of outer iteration %d' % i, pf.prox(probe, t0), f.prox(probe + t0 * q, t0))
        B.eq('value of the data term of outer iteration %d' % i, pf(probe), f(probe) - B.np.dot(q, probe))
        return out[i].copy()
    for r in out:
        B.assume(f(r) >= 1e-10)
    B.assume(B.np.linalg.norm(out[0] - x0) >= 1e-10)
    B.assume(B.np.linalg.norm(out[1] - out[0]) >= 1e-10)
    r = B.mod('optimization.bregman').Bregman(f, g, x0, solver, A=Op, niterouter=3)
    for i, s in enumerate(starts):
        B.eq('cold start of outer iteration %d' % i, s, x0)
    B.same('number of outer iterations', len(starts), 3, 'P16')
    B.eq('last iterate is returned', r, out[2])
    B.frames()


@contract('P15', 'PlugAndPlay _Denoise.__init__ _Denoise.__call__ _Denoise.prox', cfgs=[dict(shape=1), dict(shape=2)])
def plug_and_play(B, shape):
    f = B.prox('f')
    if shape == 1:
        n = B.dim('n', 1, 8)
        dims = (n,)
    else:
        n1, n2 = B.dim('n1', 1, 4), B.dim('n2', 1, 4)
        n = n1 * n2
        dims = (n1, n2)
    x0 = start = B.vec('x0', n)
    probe, t0, extra = B.vec('probe', n), B.scalar('t0', pos=True), B.scalar('extra', pos=True)
    den, got, res = B.vfun('denoiser'), [], B.vec('result', n)

    def denoiser(v, tau):
        got.append((v.shape, tau))
        return den(v, tau)

    def solver(pf, pg, x0, **k):
        B.eq('the prox of the data term is handed on', pf.prox(probe, t0), f.prox(probe, t0))
        B.eq('the data term is handed on', pf(probe), f(probe))
        B.eq('the starting point is handed on', x0, start)
        B.same('extra arguments are handed on', ' '.join(sorted(k)), 'extra')
        B.eq('extra argument', k['extra'], extra)
        p = pg.prox(probe, t0)
        B.same('one call of the denoiser per prox', len(got), 1)
        B.same('the denoiser sees the given number of dimensions', len(got[0][0]), len(dims))
        for s, d in zip(got[0][0], dims):
            B.eq('the denoiser sees the given dimensions', s, d)
        B.eq('the denoiser gets the step', got[0][1], t0)
        B.eq('its result is flattened', p, den(probe.reshape(dims), t0).ravel())
        B.same('flat', len(p.shape), 1)
        B.eq('the implicit regulariser has value zero', pg(probe), 0.0)
        B.raises('a step of zero is refused', ValueError, lambda: pg.prox(probe, 0.0), 'P01')
        return res, extra
    r = B.mod('optimization.pnp').PlugAndPlay(f, denoiser, dims, x0, solver=solver, extra=extra)
    B.same('returns what the solver returns', r[0], res)
    B.same('returns all the solver returns', len(r), 2)
    B.frames()


@contract('P15', 'PlugAndPlay', cfgs=[dict()])
def plug_and_play_default(B):
    """by default the solver is ADMM with the denoiser, at the configured step, as the prox of its second term"""
    f, N = B.prox('f'), B.count('niter', 0, 8)
    n1, n2 = B.dim('n1', 1, 4), B.dim('n2', 1, 4)
    x0, tau = B.vec('x0', n1 * n2), B.scalar('tau', pos=True)
    den = B.vfun('denoiser')

    def step(s, k):
        x = f.prox(s.z - s.u, tau)
        z = den((x + s.u).reshape((n1, n2)), tau).ravel()
        return dict(x=x, z=z, u=s.u + x - z)
    B.machine(lambda cb, n: B.mod('optimization.pnp').PlugAndPlay(f, den, (n1, n2), x0, tau=tau, niter=n, callback=cb), N,
              lambda: dict(x=x0.copy(), z=x0.copy(), u=0 * x0), step, cb=lambda s: (s.x,), out=lambda s: (s.x, s.z), prop='P15')
    B.frames()


def soft(B, v, t):
    return B.np.sign(v) * B.np.maximum(abs(v) - t, 0)


def lsqr_stub(B, probe):
    """contract of _lsqr for SR3: a function of the operator, data, z, starting point, kappa, eps and Reg, written over the starting point it returns"""
    def call(a):
        from vf import stubs
        r = stubs.uvec(B.C, '_lsqr', [a['Op'].matvec(probe), a['data'], a['iter_lim'], a['z_old'], a['x0'], a['kappa'], a['eps'], a['Reg'].matvec(probe)], same=a['x0'])
        return r

    def spec(B, a):
        r = call(a)
        a['x0'][:] = r
        a['data'][:] = 0.0
        return a['x0']
    B.stub('optimization.sr3', '_lsqr', spec, None)
    return lambda **a: call(a)


@contract('P15 P16 P09', 'SR3', sym_only=True, cfgs=[dict(adaptive=True, x0=False), dict(adaptive=True, x0=True), dict(adaptive=False, x0=False), dict(adaptive=False, x0=True)])
def sr3(B, adaptive, x0):
    """x = argmin |Op x - data|^2 + kappa |Reg x - v|^2 (not adaptive; adaptive: the inner solver, under its own contract), w the soft threshold
    of Reg x at eps/kappa, accelerated v; stops when v and w agree to 1e-6 relative to max(1, |w|)"""
    np = B.np
    Op, R = B.linop('Op', 'm', 'n'), B.linop('Reg', 'p', 'n')
    d, ka, ep, N = B.vec('data', 'm'), B.scalar('kappa', pos=True), B.scalar('eps', pos=True), B.count('niter', 1, 8)
    il = B.count('iter_lim_inner', 1, 8)
    xs = B.vec('x0', 'n') if x0 else None
    probe = B.vec('probe', 'n')
    sk = np.sqrt(ka)
    lsq = lsqr_stub(B, probe) if adaptive else None

    def step(s, k):
        if adaptive:
            AL = B.pylops.VStack([Op, sk * R])
            x = lsq(Op=AL, data=np.concatenate((d, sk * s.v)), iter_lim=il, z_old=s.v, x0=s.x, kappa=ka, eps=ep, Reg=R)
        else:
            x = B.lsq(Op, R)(d, s.v, 1 / ka, s.x)
        w = soft(B, R.matvec(x), ep / ka)
        err = np.linalg.norm(s.v - w) / np.maximum(1.0, np.linalg.norm(w))
        th = 2 / (1 + np.sqrt(1 + 4 / s.th ** 2))
        return dict(x=x, w=w, v=w + (1 - th) * (w - s.w), th=th, e=err)
    zero = 0 * R.matvec(probe)
    B.machine(lambda cb, n: B.mod('optimization.sr3').SR3(Op, R, d, ka, ep, x0=xs, adaptive=adaptive, iter_lim_outer=n, iter_lim_inner=il), N,
              lambda: dict(x=xs.copy() if x0 else 0 * probe, w=zero.copy(), v=zero.copy(), th=1, e=1.0), step, out=lambda s: s.x, callback=False, prop='P15',
              stop=lambda s, k: s.e < 1e-6)
    B.frames()


@contract('P15', '_lsqr', cfgs=[dict()], ncases=60, weight=3)
def sr3_lsqr(B):
    """Golub-Kahan LSQR from x0, stopped when the soft threshold of Reg x at eps/kappa no longer moves or when x is exact"""
    np = B.np
    n_ = B.dim('n', 1, 5)
    A, R = B.linop('A', B.dim('m', 2, 6), n_), B.linop('R', B.dim('p', 1, 5), n_)
    d, x0, z0 = B.vec('data', 'm', own=False), B.vec('x0', 'n', own=False), B.vec('z0', 'p')
    ka, ep, N = B.scalar('kappa', pos=True), B.scalar('eps', pos=True), B.count('iter_lim', 0, 2)
    d_, x_ = d.copy(), x0.copy()
    r = d_ - A.matvec(x_)
    be0 = np.linalg.norm(r)
    run = lambda n: B.mod('optimization.sr3')._lsqr(A, d, n, z0, x0, ka, ep, R)  # noqa
    if B.cond(be0 == 0):
        B.eq('the starting point is exact', run(N), x_)
        return
    al0 = np.linalg.norm(A.rmatvec(r / be0))
    if B.cond(al0 == 0):
        B.eq('the starting point is a least-squares solution', run(N), x_)
        return

    def init():
        u = r / be0
        v = A.rmatvec(u) / al0
        return dict(x=x_.copy(), u=u, v=v, w=v.copy(), pb=be0, rb=al0, al=al0, z=z0.copy(), e=1.0)

    def step(s, k):
        u = A.matvec(s.v) - s.al * s.u
        be = np.linalg.norm(u)
        if B.cond(be > 0):
            u = u / be
        v = A.rmatvec(u) - be * s.v
        al = np.linalg.norm(v)
        exact = B.cond(al == 0)
        if not exact:
            v = v / al
        rho = np.sqrt(s.rb ** 2 + be ** 2)
        c, sn = s.rb / rho, be / rho
        x = s.x + c * s.pb / rho * s.w
        z = soft(B, R.matvec(x), ep / ka)
        ok = B.cond(np.linalg.norm(z - s.z) < 1e-6 * np.linalg.norm(s.z))
        return dict(x=x, u=u, v=v, w=v - sn * al / rho * s.w, pb=sn * s.pb, rb=-c * al, al=al, z=z, e=0.0 if ok or exact else 1.0)
    B.machine(lambda cb, n: run(n), N, init, step, out=lambda s: s.x, callback=False, prop='P15',
              stop=lambda s, k: s.e < 0.5, inv=lambda s, k: [('not stopped', s.e > 0.5)], tol=1e-5, K=1)
    B.frames()


@contract('P15 P09', 'SR3 _lsqr', num_only=True, ncases=30, cfgs=[dict(adaptive=True), dict(adaptive=False)])
def sr3_solution(B, adaptive):
    """SR3 converges to the minimiser of its documented problem min_x,w 1/2|Op x - data|^2 + eps |w|_1 + kappa/2 |Reg x - w|^2"""
    import numpy as np
    import pylops
    n, m, p = B.dim('n', 1, 5), B.dim('m', 5, 8), B.dim('p', 1, 5)
    r = B.rng
    A, Rg, d = r.normal(size=(m, n)), r.normal(size=(p, n)), r.normal(size=m) * 2
    ka, ep = B.scalar('kappa', pos=True, num=(0.3, 3.0)), B.scalar('eps', pos=True, num=(0.05, 1.0))
    x0 = r.normal(size=n) if r.random() < 0.5 else None
    B.own('data', d)
    if x0 is not None:
        B.own('x0', x0)
    x = B.mod('optimization.sr3').SR3(pylops.MatrixMult(A), pylops.MatrixMult(Rg), d, ka, ep, x0=x0, adaptive=adaptive, iter_lim_outer=2000, iter_lim_inner=50)
    S = lambda v: np.sign(v) * np.maximum(np.abs(v) - ep / ka, 0)  # noqa
    M = np.linalg.inv(A.T @ A + ka * Rg.T @ Rg)
    z = np.zeros(n)
    for _ in range(20000):
        zn = M @ (A.T @ d + ka * Rg.T @ S(Rg @ z))
        if np.linalg.norm(zn - z) < 1e-13:
            break
        z = zn
    F = lambda v: 0.5 * np.sum((A @ v - d) ** 2) + ep * np.sum(np.abs(S(Rg @ v))) + ka / 2 * np.sum((Rg @ v - S(Rg @ v)) ** 2)  # noqa
    B.le('SR3 reaches the minimum of its problem', F(x), F(z) + 1e-4 * (1 + abs(F(z))))
    B.frames()


@contract('P15 P16 P09', 'Segment', num_only=True, ncases=40, cfgs=[dict(nd=1), dict(nd=2), dict(nd=3)])
def segment(B, nd):
    """Segment runs its documented primal-dual iteration: simplex constraint over the classes, isotropic total variation per class with weight
    alpha/2, data term sigma/2 (y - c)^2 (divided by the class sigma), plus z"""
    import numpy as np
    r = B.rng
    dims = tuple(int(B.dim('d%d' % i, 2, 4)) for i in range(nd))
    P, ncl, N = int(np.prod(dims)), int(B.dim('classes', 1, 4)), B.count('niter', 1, 12)
    y, cl = r.normal(size=dims) * 2, np.sort(r.normal(size=ncl) * 2)
    sg, al = B.scalar('sigma', pos=True), B.scalar('alpha', pos=True)
    cs = np.abs(r.normal(size=ncl)) + 0.3 if r.random() < 0.5 else None
    z = r.normal(size=ncl * P) if r.random() < 0.5 else None
    x0 = r.random(size=ncl * P) if r.random() < 0.5 else None
    for nme, v in (('y', y), ('classes', cl), ('clsigmas', cs), ('z', z), ('x0', x0)):
        if v is not None:
            B.own(nme, v)
    g = np.stack([sg / 2 * (y.ravel() - c) ** 2 / (1 if cs is None else cs[i]) for i, c in enumerate(cl)])
    if z is not None:
        g = g + z.reshape(ncl, P)

    def grad(u):
        u = u.reshape(dims)
        out = []
        for a in range(nd):
            q = np.zeros(dims)
            sl = [slice(None)] * nd
            sl[a] = slice(0, -1)
            q[tuple(sl)] = np.diff(u, axis=a)
            out.append(q)
        return np.stack(out).reshape(nd, P)
    E = np.eye(P)
    G = np.stack([grad(E[i]).ravel() for i in range(P)], axis=1)

    def simplex(v):
        # columns onto {sum = 1, >= 0}, by sorting
        out = np.empty_like(v)
        for j in range(v.shape[1]):
            s = np.sort(v[:, j])[::-1]
            c = np.cumsum(s) - 1
            k = np.nonzero(s - c / (np.arange(len(s)) + 1) > 0)[0][-1]
            out[:, j] = np.maximum(v[:, j] - c[k] / (k + 1), 0)
        return out
    x = np.zeros((ncl, P)) if x0 is None else x0.reshape(ncl, P).copy()
    xh, dual = x.copy(), np.zeros((ncl, nd, P))
    calls, its = [], []
    for _ in range(N):
        for i in range(ncl):
            q = dual[i] + (G @ xh[i]).reshape(nd, P) / 8.0
            # projection onto the ball of radius alpha/2, pointwise
            dual[i] = q / np.maximum(1.0, np.linalg.norm(q, axis=0) / (0.5 * al))
        new = simplex(x - np.stack([G.T @ dual[i].ravel() for i in range(ncl)]) - g)
        xh, x = 2 * new - x, new
        its.append(x.ravel().copy())
    kw = {} if z is None else dict(z=z)
    B_show = bool(r.random() < 0.3)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        xs, lab = B.mod('optimization.segmentation').Segment(y, cl, sg, al, clsigmas=cs, niter=N, x0=x0, callback=lambda v: calls.append(np.array(v)), show=B_show,
                                                             kwargs_simplex=dict(engine='numpy'), **kw)
    B.same('one callback per iteration', len(calls), N, 'P16')
    for a, b in zip(calls, its):
        B.eq('iterates', np.ravel(a), b, tol=1e-6)
    B.eq('class weights, one column per class', xs, x.T, tol=1e-6)
    top = np.sort(x.T, axis=1)
    sure = (top[:, -1] - top[:, -2] > 1e-5) if ncl > 1 else np.ones(P, bool)
    B.eq('labels have the shape of the image', list(lab.shape), list(dims))
    B.true('labels are the most likely class', lab.ravel()[sure] == np.argmax(x.T, axis=1)[sure])
    B.frames()
