"""P12 (and P16, P09): splitting solvers."""
from vf.api import contract

CB = [dict(callback=True), dict(callback=False)]


def opt(B):
    return B.mod('optimization.primal')


@contract('P12 P16 P09', 'ADMM _x0z0_init', cfgs=[dict(gfirst=False, z0='given', cbz=True), dict(gfirst=True, z0='given', cbz=False),
                                                  dict(gfirst=False, z0=None, cbz=False), dict(gfirst=True, z0=None, cbz=True, show=True),
                                                  dict(gfirst=True, z0='only', cbz=True)])
def admm(B, gfirst, z0, cbz, show=False):
    f, g, tau, N = B.prox('f', value='any'), B.prox('g', value='any'), B.scalar('tau', pos=True), B.count('niter', 0, 8)
    x0 = B.vec('x0') if z0 != 'only' else None
    zz = B.vec('z0') if z0 else None

    def init():
        a = x0 if x0 is not None else zz
        b = zz if zz is not None else x0
        return dict(x=a.copy(), z=b.copy(), u=0 * a)

    def step(s, k):
        if gfirst:
            z = g.prox(s.x + s.u, tau)
            x = f.prox(z - s.u, tau)
        else:
            x = f.prox(s.z - s.u, tau)
            z = g.prox(x + s.u, tau)
        return dict(x=x, z=z, u=s.u + x - z)
    B.machine(lambda cb, n: opt(B).ADMM(f, g, x0, tau, niter=n, z0=zz, gfirst=gfirst, callback=cb, callbackz=cbz, show=show), N, init, step,
              cb=lambda s: (s.x, s.z) if cbz else (s.x,), out=lambda s: (s.x, s.z))
    B.frames()


@contract('P12 P16 P09', 'HQS _x0z0_init', cfgs=[dict(gfirst=g, z0=z, cbz=c, taus=t, show=s) for g, z, c, t, s in
                                                 ((True, True, True, 'scalar', False), (False, True, False, 'array', False), (True, False, True, 'array', False), (False, False, False, 'scalar', True))])
def hqs(B, gfirst, z0, cbz, taus, show):
    f, g, N = B.prox('f', value='any'), B.prox('g', value='any'), B.count('niter', 2, 8)
    x0 = B.vec('x0')
    zz = B.vec('z0') if z0 else None
    tau = B.scalar('tau', pos=True) if taus == 'scalar' else B.vec('tau', N, pos=True)

    def init():
        return dict(x=x0.copy(), z=zz.copy() if z0 else x0.copy())

    def step(s, k):
        t = tau if taus == 'scalar' else tau[k]
        if gfirst:
            z = g.prox(s.x, t)
            x = f.prox(z, t)
        else:
            x = f.prox(s.z, t)
            z = g.prox(x, t)
        return dict(x=x, z=z)
    B.machine(lambda cb, n: opt(B).HQS(f, g, x0, tau, niter=n, z0=zz, gfirst=gfirst, callback=cb, callbackz=cbz, show=show), N, init, step,
              cb=lambda s: (s.x, s.z) if cbz else (s.x,), out=lambda s: (s.x, s.z))
    B.frames()


@contract('P12 P16 P09', 'DouglasRachfordSplitting', cfgs=[dict(gfirst=True, cby=True), dict(gfirst=False, cby=True), dict(gfirst=True, cby=False, show=True), dict(gfirst=False, cby=False)])
def douglas_rachford(B, gfirst, cby, show=False):
    f, g, tau, eta, N = B.prox('f', value='any'), B.prox('g', value='any'), B.scalar('tau', pos=True), B.scalar('eta', pos=True), B.count('niter', 1, 8)
    x0 = B.vec('x0')
    a, b = (g, f) if gfirst else (f, g)

    def step(s, k):
        x = a.prox(s.y, tau)
        return dict(x=x, y=s.y + eta * (b.prox(2 * x - s.y, tau) - x))
    B.machine(lambda cb, n: opt(B).DouglasRachfordSplitting(f, g, x0, tau, eta=eta, niter=n, gfirst=gfirst, callback=cb, callbacky=cby, show=show), N,
              lambda: dict(x=x0.copy(), y=x0.copy()), step, cb=lambda s: (s.x, s.y) if cby else (s.x,), out=lambda s: (s.x, s.y))
    B.frames()


@contract('P12 P16 P09', 'LinearizedADMM _x0z0_init', cfgs=[dict(z0=True), dict(z0=False), dict(z0=False, show=True), dict(z0=True, ident=True), dict(z0=False, ident=True)])
def linearized_admm(B, z0, show=False, ident=False):
    f, g, tau, mu, N = B.prox('f', value='any'), B.prox('g', value='any'), B.scalar('tau', pos=True), B.scalar('mu', pos=True), B.count('niter', 0, 8)
    A = B.linop('A', identity=ident)
    x0 = B.vec('x0', 'n')
    zz = B.vec('z0', 'n' if ident else 'm') if z0 else None

    def init():
        z = zz.copy() if z0 else A.matvec(x0).copy()
        return dict(x=x0.copy(), z=z, u=0 * z)

    def step(s, k):
        x = f.prox(s.x - mu / tau * A.rmatvec(A.matvec(s.x) - s.z + s.u), mu)
        Ax = A.matvec(x)
        z = g.prox(Ax + s.u, tau)
        return dict(x=x, z=z, u=s.u + Ax - z)
    B.machine(lambda cb, n: opt(B).LinearizedADMM(f, g, A, x0, tau, mu, niter=n, z0=zz, callback=cb, show=show), N, init, step,
              cb=lambda s: (s.x,), out=lambda s: (s.x, s.z), aux=lambda s: dict(Ax=A.matvec(s.x)))
    B.frames()


@contract('P12 P16 P09', 'ADMML2 _x0z0_init', cfgs=[dict(gfirst=False, z0=True), dict(gfirst=True, z0=True), dict(gfirst=False, z0=False), dict(gfirst=True, z0=False, show=True)])
def admml2(B, gfirst, z0, show=False):
    """the inner least squares problem is solved exactly (symbolic) or by lsqr to its tolerance (concrete)"""
    g, tau, N = B.prox('g', value='any'), B.scalar('tau', pos=True), B.count('niter', 0, 6)
    Op = B.linop('Op', 'k', 'n')
    A = B.linop('A', 'm', 'n')
    x0, b = B.vec('x0', 'n'), B.vec('b', 'k')
    zz = B.vec('z0', 'm') if z0 else None
    kw = {} if B.sym else dict(iter_lim=400, atol=1e-14, btol=1e-14)
    if not B.sym:
        import numpy as np
        M = np.vstack([B.inputs['Op'], B.inputs['A']])
        if np.linalg.matrix_rank(M) < M.shape[1] or np.linalg.cond(M) > 1e3:
            return
    ls = B.lsq(Op, A)

    def init():
        z = zz.copy() if z0 else A.matvec(x0).copy()
        return dict(x=x0.copy(), z=z, u=0 * z)

    def step(s, k):
        if gfirst:
            z = g.prox(A.matvec(s.x) + s.u, tau)
            x = ls(b, z - s.u, tau, s.x)
            Ax = A.matvec(x)
        else:
            x = ls(b, s.z - s.u, tau, s.x)
            Ax = A.matvec(x)
            z = g.prox(Ax + s.u, tau)
        return dict(x=x, z=z, u=s.u + Ax - z)
    B.machine(lambda cb, n: opt(B).ADMML2(g, Op, b, A, x0, tau, niter=n, z0=zz, gfirst=gfirst, callback=cb, show=show, **kw), N, init, step,
              cb=lambda s: (s.x,), out=lambda s: (s.x, s.z), aux=lambda s: dict(Ax=A.matvec(s.x)), tol=1e-5)
    B.frames()


@contract('P12', 'ADMML2', cfgs=[dict(gfirst=b) for b in (False, True)])
def admml2_starts(B, gfirst):
    """the least squares problem of every iteration is started from the last iterate, with the options given for it"""
    g, tau = B.prox('g', value='any'), B.scalar('tau', pos=True)
    Op, A = B.linop('Op', 'k', 'n'), B.linop('A', 'm', 'n')
    x0, b = B.vec('x0', 'n'), B.vec('b', 'k')
    if not B.sym:
        import numpy as np
        if np.linalg.matrix_rank(np.vstack([B.inputs['Op'], B.inputs['A']])) < x0.size:
            return
    log, xs = B.solver_log(), [x0.copy()]
    opt(B).ADMML2(g, Op, b, A, x0, tau, niter=3, gfirst=gfirst, callback=lambda x: xs.append(x.copy()), iter_lim=7)
    B.same('one solve per iteration', len(log), 3)
    B.same('one callback per iteration', len(xs), 4)
    for i in range(3):
        B.eq('start of solve %d' % i, log[i]['x0'], xs[i])
        B.same('iterations of solve %d' % i, log[i]['niter'], 7)


@contract('P12 P16', 'ADMM HQS LinearizedADMM ADMML2 _x0z0_init', num_only=True, ncases=24, cfgs=[dict(solver=s) for s in ('ADMM', 'HQS', 'LinearizedADMM', 'ADMML2')])
def start_dtypes(B, solver):
    """both starting points count, whatever their types"""
    import numpy as np
    f, g, tau, N = B.prox('f'), B.prox('g'), B.scalar('tau', lo=0.3, hi=2.0), B.count('niter', 1, 5)
    n = B.dim('n')
    dt = [np.float64, np.float32, np.int64, np.complex128]
    a, b = dt[B.seed_mod(4)], dt[(B.seed // 4) % 4]
    x0, z0 = np.round(B.rng.normal(size=n) * 3).astype(a), np.round(B.rng.normal(size=n) * 3).astype(b)
    B.own('x0', x0)
    B.own('z0', z0)
    gf = bool(B.rng.integers(2))
    A = B.linop('A', n, n)
    bb = B.vec('b')

    def run(x0, z0):
        if solver == 'ADMM':
            return opt(B).ADMM(f, g, x0, tau, niter=N, z0=z0, gfirst=gf)
        if solver == 'HQS':
            return opt(B).HQS(f, g, x0, tau, niter=N, z0=z0, gfirst=gf)
        if solver == 'LinearizedADMM':
            return opt(B).LinearizedADMM(f, g, A, x0, tau, 0.5 * tau, niter=N, z0=z0)
        return opt(B).ADMML2(g, A, bb, B.pylops.Identity(n), x0, tau, niter=N, z0=z0, gfirst=gf, iter_lim=200)
    if solver == 'ADMML2' and np.complex128 in (a, b):
        return
    wide = complex if np.complex128 in (a, b) else float
    B.eq('iterates from the given points', list(run(x0, z0)), list(run(x0.astype(wide), z0.astype(wide))), tol=1e-4 if np.float32 in (a, b) or solver == 'ADMML2' else 1e-7)
    B.frames()


def weights(B, w, m):
    np = B.np
    if w is None:
        return None, [1.0 / m] * m
    v = B.smallvec('w', m, pos=True)
    return v, [v[i] for i in range(m)]


@contract('P12 P16 P09', 'PPXA', cfgs=[dict(m=m, w=w, start=s, tol=t, show=sh) for m, w, s, t, sh in
                                       ((1, None, 'one', True, False), (2, None, 'one', True, True), (2, 'given', 'rows', False, False), (3, 'given', 'one', True, False), (3, None, 'list', False, False))])
def ppxa(B, m, w, start, tol, show):
    fs = [B.prox('f%d' % i, value='any') for i in range(m)]
    tau, eta, N = B.scalar('tau', pos=True), B.scalar('eta', pos=True), B.count('niter', 0, 8)
    eps = B.scalar('tol', nonneg=True, num=(0.001, 0.5)) if tol else None
    wv, ws = weights(B, w, m)
    np = B.np
    if start == 'one':
        x0 = B.vec('x0')
        y0 = lambda: [x0.copy() for _ in range(m)]  # noqa
    elif start == 'rows':
        x0 = B.vec('x0', blocks=['n'] * m, rows=True)
        y0 = lambda: [x0[i].copy() for i in range(m)]  # noqa
    else:
        x0 = [B.vec('x0_%d' % i) for i in range(m)]
        y0 = lambda: [v.copy() for v in x0]  # noqa

    def mean(vs):
        t = ws[0] * vs[0]
        for a, v in zip(ws[1:], vs[1:]):
            t = t + a * v
        return t

    def init():
        y = y0()
        return dict(x=mean(y), y=np.stack(y), d=1.0)

    def step(s, k):
        p = [fs[i].prox(s.y[i], tau / ws[i]) for i in range(m)]
        pn = mean(p)
        y = [s.y[i] + eta * (2 * pn - s.x - p[i]) for i in range(m)]
        x = s.x + eta * (pn - s.x)
        return dict(x=x, y=np.stack(y), d=np.max(np.abs(x - s.x)))
    B.machine(lambda cb, n: opt(B).PPXA(fs, x0, tau, eta=eta, weights=wv, niter=n, tol=eps, callback=cb, show=show), N, init, step,
              cb=lambda s: (s.x,), out=lambda s: s.x, stop=(lambda s, k: s.d < eps) if tol else None)
    B.frames()


@contract('P12 P16 P09', 'ConsensusADMM', cfgs=[dict(m=1, tol=True, show=False), dict(m=2, tol=True, show=True), dict(m=3, tol=False, show=False)])
def consensus_admm(B, m, tol, show):
    fs = [B.prox('f%d' % i, value='any') for i in range(m)]
    tau, N = B.scalar('tau', pos=True), B.count('niter', 0, 8)
    eps = B.scalar('tol', nonneg=True, num=(0.001, 0.5)) if tol else None
    np = B.np
    x0 = B.vec('x0')

    def step(s, k):
        x = [fs[i].prox(s.x - s.y[i], tau) for i in range(m)]
        xb = x[0]
        for v in x[1:]:
            xb = xb + v
        xb = xb / m
        return dict(x=xb, y=np.stack([s.y[i] + x[i] - xb for i in range(m)]), d=np.max(np.abs(xb - s.x)))
    B.machine(lambda cb, n: opt(B).ConsensusADMM(fs, x0, tau, niter=n, tol=eps, callback=cb, show=show), N,
              lambda: dict(x=x0.copy(), y=np.stack([0 * x0 for _ in range(m)]), d=1.0), step,
              cb=lambda s: (s.x,), out=lambda s: s.x, stop=(lambda s, k: s.d < eps) if tol else None)
    B.frames()


@contract('P12 P16 P09', 'TwIST', cfgs=[dict(par='given', cost=False), dict(par='eigs', cost=False, show=True), dict(par='given', cost=True)])
def twist(B, par, cost, show=False):
    g, N = B.prox('g'), B.count('niter', 0, 8)
    A = B.linop('A')
    x0, b = B.vec('x0', 'n'), B.vec('b', 'm')
    if par == 'given':
        al, be = B.scalar('alpha', pos=True), B.scalar('beta', pos=True)
        kw = dict(alpha=al, beta=be)
    else:
        emin, d = B.scalar('emin', pos=True), B.scalar('spread', pos=True)
        emax = emin + d
        kw = dict(eigs=(emax, emin))
        k_ = emin / emax
        rho = (1 - B.np.sqrt(k_)) / (1 + B.np.sqrt(k_))
        al = 1 + rho ** 2
        be = 2 * al / (emax + emin)
    grad = lambda x: A.rmatvec(A.matvec(x) - b)  # noqa

    def init():
        d = dict(xold=x0.copy(), x=g.prox(x0 - grad(x0), 1.0))
        if cost:
            d['j'] = B.np.zeros(N)
        return d

    def step(s, k):
        x = (1 - al) * s.xold + (al - be) * s.x + be * g.prox(s.x - grad(s.x), 1.0)
        d = dict(xold=s.x, x=x)
        if cost:
            r = A.matvec(x) - b
            d['j'] = s.j.copy()
            d['j'][k] = 0.5 * B.np.linalg.norm(r) ** 2 + g(x)
        return d
    B.machine(lambda cb, n: opt(B).TwIST(g, A, b, x0, niter=n, callback=cb, returncost=cost, show=show, **kw), N, init, step,
              cb=lambda s: (s.x,), out=lambda s: (s.x, s.j) if cost else s.x)
    B.frames()
