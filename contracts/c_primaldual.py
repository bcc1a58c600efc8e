"""P13 (and P16, P09): primal-dual solvers."""
from vf.api import contract


def opt(B):
    return B.mod('optimization.primaldual')


PD = [dict(gfirst=a, steps=b, z=c, y0=d, ret=e, cby=f, ident=i, show=h) for a, b, c, d, e, f, i, h in (
    (True, 'scalar', False, False, False, False, False, False), (False, 'scalar', False, False, True, True, False, False),
    (True, 'array', True, True, True, True, False, False), (False, 'array', True, True, False, False, False, False),
    (True, 'scalar', True, True, True, True, True, False), (False, 'scalar', True, False, True, False, True, False),
    (True, 'tau array', False, True, True, False, False, True), (False, 'mu array', True, False, True, True, False, True))]


@contract('P13 P16 P09', 'PrimalDual', cfgs=PD)
def primal_dual(B, gfirst, steps, z, y0, ret, cby, ident, show):
    f, g, N = B.prox('f', value='any'), B.prox('g', value='any'), B.count('niter', 1 if show else 0, 8)
    A = B.linop('A', identity=ident)
    m = 'n' if ident else 'm'
    x0 = B.vec('x0', 'n')
    yy = B.vec('y0', m) if y0 else None
    zz = B.vec('z', 'n') if z else None
    th = B.scalar('theta', nonneg=True)
    tau = B.vec('tau', N, pos=True) if steps in ('array', 'tau array') else B.scalar('tau', pos=True)
    mu = B.vec('mu', N, pos=True) if steps in ('array', 'mu array') else B.scalar('mu', pos=True)
    tk = lambda k: tau[k] if steps in ('array', 'tau array') else tau  # noqa
    mk = lambda k: mu[k] if steps in ('array', 'mu array') else mu  # noqa

    def init():
        y = yy.copy() if y0 else 0 * A.matvec(x0)
        return dict(x=x0.copy(), y=y, xh=x0.copy()) if gfirst else dict(x=x0.copy(), y=y)

    def step(s, k):
        def primal(y):
            d = A.rmatvec(y)
            if z:
                d = d + zz
            x = f.prox(s.x - tk(k) * d, tk(k))
            return x, x + th * (x - s.x)
        if gfirst:
            y = g.proxdual(s.y + mk(k) * A.matvec(s.xh), mk(k))
            x, xh = primal(y)
            return dict(x=x, y=y, xh=xh)
        x, xh = primal(s.y)
        return dict(x=x, y=g.proxdual(s.y + mk(k) * A.matvec(xh), mk(k)))
    B.machine(lambda cb, n: opt(B).PrimalDual(f, g, A, x0, tau, mu, y0=yy, z=zz, theta=th, niter=n, gfirst=gfirst, callback=cb, callbacky=cby, returny=ret, show=show), N,
              init, step, cb=lambda s: (s.x, s.y) if cby else (s.x,), out=lambda s: (s.x, s.y) if ret else s.x)
    B.frames()


@contract('P13 P16 P09', 'AdaptivePrimalDual', cfgs=[dict(z=False), dict(z=True), dict(z=True, ident=True), dict(z=False, show=True)], ncases=40, weight=2)
def adaptive_primal_dual(B, z, ident=False, show=False):
    f, g, N = B.prox('f', value='any'), B.prox('g', value='any'), B.count('niter', 0, 9)
    np = B.np
    A = B.linop('A', identity=ident)
    x0 = B.vec('x0', 'n')
    zz = B.vec('z', 'n') if z else None
    tau, mu = B.scalar('tau', pos=True, num=(0.05, 20.0)), B.scalar('mu', pos=True, num=(0.05, 20.0))
    al, et = B.scalar('alpha', pos=True, num=(0.1, 0.9)), B.scalar('eta', pos=True, num=(0.1, 0.99))
    sc, de, tl = B.scalar('s', pos=True, num=(0.2, 3.0)), B.scalar('delta', pos=True, num=(1.05, 3.0)), B.scalar('tol', nonneg=True, num=(1e-6, 0.5))

    B.assume([al < 1, et < 1, de > 1])

    def init():
        y = 0 * A.matvec(x0)
        d = dict(x=x0.copy(), y=y, tau=tau, mu=mu, al=al, p=tl + 1, d=tl + 1, k=0.0)
        for nm, v in (('taus', tau), ('mus', mu), ('als', al)):
            a = np.zeros(N + 1)
            a[0] = v
            d[nm] = a
        return d

    def step(s, k):
        c = A.rmatvec(s.y)
        x = f.prox(s.x - s.tau * (c + zz if z else c), s.tau)
        Ax = A.matvec(x)
        Axo = A.matvec(s.x)
        y = g.proxdual(s.y + s.mu * (2 * Ax - Axo), s.mu)
        p = np.linalg.norm((s.x - x) / s.tau - (c - A.rmatvec(y)))
        d = np.linalg.norm((s.y - y) / s.mu - (Axo - Ax))
        t, m, a = s.tau, s.mu, s.al
        if p > sc * d * de:
            t, m, a = t / (1 - a), m * (1 - a), a * et
        elif p < sc * d / de:
            t, m, a = t * (1 - a), m / (1 - a), a * et
        r = dict(x=x, y=y, tau=t, mu=m, al=a, p=p, d=d, k=s.k + 1)
        for nm, v in (('taus', t), ('mus', m), ('als', a)):
            q = getattr(s, nm).copy()
            q[k + 1] = v
            r[nm] = q
        return r

    def out(s):
        n = s.k + 1
        n = int(n) if not B.sym else n
        return s.x, (s.taus[:n], s.mus[:n], s.als[:n])
    B.machine(lambda cb, n: opt(B).AdaptivePrimalDual(f, g, A, x0, tau, mu, alpha=al, eta=et, s=sc, delta=de, z=zz, niter=n, tol=tl, callback=cb, show=show), N,
              init, step, cb=lambda s: (s.x,), out=out, main='while', K=2, stop=lambda s, k: B.any(s.p <= tl, s.d <= tl),
              aux=lambda s: dict(Ax=A.matvec(s.x), ATy=A.rmatvec(s.y)),
              inv=lambda s, k: [('tau > 0', s.tau > 0), ('mu > 0', s.mu > 0), ('0 < alpha < 1', B.both(s.al > 0, s.al < 1)), ('count', s.k == k)])
    B.frames()
