"""P11 (and P16, P09): proximal-gradient solvers."""
from vf.api import contract


def opt(B):
    return B.mod('optimization.primal')


def measure(B, f, g, x, eps, old):
    """objective and its relative change"""
    J = f(x) + eps * g(x)
    return J, B.np.abs(1.0 - J / old)


@contract('P11 P16 P09', 'ProximalPoint', cfgs=[dict(tol=False), dict(tol=True), dict(tol=False, show=True), dict(tol=True, show=True)])
def proximal_point(B, tol, show=False):
    f, tau, N = B.prox('f'), B.scalar('tau', pos=True), B.count('niter', 0, 9)
    x0 = B.vec('x0')
    eps = B.scalar('tol', nonneg=True, num=(0.0001, 0.3)) if tol else None

    def step(s, k):
        x = f.prox(s.x, tau)
        if not tol:
            return dict(x=x)
        J = f(x)
        return dict(x=x, J=J, d=B.np.abs(1.0 - J / s.J))
    B.machine(lambda cb, n: opt(B).ProximalPoint(f, x0, tau, niter=n, tol=eps, callback=cb, show=show), N,
              (lambda: dict(x=x0.copy(), J=B.np.inf, d=1.0)) if tol else (lambda: dict(x=x0.copy())), step,
              cb=lambda s: (s.x,), out=lambda s: s.x, stop=(lambda s, k: s.d < eps) if tol else None)
    B.frames()


def backtracking_stub(B, modname='optimization.primal'):
    """contract of _backtracking for its callers: a point and a positive step determined by what is handed in"""
    def spec(B, a):
        from vf import stubs
        nm = 'bt[%s,%s]' % (getattr(a['proxf'], 'vf_name', '?'), getattr(a['proxg'], 'vf_name', '?'))
        args = [a['x'], a['tau'], a['epsg'], a['beta'], a['niterback']]
        zv = stubs.uvec(B.C, nm + '.z', args, same=a['x'])
        t = stubs.ureal(B.C, nm + '.tau', args, axioms=lambda k: [k > 0])
        return zv, t

    def ref(x, tau, proxf, proxg, epsg, beta, niterback):
        import numpy as np
        for _ in range(niterback):
            zv = proxg.prox(x - tau * proxf.grad(x), epsg * tau)
            d = zv - x
            if proxf(zv) <= proxf(x) + np.dot(proxf.grad(x), d) + np.dot(d, d) / (2 * tau):
                break
            tau = tau * beta
        return zv, tau
    return B.stub(modname, '_backtracking', spec, ref)


PG = [dict(acc=None), dict(acc='vandenberghe'), dict(acc='fista'), dict(acc=None, eta=True), dict(acc='fista', eta=True, eps='array'),
      dict(acc='vandenberghe', tol=True, eps='array'), dict(acc=None, tol=True, show=True), dict(acc='fista', show=True),
      dict(acc='fista', bt='none'), dict(acc=None, bt='given', eps='array'), dict(acc='vandenberghe', bt='given', eta=True, show=True), dict(acc='None', bt='none', tol=True)]


@contract('P11 P16 P09', 'ProximalGradient', cfgs=PG, ncases=16)
def proximal_gradient(B, acc, eta=False, eps=None, tol=False, show=False, bt=None):
    f, g, N = B.prox('f'), B.prox('g', value='real' if tol else 'any'), B.count('niter', 1, 9)
    np = B.np
    x0 = B.vec('x0')
    tau = B.scalar('tau', pos=True, num=(0.1, 3.0)) if bt != 'none' else None
    et = B.scalar('eta', pos=True) if eta else 1.0
    ep = B.vec('epsg', N, pos=True) if eps == 'array' else B.scalar('epsg', pos=True)
    ek = lambda k: ep[k] if eps == 'array' else ep  # noqa
    tl = B.scalar('tol', nonneg=True, num=(0.0001, 0.3)) if tol else None
    kw = {}
    if bt:
        beta = B.scalar('beta', pos=True, num=(0.2, 0.8))
        nb = B.count('niterback', 1, 20)
        back = backtracking_stub(B)
        kw = dict(beta=beta, niterback=nb)
        if bt == 'given':
            kw['backtracking'] = True

    moving = acc in ('vandenberghe', 'fista')

    def init():
        d = dict(x=x0.copy())
        if moving:
            d['y'] = x0.copy()
        if acc == 'fista':
            d['t'] = 1.0
        if bt:
            d['tau'] = 1.0 if tau is None else tau
        if tol:
            d['J'], d['d'] = np.inf, 1.0
        return d

    def step(s, k):
        d = {}
        sy = s.y if moving else s.x
        if bt:
            p, d['tau'] = back(x=sy, tau=s.tau, proxf=f, proxg=g, epsg=ek(k), beta=beta, niterback=nb)
        else:
            p = g.prox(sy - tau * f.grad(sy), ek(k) * tau)
        x = sy + et * (p - sy) if eta else p
        om = 0
        if acc == 'vandenberghe':
            om = k / (k + 3)
        if acc == 'fista':
            d['t'] = (1 + np.sqrt(1 + 4 * s.t ** 2)) / 2
            om = (s.t - 1) / d['t']
        d['x'] = x
        if moving:
            d['y'] = x + om * (x - s.x)
        if tol:
            d['J'], d['d'] = measure(B, f, g, x, ek(k), s.J)
        return d
    B.machine(lambda cb, n: opt(B).ProximalGradient(f, g, x0, epsg=ep, tau=tau, eta=et, niter=n, acceleration=acc, tol=tl, callback=cb, show=show, **kw), N,
              init, step, cb=lambda s: (s.x,), out=lambda s: s.x, stop=(lambda s, k: s.d < tl) if tol else None,
              inv=(lambda s, k: [('t >= 1', s.t >= 1)]) if acc == 'fista' else None)
    B.frames()


@contract('P11', '_backtracking', cfgs=[dict()])
def backtracking(B):
    """the first step tau beta^j (j < niterback) whose point satisfies the sufficient-decrease inequality, with that point"""
    f, g, N = B.prox('f'), B.prox('g'), B.count('niterback', 1, 14)
    x = B.vec('x')
    tau, ep, beta = B.scalar('tau', pos=True, num=(0.01, 40.0)), B.scalar('epsg', pos=True), B.scalar('beta', pos=True, num=(0.2, 0.8))

    def step(s, k):
        z = g.prox(x - s.tau * f.grad(x), ep * s.tau)
        d = z - x
        ok = f(z) <= f(x) + B.np.dot(f.grad(x), d) + B.np.linalg.norm(d) ** 2 / (2 * s.tau)
        ok = bool(ok)
        return dict(z=z, ok=1.0 if ok else 0.0, tau=s.tau if ok else s.tau * beta)
    B.machine(lambda cb, n: opt(B)._backtracking(x, tau, f, g, ep, beta=beta, niterback=n), N,
              lambda: dict(z=x.copy(), ok=0.0, tau=tau), step, out=lambda s: (s.z, s.tau), stop=lambda s, k: s.ok > 0.5, callback=False, main='while',
              inv=lambda s, k: [('not accepted before', s.ok < 0.5), ('step is positive', s.tau > 0)])
    B.frames()


@contract('P11', '_backtracking complex', num_only=True, ncases=24)
def backtracking_complex(B):
    """bounded: complex models: the inequality with the real inner product Re <grad f(x), z - x>"""
    import numpy as np
    import pylops
    rng = B.rng
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 7))
    cx = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)  # noqa
    A, b, x, sg = cx(m, n), cx(m), cx(n), float(np.exp(rng.uniform(-2, 1)))
    f, g = B.P.L2(pylops.MatrixMult(A, dtype='complex128'), b), B.P.L1(sg)
    ep, beta, tau0 = float(np.exp(rng.uniform(-1, 1))), float(rng.uniform(0.3, 0.8)), float(np.exp(rng.uniform(-2, 3)))
    tau = tau0
    for _ in range(30):
        z = g.prox(x - tau * f.grad(x), ep * tau)
        gap = f(x) + np.real(np.vdot(f.grad(x), z - x)) + np.linalg.norm(z - x) ** 2 / (2 * tau) - f(z)
        if abs(gap) < 1e-9 * (1 + f(x) + f(z)):
            return
        if gap > 0:
            break
        tau *= beta
    zz, tt = B.mod('optimization.primal')._backtracking(x, tau0, f, g, ep, beta=beta, niterback=30)
    B.eq('accepted step for a complex model', tt, tau)
    B.eq('accepted point for a complex model', zz, z)


@contract('P11', 'ProximalGradient GeneralizedProximalGradient', cfgs=[dict()])
def acceleration_names(B):
    f, g = B.prox('f'), B.prox('g')
    x0 = B.vec('x0')
    B.raises('unknown acceleration is refused', NotImplementedError, lambda: opt(B).ProximalGradient(f, g, x0, tau=0.5, niter=3, acceleration='nesterov'))
    B.raises('unknown acceleration is refused (generalized)', NotImplementedError, lambda: opt(B).GeneralizedProximalGradient([f], [g], x0, tau=0.5, niter=3, acceleration='nesterov'))
    B.raises('weights must match in number', ValueError, lambda: opt(B).GeneralizedProximalGradient([f], [g], x0, tau=0.5, niter=3, weights=B.np.ones(2) / 2))
    B.raises('weights must sum to one', ValueError, lambda: opt(B).GeneralizedProximalGradient([f], [g, f], x0, tau=0.5, niter=3, weights=B.np.ones(2)))
    B.frames()


@contract('P11 P16', 'AcceleratedProximalGradient', cfgs=[dict(acc='vandenberghe'), dict(acc='fista'), dict(acc='fista', bt=True)])
def accelerated(B, acc, bt=False):
    f, g, N = B.prox('f'), B.prox('g'), B.count('niter', 1, 8)
    np = B.np
    x0, ep = B.vec('x0'), B.scalar('epsg', pos=True)
    tau = None if bt else B.scalar('tau', pos=True, num=(0.1, 3.0))
    beta, nb = B.scalar('beta', pos=True, num=(0.2, 0.8)), B.count('niterback', 1, 20)
    back = backtracking_stub(B)
    tl = B.scalar('tol', nonneg=True, num=(0.0001, 0.3))

    def step(s, k):
        d = dict(tau=s.tau, t=s.t)
        if bt:
            x, d['tau'] = back(x=s.y, tau=s.tau, proxf=f, proxg=g, epsg=ep, beta=beta, niterback=nb)
        else:
            x = g.prox(s.y - tau * f.grad(s.y), ep * tau)
        if acc == 'fista':
            d['t'] = (1 + np.sqrt(1 + 4 * s.t ** 2)) / 2
            om = (s.t - 1) / d['t']
        else:
            om = k / (k + 3)
        J, m = measure(B, f, g, x, ep, s.J)
        return dict(d, x=x, y=x + om * (x - s.x), J=J, d=m)
    B.machine(lambda cb, n: opt(B).AcceleratedProximalGradient(f, g, x0, tau=tau, beta=beta, epsg=ep, niter=n, niterback=nb, acceleration=acc, tol=tl, callback=cb), N,
              lambda: dict(x=x0.copy(), y=x0.copy(), tau=1.0 if bt else tau, t=1.0, J=np.inf, d=1.0), step, cb=lambda s: (s.x,), out=lambda s: s.x,
              stop=lambda s, k: s.d < tl, inv=lambda s, k: [('t >= 1', s.t >= 1)] if acc == 'fista' else [])
    B.frames()


GP = [dict(nf=nf, ng=ng, acc=a, w=w, eps=e, eta=et, show=s, tau=t) for nf, ng, a, w, e, et, s, t in
      ((1, 1, None, False, 'scalar', False, False, True), (2, 2, 'fista', True, 'array', True, False, True), (1, 2, 'vandenberghe', False, 'array', False, True, False),
       (2, 1, None, True, 'scalar', True, False, True), (1, 3, 'fista', True, 'array', False, False, True), (3, 2, None, False, 'array', True, False, True))]


@contract('P11 P16 P09', 'GeneralizedProximalGradient', cfgs=GP)
def generalized(B, nf, ng, acc, w, eps, eta, show, tau):
    fs, gs = [B.prox('f%d' % i) for i in range(nf)], [B.prox('g%d' % i, value='any') for i in range(ng)]
    N, x0 = B.count('niter', 1, 8), B.vec('x0')
    np = B.np
    t_ = B.scalar('tau', pos=True, num=(0.1, 1.0)) if tau else None
    tv = t_ if tau else 1.0
    et = B.scalar('eta', pos=True) if eta else 1.0
    ep = B.smallvec('epsg', ng, pos=True) if eps == 'array' else B.scalar('epsg', pos=True)
    ek = lambda i: ep[i] if eps == 'array' else ep  # noqa
    if w:
        ws = [1.0 / ng] * ng if ng == 1 else None
        if ws is None:
            raw = B.smallvec('w', ng, pos=True)
            tot = raw[0]
            for i in range(1, ng):
                tot = tot + raw[i]
            ws = [raw[i] / tot for i in range(ng)]
        wv = np.array(ws)
        B.own('weights', wv)
    else:
        ws, wv = [1.0 / ng] * ng, None
    moving = acc is not None
    xof = lambda s: s.x if ng > 1 else s.z[0]  # noqa

    def init():
        d = dict(z=[x0.copy() for _ in range(ng)])
        if ng > 1:
            d['x'] = x0.copy()
        if moving:
            d['y'] = x0.copy()
        if acc == 'fista':
            d['t'] = 1.0
        return d

    def step(s, k):
        sx = xof(s)
        y = s.y if moving else sx
        gr = fs[0].grad(sx)
        for f in fs[1:]:
            gr = gr + f.grad(sx)
        zs, x = [], 0 * sx
        for i, g in enumerate(gs):
            zi = s.z[i] + et * (g.prox(2 * y - s.z[i] - tv * gr, tv * ek(i) / ws[i]) - y)
            zs.append(zi)
            x = x + ws[i] * zi
        d = dict(z=zs)
        if ng > 1:
            d['x'] = x
        om = 0
        if acc == 'vandenberghe':
            om = k / (k + 3)
        if acc == 'fista':
            d['t'] = (1 + np.sqrt(1 + 4 * s.t ** 2)) / 2
            om = (s.t - 1) / d['t']
        if moving:
            d['y'] = x + om * (x - sx)
        return d
    B.machine(lambda cb, n: opt(B).GeneralizedProximalGradient(fs, gs, x0, t_, epsg=ep, weights=wv, eta=et, niter=n, acceleration=acc, callback=cb, show=show), N,
              init, step, cb=lambda s: (xof(s),), out=xof, inv=(lambda s, k: [('t >= 1', s.t >= 1)]) if acc == 'fista' else None)
    B.frames()


AN = [dict(h=1), dict(h=2), dict(h=3, eps='array'), dict(h=2, tol=True), dict(h=2, guard=True, show=True), dict(h=2, guard=True, tol=True), dict(h=3, guard=True, _thorough=True), dict(h=2, show=True, eps="array"), dict(h=5, eps='array', _num=True), dict(h=4, guard=True, _num=True), dict(h=7, tol=True, _num=True)]


@contract('P11 P16 P09', 'AndersonProximalGradient', cfgs=AN, ncases=24, weight=2)
def anderson(B, h, eps=None, tol=False, guard=False, show=False):
    f, g, N = B.prox('f', grad='smooth'), B.prox('g', value='real' if tol else 'any'), B.count('niter', max(1, h - 1), 8)
    np = B.np
    x0 = B.vec('x0', B.dim('n', h + 1, 9))
    tau = B.scalar('tau', pos=True, num=(0.1, 1.0))
    er = B.scalar('epsr', pos=True, num=(1e-10, 1e-6))
    ep = B.vec('epsg', N, pos=True) if eps == 'array' else B.scalar('epsg', pos=True)
    ek = lambda k: ep[k] if eps == 'array' else ep  # noqa
    tl = B.scalar('tol', nonneg=True, num=(0.0001, 0.3)) if tol else None

    def init():
        y = x0 - tau * f.grad(x0)
        x = g.prox(y, ek(0) * tau)
        d = dict(x=x, y=y, R=[y - x0], G=[y.copy()])
        if guard:
            d['pf'] = f(x)
        if tol:
            d['J'], d['d'] = np.inf, 1.0
        return d

    def step(s, k):
        gk = s.x - tau * f.grad(s.x)
        R, G = [gk - s.y] + list(s.R), [gk] + list(s.G)
        R, G = R[:h], G[:h]
        Rs = np.vstack(R)
        if not B.sym:
            B.assume(np.linalg.cond(Rs @ Rs.T) < 1e7)
        w = np.linalg.pinv(Rs @ Rs.T + er * np.linalg.norm(Rs) ** 2) @ np.ones(len(R))
        tot = w[0]
        for i in range(1, len(R)):
            tot = tot + w[i]
        y = w[0] / tot * G[0]
        for i in range(1, len(R)):
            y = y + w[i] / tot * G[i]
        x = g.prox(y, ek(k) * tau)
        d = dict(R=R, G=G)
        if guard:
            d['pf'] = f(x)
            if not d['pf'] <= s.pf - tau * np.linalg.norm(f.grad(s.x)) ** 2 / 2:
                x, y = g.prox(gk, ek(k) * tau), gk
                d['pf'] = f(x)
        d['x'], d['y'] = x, y
        if tol:
            d['J'], d['d'] = measure(B, f, g, x, ek(k), s.J)
        return d
    B.machine(lambda cb, n: opt(B).AndersonProximalGradient(f, g, x0, epsg=ep, tau=tau, niter=n, nhistory=h, epsr=er, safeguard=guard, tol=tl, callback=cb, show=show), N,
              init, step, cb=lambda s: (s.x,), out=lambda s: s.x, stop=(lambda s, k: s.d < tl) if tol else None, p0=max(1, h - 1), K=h + 2, tol=1e-5)
    B.frames()
