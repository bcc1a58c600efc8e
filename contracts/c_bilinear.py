"""P14 (and P16, P09): alternating bilinear solvers and bilinear operators."""
from vf.api import contract


def opt(B):
    return B.mod('optimization.palm')


def nm(p):
    return 'none' if p is None else getattr(p, 'vf_name', '?')


def backtracking_stub(B):
    """contract of palm._backtracking for its callers"""
    def spec(B, a):
        from vf import stubs
        ix, H = a['ix'], a['H']
        held = a.get('held', (H.x, H.y)[1 - ix] if ix in (0, 1) else None)
        n = 'pbt%d[%s]' % (ix, nm(a['proxf']))
        args = [a['x'][0], a['x'][1], held, a['tau'], a['beta'], a['niterback']]
        zv = stubs.uvec(B.C, n + '.z', args, same=a['x'][ix])
        return zv, stubs.ureal(B.C, n + '.tau', args, axioms=lambda k: [k > 0])

    def ref(x, tau, H, proxf, ix, beta, niterback, held):
        import numpy as np
        u = x[ix]
        gr = H.gx(u, held) if ix == 0 else H.gy(held, u)
        for _ in range(niterback):
            w = u - tau * gr
            if proxf is not None:
                w = proxf.prox(w, tau)
            d = w - u
            new = H.val(w, x[1]) if ix == 0 else H.val(x[0], w)
            if new <= H.val(x[0], x[1]) + np.dot(gr, d) + np.dot(d, d) / (2 * tau) or tau < 1e-12:
                break
            tau = tau * beta
        return w, tau
    return B.stub('optimization.palm', '_backtracking', spec, ref)


CF = [dict(inertia=i, gf=a, gg=b, pf=c, pg=d, show=s) for i, a, b, c, d, s in (
    (False, True, True, True, True, False), (False, False, True, True, True, False), (False, True, False, True, True, False), (False, False, False, False, True, False), (False, True, True, False, False, False),
    (False, False, False, True, True, True),
    (True, True, True, True, True, False), (True, False, True, True, True, False), (True, True, False, False, True, False), (True, False, False, True, False, False), (True, True, True, False, False, False),
    (True, False, False, True, True, True))]


@contract('P14 P16 P09', 'PALM iPALM', cfgs=CF)
def palm(B, inertia, gf, gg, pf, pg, show):
    """gf, gg: fixed steps gamma * Lipschitz constant (else backtracked); pf, pg: with a proximal operator (else a plain gradient step)"""
    H = B.bilinear('H')
    N = B.count('niter', 1 if show else 0, 7)
    x0, y0 = B.vec('x0', H.nx), B.vec('y0', H.ny)
    H.updatex(B.np.ones_like(x0) * 7.0)
    H.updatey(B.np.ones_like(y0) * 5.0)
    f, g = (B.prox('f', value='any') if pf else None), (B.prox('g', value='any') if pg else None)
    gaf, gag = B.scalar('gammaf', pos=True, num=(0.6, 3.0)) if gf else None, B.scalar('gammag', pos=True, num=(0.6, 3.0)) if gg else None
    kw = {}
    back = beta = nb = None
    if not (gf and gg):
        back = backtracking_stub(B)
        beta, nb = B.scalar('beta', pos=True, num=(0.2, 0.8)), B.count('niterback', 1, 30)
        kw = dict(beta=beta, niterback=nb)
    a = (B.scalar('a0', nonneg=True, num=(0.0, 0.9)), B.scalar('a1', nonneg=True, num=(0.0, 0.9))) if inertia else (0, 0)
    if inertia:
        kw['a'] = a
    solver = opt(B).iPALM if inertia else opt(B).PALM

    def init():
        d = dict(x=x0.copy(), y=y0.copy())
        if inertia:
            d.update(xo=x0.copy(), yo=y0.copy())
        if not gf:
            d['tf'] = 1.0
        if not gg:
            d['tg'] = 1.0
        return d

    def step(s, k):
        d = {}
        u = s.x + a[0] * (s.x - s.xo) if inertia else s.x
        if gf:
            c = gaf * H.ly(s.y)
            x = u - H.gx(u, s.y) / c
            if pf:
                x = f.prox(x, 1 / c)
        else:
            x, d['tf'] = back(x=[u, s.y], tau=s.tf, H=H, proxf=f, ix=0, beta=beta, niterback=nb, held=s.y)
        v = s.y + a[1] * (s.y - s.yo) if inertia else s.y
        if gg:
            c = gag * H.lx(x)
            y = v - H.gy(x, v) / c
            if pg:
                y = g.prox(y, 1 / c)
        else:
            y, d['tg'] = back(x=[x, v], tau=s.tg, H=H, proxf=g, ix=1, beta=beta, niterback=nb, held=x)
        if inertia:
            d.update(xo=s.x.copy(), yo=s.y.copy())
        return dict(d, x=x, y=y)
    B.machine(lambda cb, n: solver(H, f, g, x0, y0, gammaf=gaf, gammag=gag, niter=n, callback=cb, show=show, **kw), N, init, step,
              cb=lambda s: (s.x, s.y), out=lambda s: (s.x, s.y), cells=[(H, 'x'), (H, 'y')], tol=1e-5)
    B.frames()


@contract('P14', '_backtracking', cfgs=[dict(ix=0, p=True), dict(ix=1, p=True), dict(ix=0, p=False), dict(ix=1, p=False)])
def palm_backtracking(B, ix, p):
    """the first step tau beta^j whose point satisfies the sufficient-decrease inequality of H in that block (or tau below 1e-12)"""
    H = B.bilinear('H')
    N = B.count('niterback', 1, 14)
    x, y = B.vec('x', H.nx), B.vec('y', H.ny)
    H.updatex(B.vec('xh', H.nx))
    H.updatey(B.vec('yh', H.ny))
    hx, hy = H.x, H.y
    f = B.prox('f') if p else None
    tau, beta = B.scalar('tau', pos=True, num=(0.01, 10.0)), B.scalar('beta', pos=True, num=(0.2, 0.8))
    u = (x, y)[ix]
    gr = H.gx(x, hy) if ix == 0 else H.gy(hx, y)

    def step(s, k):
        w = u - s.tau * gr
        if p:
            w = f.prox(w, s.tau)
        d = w - u
        new = H.val(w, y) if ix == 0 else H.val(x, w)
        ok = bool(B.any(new <= H.val(x, y) + B.np.dot(gr, d) + B.np.linalg.norm(d) ** 2 / (2 * s.tau), s.tau < 1e-12))
        return dict(z=w, ok=1.0 if ok else 0.0, tau=s.tau if ok else s.tau * beta)
    B.machine(lambda cb, n: opt(B)._backtracking([x, y], tau, H, f, ix, beta=beta, niterback=n), N,
              lambda: dict(z=u.copy(), ok=0.0, tau=tau), step, out=lambda s: (s.z, s.tau), stop=lambda s, k: s.ok > 0.5, callback=False, main='while', K=2,
              inv=lambda s, k: [('not accepted before', s.ok < 0.5), ('step is positive', s.tau > 0)])
    B.frames()


@contract('P14', '_backtracking complex', num_only=True, ncases=24)
def palm_backtracking_complex(B):
    """bounded: complex factors: the inequality with the real inner product Re <grad H, z - x>"""
    import numpy as np
    rng = B.rng
    n, k, m = (int(i) for i in rng.integers(1, 4, size=3))
    cx = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)  # noqa
    X, Y, d = cx(n, k), cx(k, m), cx(n * m)
    H = B.mod('utils.bilinear').LowRankFactorizedMatrix(X, Y, d)
    x, y, f = X.ravel(), Y.ravel(), B.P.L1(0.3)
    ix, beta, tau0 = int(rng.integers(0, 2)), float(rng.uniform(0.3, 0.8)), float(np.exp(rng.uniform(-2, 3)))
    R = (X @ Y - d.reshape(n, m))
    val = lambda a, b: 0.5 * np.linalg.norm(a.reshape(n, k) @ b.reshape(k, m) - d.reshape(n, m)) ** 2  # noqa
    u, gr = (x, y)[ix], ((R @ Y.conj().T) if ix == 0 else (X.conj().T @ R)).ravel()
    tau = tau0
    for _ in range(30):
        w = f.prox(u - tau * gr, tau)
        h0, h1 = val(x, y), (val(w, y) if ix == 0 else val(x, w))
        gap = h0 + np.real(np.vdot(gr, w - u)) + np.linalg.norm(w - u) ** 2 / (2 * tau) - h1
        if abs(gap) < 1e-9 * (1 + h0 + h1):
            return
        if gap > 0:
            break
        tau *= beta
    zz, tt = B.mod('optimization.palm')._backtracking([x, y], tau0, H, f, ix, beta=beta, niterback=30)
    B.eq('accepted step for complex factors', tt, tau)
    B.eq('accepted point for complex factors', zz, w)


@contract('P14 P08 P09', 'LowRankFactorizedMatrix.__init__ LowRankFactorizedMatrix.__call__ LowRankFactorizedMatrix._matvecx LowRankFactorizedMatrix._matvecy LowRankFactorizedMatrix.matvec '
          'LowRankFactorizedMatrix.lx LowRankFactorizedMatrix.ly LowRankFactorizedMatrix.gradx LowRankFactorizedMatrix.grady LowRankFactorizedMatrix.grad BilinearOperator.updatexy',
          num_only=True, ncases=100, cfgs=[dict(op=False, cx=False), dict(op=True, cx=False), dict(op=False, cx=True), dict(op=True, cx=True)])
def low_rank(B, op, cx):
    import numpy as np
    import pylops
    r = B.rng
    n, k, m = B.dim('n', 1, 5), B.dim('k', 1, 4), B.dim('m', 1, 5)

    def rnd(*s):
        v = r.normal(size=s) * float(r.choice([0.1, 1.0, 1.0, 5.0]))
        if cx and r.random() < 0.75:
            # otherwise a real block among complex ones
            v = v + 1j * r.normal(size=s)
        return np.zeros_like(v) if r.random() < 0.08 else v
    X, Y = rnd(n, k), rnd(k, m)
    p = B.dim('p', 1, 8) if op else n * m
    M = rnd(p, n * m) if op else np.eye(n * m)
    d = rnd(p)
    H = B.mod('utils.bilinear').LowRankFactorizedMatrix(X, Y, d, pylops.MatrixMult(M, dtype=M.dtype) if op else None)
    for nme, v in (('X', X), ('Y', Y), ('d', d)):
        B.own(nme, v)
    val = lambda x, y: 0.5 * np.sum(np.abs(M @ (x.reshape(n, k) @ y.reshape(k, m)).ravel() - d) ** 2)  # noqa
    x, y = rnd(n * k), rnd(k * m)
    if r.random() < 0.1:
        x, y = X.ravel().copy(), Y.ravel().copy()
    B.own('x', x)
    B.own('y', y)
    xs, ys = X, Y
    for rounds in range(2):
        B.eq('value is half the squared residual', H(x, y), val(x, y))
        B.eq('value at concatenated blocks', H(np.concatenate([x, y])), val(x, y))
        B.eq('evaluating keeps the held x', np.ravel(H.x), np.ravel(xs))
        B.eq('evaluating keeps the held y', np.ravel(H.y), np.ravel(ys))
        B.eq('applies to x with the held y', H._matvecx(x), M @ (x.reshape(n, k) @ ys.reshape(k, m)).ravel())
        B.eq('applies to y with the held x', H._matvecy(y), M @ (xs.reshape(n, k) @ y.reshape(k, m)).ravel())
        gx, gy = H.gradx(x), H.grady(y)
        for _ in range(2):
            h = rnd(n * k)
            B.eq('gradx is the partial gradient at the held y', np.real(np.vdot(gx, h)), 0.5 * (val(x + h, ys) - val(x - h, ys)))
            h = rnd(k * m)
            B.eq('grady is the partial gradient at the held x', np.real(np.vdot(gy, h)), 0.5 * (val(xs, y + h) - val(xs, y - h)))
        B.eq('grad stacks both', H.grad(np.concatenate([x, y])), np.concatenate([gx, gy]))
        B.eq('gradients keep the held x', np.ravel(H.x), np.ravel(xs))
        B.eq('gradients keep the held y', np.ravel(H.y), np.ravel(ys))
        if n == m:
            B.raises('ambiguous matvec is refused', NotImplementedError, lambda: H.matvec(x))
        else:
            B.eq('matvec of x', H.matvec(x), H._matvecx(x)) if n * k != k * m else None
            B.eq('matvec of y', H.matvec(y), H._matvecy(y)) if n * k != k * m else None
        if op:
            B.raises('no Lipschitz constant with an operator', ValueError, lambda: H.lx(x))
            B.raises('no Lipschitz constant with an operator', ValueError, lambda: H.ly(y))
        else:
            Xm, Ym = x.reshape(n, k), y.reshape(k, m)
            for nme, c, G in (('lx', H.lx(x), np.conj(Xm).T @ Xm), ('ly', H.ly(y), Ym @ np.conj(Ym).T)):
                B.le(nme + ' bounds the Lipschitz constant of the block gradient', np.linalg.norm(G, 2), c)
                B.le(nme + ' is at most the Frobenius norm', c, np.linalg.norm(G))
        if rounds == 0:
            xs, ys = rnd(n * k), rnd(k * m)
            if r.random() < 0.5:
                H.updatex(xs)
                H.updatey(ys)
            else:
                H.updatexy(np.concatenate([xs, ys]))
    B.frames()


@contract('P14 P08 P09', 'LowRankFactorizedMatrix.__init__ LowRankFactorizedMatrix.__call__ LowRankFactorizedMatrix._matvecx LowRankFactorizedMatrix._matvecy LowRankFactorizedMatrix.matvec '
          'LowRankFactorizedMatrix.lx LowRankFactorizedMatrix.ly LowRankFactorizedMatrix.gradx LowRankFactorizedMatrix.grady LowRankFactorizedMatrix.grad '
          'BilinearOperator.updatex BilinearOperator.updatey BilinearOperator.updatexy',
          sym_only=True, replay='low_rank', cfgs=[dict(op=o, upd=u) for o in (False, True) for u in ('none', 'each', 'joint')])
def low_rank_all(B, op, upd):
    """every size, every blocks: the value, the partial gradients as derivatives of the value, the held blocks, the block Lipschitz constants"""
    from vf import core, words
    n, k, m = B.dim('n'), B.dim('k'), B.dim('m')
    nk, km, nm = n * k, k * m, n * m
    X, Y, x, y = B.vec('X', nk), B.vec('Y', km), B.vec('x', nk), B.vec('y', km)
    hx, hy = B.vec('hx', nk), B.vec('hy', km)
    A = B.linop('A', B.dim('p'), nm) if op else None
    d = B.vec('d', 'p') if op else B.vec('d', nm)
    H = B.mod('utils.bilinear').LowRankFactorizedMatrix(X.reshape(n, k), Y.reshape(k, m), d, A)
    val = lambda u, v: core.V.of(words.product(u.vals[0], (n, k), False, v.vals[0], (k, m), False)[0])
    fwd = lambda u, v: A.matvec(val(u, v)) if op else val(u, v)
    f = lambda u, v: B.np.linalg.norm(d - fwd(u, v)) ** 2 / 2
    xs, ys = X, Y
    if upd == 'each':
        xs, ys = B.vec('X2', nk), B.vec('Y2', km)
        H.updatex(xs)
        H.updatey(ys)
    elif upd == 'joint':
        xs, ys = B.vec('X2', nk), B.vec('Y2', km)
        H.updatexy(B.np.hstack([xs, ys]))

    def held(when):
        B.eq('held x after ' + when, H.x.ravel(), xs)
        B.eq('held y after ' + when, H.y.ravel(), ys)
    held('the update')
    B.eq('value is half the squared residual', H(x, y), f(x, y))
    held('a value')
    B.eq('value at concatenated blocks', H(B.np.hstack([x, y])), f(x, y))
    held('a value at concatenated blocks')
    B.eq('applies to x with the held y', H._matvecx(x), fwd(x, ys))
    B.eq('applies to y with the held x', H._matvecy(y), fwd(xs, y))
    gx, gy = H.gradx(x), H.grady(y)
    held('gradients')
    # the value is quadratic in each block, so the central difference is the derivative
    B.eq('gradx is the partial gradient at the held y', 2 * B.np.dot(gx, hx), f(x + hx, ys) - f(x - hx, ys))
    B.eq('grady is the partial gradient at the held x', 2 * B.np.dot(gy, hy), f(xs, y + hy) - f(xs, y - hy))
    g = H.grad(B.np.hstack([x, y]))
    B.eq('grad stacks both', g, B.np.hstack([gx, gy]))
    if B.cond(n == m):
        B.raises('ambiguous matvec is refused', NotImplementedError, lambda: H.matvec(x))
    else:
        B.eq('matvec of x', H.matvec(x), fwd(x, ys))
        B.eq('matvec of y', H.matvec(y), fwd(xs, y))
    held('the joint gradient')
    if op:
        B.raises('no Lipschitz constant with an operator', ValueError, lambda: H.lx(x))
        B.raises('no Lipschitz constant with an operator', ValueError, lambda: H.ly(y))
    else:
        lx, ly = H.lx(x), H.ly(y)
        gram = lambda u, sh, left: core.V.of(words.product(u.vals[0], sh, left, u.vals[0], sh, not left)[0])
        XX, YY = gram(x, (n, k), True), gram(y, (k, m), False)
        B.eq('lx is the Frobenius norm of the Gram matrix', lx, B.np.linalg.norm(XX))
        B.eq('ly is the Frobenius norm of the Gram matrix', ly, B.np.linalg.norm(YY))
        # |A B|_F <= |A|_F |B|_F (assumed) at the two products that occur
        H.updatex(x)
        H.updatey(y)
        dy, dx = H.grady(ys + hy) - H.grady(ys), H.gradx(xs + hx) - H.gradx(xs)
        p = core.V.of(words.product(XX.vals[0], (k, k), False, hy.vals[0], (k, m), False)[0])
        q = core.V.of(words.product(hx.vals[0], (n, k), False, YY.vals[0], (k, k), False)[0])
        B.C.pc.append(core.z(B.np.linalg.norm(p)) <= core.z(B.np.linalg.norm(XX) * B.np.linalg.norm(hy)))
        B.C.pc.append(core.z(B.np.linalg.norm(q)) <= core.z(B.np.linalg.norm(YY) * B.np.linalg.norm(hx)))
        B.C.assumed.add('|A B|_F <= |A|_F |B|_F')
        B.le('lx bounds the variation of grady', B.np.linalg.norm(dy), lx * B.np.linalg.norm(hy))
        B.le('ly bounds the variation of gradx', B.np.linalg.norm(dx), ly * B.np.linalg.norm(hx))
    B.frames()


@contract('P14', 'ProximalGradient BilinearOperator.updatexy BilinearOperator.updatex BilinearOperator.updatey', sym_only=True, replay='joint_gradient',
          cfgs=[dict(acc=None), dict(acc='fista'), dict(acc='vandenberghe')])
def joint_gradient_all(B, acc):
    """ProximalGradient on the stacked blocks: every step uses the joint gradient at the blocks held after the previous update"""
    np = B.np
    H = B.bilinear('H')
    H.sizex, H.sizey = B.dim('nx'), B.dim('ny')
    g, z0 = B.prox('g', value='any'), B.vec('z0', blocks=['nx', 'ny'])
    tau, ep, N = B.scalar('tau', pos=True), B.scalar('epsg', pos=True), B.count('niter', 1, 6)

    def start():
        H.updatexy(z0.copy())
    start()

    def init():
        d = dict(x=z0.copy(), hx=z0[:H.sizex].copy(), hy=z0[H.sizex:].copy())
        if acc:
            d['y'] = z0.copy()
        if acc == 'fista':
            d['t'] = 1.0
        return d

    def step(s, k):
        y = s.y if acc else s.x
        gr = np.hstack([H.gx(y[:H.sizex], s.hy), H.gy(s.hx, y[H.sizex:])])
        x = g.prox(y - tau * gr, ep * tau)
        d = dict(x=x, hx=x[:H.sizex].copy(), hy=x[H.sizex:].copy())
        om = k / (k + 3)
        if acc == 'fista':
            d['t'] = (1 + np.sqrt(1 + 4 * s.t ** 2)) / 2
            om = (s.t - 1) / d['t']
        if acc:
            d['y'] = x + om * (x - s.x)
        return d

    def run(cb, n):
        start()
        r = B.mod('optimization.primal').ProximalGradient(H, g, z0, epsg=ep, tau=tau, niter=n, acceleration=acc, callback=cb)
        return r, H.x, H.y
    B.machine(run, N, init, step, cb=lambda s: (s.x,), out=lambda s: (s.x, s.hx, s.hy), cells=[(H, 'x'), (H, 'y')], prop='P14')
    B.frames()


@contract('P14', 'ProximalGradient BilinearOperator.updatexy', num_only=True, ncases=20, cfgs=[dict(acc=None), dict(acc='fista')])
def joint_gradient(B, acc):
    """ProximalGradient on the stacked blocks: every step uses the joint gradient at the blocks held after the previous update"""
    import numpy as np
    H = B.bilinear('H')
    g = B.prox('g')
    x0, y0 = B.vec('x0', H.nx), B.vec('y0', H.ny)
    u, w = x0.copy(), y0.copy()
    H.updatexy(np.concatenate([u, w]))
    tau, ep, N = B.scalar('tau', lo=0.01, hi=0.1), B.scalar('epsg', pos=True), B.count('niter', 1, 6)
    z0 = np.concatenate([x0, y0])
    x, y, t = z0.copy(), z0.copy(), 1.0
    hx, hy = x0.copy(), y0.copy()
    q = H.nx
    for k in range(N):
        gr = np.concatenate([H.gx(y[:q], hy), H.gy(hx, y[q:])])
        new = g.prox(y - tau * gr, ep * tau)
        hx, hy = new[:q], new[q:]
        om = 0
        if acc:
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            om, t = (t - 1) / tn, tn
        y = new + om * (new - x)
        x = new
    r = B.mod('optimization.primal').ProximalGradient(H, g, z0, epsg=ep, tau=tau, niter=N, acceleration=acc)
    B.eq('stacked iterate', r, x, tol=1e-6)
    B.eq('the operator holds the last blocks', np.concatenate([H.x, H.y]), x, tol=1e-6)
