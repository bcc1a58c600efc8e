"""P17 (and P01, P07, P09, P16): sums of functions and generic intersections."""
from vf.api import contract


def dist(B, a, b):
    return B.np.abs(a - b).max()


def upper(B, *v):
    r = v[0]
    for x in v[1:]:
        r = B.np.maximum(r, x)
    return r


@contract('P17 P09', 'Sum.__init__ Sum.prox Sum._single_prox _select_impl_by_arity', cfgs=[dict(par=False), dict(par=True)])
def sum_single(B, par):
    f, x, tau = B.prox('f'), B.vec('x'), B.scalar('tau', pos=True)
    S = B.P.Sum([f], use_parallel=par)
    B.eq('one term: its own prox', S.prox(x, tau), f.prox(x, tau))
    B.raises('empty list is refused', (ValueError, ZeroDivisionError), lambda: B.P.Sum([], use_parallel=par))
    B.raises('a step of zero is refused', ValueError, lambda: S.prox(x, 0.0), 'P01')
    B.frames()


@contract('P17 P09', 'Sum.prox Sum._two_prox dykstra_two', cfgs=[dict()], ncases=30)
def sum_two(B):
    """two terms: Dykstra-like iteration with one correction per term, first term first"""
    f, g, N = B.prox('f'), B.prox('g'), B.count('niter', 0, 9)
    x0, tau = B.vec('x0'), B.scalar('tau', pos=True)
    tol = B.scalar('tol', nonneg=True, num=(1e-3, 0.3))

    def step(s, k):
        y = f.prox(s.x + s.p, tau)
        p = s.p + s.x - y
        x = g.prox(y + s.q, tau)
        return dict(x=x, p=p, q=s.q + y - x, d=upper(B, dist(B, x, s.x), dist(B, y, s.x)))
    B.machine(lambda cb, n: B.P.Sum([f, g], niter=n, tol=tol).prox(x0, tau), N, lambda: dict(x=x0.copy(), p=0 * x0, q=0 * x0, d=1.0), step,
              out=lambda s: s.x, stop=lambda s, k: s.d < tol, callback=False, prop='P17')
    B.frames()


SP = [dict(m=2, w=None, own=False), dict(m=2, w='unit', own=True), dict(m=3, w=None, own=True), dict(m=3, w='unit', own=False), dict(m=3, w='list', own=False), dict(m=4, w=None, own=False, _thorough=True), dict(m=4, w='list', own=True, _num=True), dict(m=6, w='list', own=False, _num=True), dict(m=3, w='any', own=True),
      dict(m=2, w='any', own=True)]


@contract('P17 P09', 'Sum.prox Sum._more_prox parallel_dykstra_prox', cfgs=SP, ncases=16)
def sum_parallel(B, m, w, own):
    """parallel iteration: weights normalised to one, step tau / weight per term (or tau itself)"""
    fs, N = [B.prox('f%d' % i) for i in range(m)], B.count('niter', 0, 8)
    x0, tau = B.vec('x0'), B.scalar('tau', pos=True)
    tol = B.scalar('tol', nonneg=True, num=(1e-3, 0.3))
    kw = dict(use_parallel=True) if m == 2 else {}
    if own:
        kw['use_original_tau'] = True
    if w is None:
        ws = [1.0 / m] * m
    else:
        raw = B.smallvec('w', m, pos=True)
        tot = raw[0]
        for i in range(1, m):
            tot = tot + raw[i]
        ws = [raw[i] / tot for i in range(m)]
        kw['weights'] = raw if w == 'any' else ws if w == 'list' else B.own('weights', B.np.array(ws))
    taus = [tau if own else tau / wi for wi in ws]

    def step(s, k):
        ps = [fs[i].prox(s.z[i], taus[i]) for i in range(m)]
        x = ws[0] * ps[0]
        for i in range(1, m):
            x = x + ws[i] * ps[i]
        return dict(x=x, z=B.np.stack([s.z[i] + x - ps[i] for i in range(m)]), d=dist(B, x, s.x))
    B.machine(lambda cb, n: B.P.Sum(fs, niter=n, tol=tol, **kw).prox(x0, tau), N, lambda: dict(x=x0.copy(), z=B.np.stack([x0.copy() for _ in range(m)]), d=1.0), step,
              out=lambda s: s.x, stop=lambda s, k: s.d < tol, callback=False, prop='P17')
    B.frames()


@contract('P17 P07 P09', 'Sum.__call__', cfgs=[dict(kinds='r'), dict(kinds='rr'), dict(kinds='rb'), dict(kinds='brr'), dict(kinds='bb'), dict(kinds='b'), dict(kinds='rbrb')])
def sum_value(B, kinds):
    """sum of the values; False as soon as an indicator rejects the point, whatever the position of the terms"""
    fs = [B.prox('f%d' % i, value='bool' if k == 'b' else 'real') for i, k in enumerate(kinds)]
    x = B.vec('x')
    v = B.P.Sum(fs)(x)
    inside = True
    tot = None
    for f, k in zip(fs, kinds):
        if k == 'b':
            if not B.cond(f(x)):
                inside = False
        else:
            tot = f(x) if tot is None else tot + f(x)
    if not inside:
        B.same('rejected by one of the sets', bool(v), False)
        B.same('as a truth value', isinstance(v, (bool, B.np.bool_)), True)
    elif tot is None:
        B.same('accepted by all sets', bool(v), True)
    else:
        B.eq('sum of the values', v, tot)
    B.frames()


def projections(B, m):
    return [B.vfun('P%d' % i) for i in range(m)]


@contract('P17 P05 P09', 'GenericIntersectionProj.__init__ GenericIntersectionProj.__call__ GenericIntersectionProj._single_proj GenericIntersectionProx.__init__ GenericIntersectionProx.prox _select_impl_by_arity',
          cfgs=[dict(par=False), dict(par=True)])
def generic_single(B, par):
    P, x, tau = projections(B, 1), B.vec('x'), B.scalar('tau', pos=True)
    B.eq('one set: its own projection', B.mod('projection').GenericIntersectionProj(P, use_parallel=par)(x), P[0](x))
    B.eq('prox is the projection', B.P.GenericIntersectionProx(P, use_parallel=par).prox(x, tau), P[0](x))
    B.raises('empty list is refused by the projection', ValueError, lambda: B.mod('projection').GenericIntersectionProj([], use_parallel=par))
    B.raises('empty list is refused', ValueError, lambda: B.P.GenericIntersectionProx([], use_parallel=par))
    B.raises('a step of zero is refused', ValueError, lambda: B.P.GenericIntersectionProx(P, use_parallel=par).prox(x, 0.0), 'P01')
    B.frames()


@contract('P17 P09', 'GenericIntersectionProj._two_proj dykstra_two GenericIntersectionProx.prox', cfgs=[dict(prox=False), dict(prox=True)], ncases=30)
def generic_two(B, prox):
    P, N = projections(B, 2), B.count('niter', 0, 9)
    x0, tau, tol = B.vec('x0'), B.scalar('tau', pos=True), B.scalar('tol', nonneg=True, num=(1e-3, 0.3))

    def step(s, k):
        y = P[0](s.x + s.p)
        p = s.p + s.x - y
        x = P[1](y + s.q)
        return dict(x=x, p=p, q=s.q + y - x, d=upper(B, dist(B, x, s.x), dist(B, y, s.x)))

    def run(cb, n):
        if prox:
            return B.P.GenericIntersectionProx(P, niter=n, tol=tol).prox(x0, tau)
        return B.mod('projection').GenericIntersectionProj(P, niter=n, tol=tol)(x0)
    B.machine(run, N, lambda: dict(x=x0.copy(), p=0 * x0, q=0 * x0, d=1.0), step, out=lambda s: s.x, stop=lambda s, k: s.d < tol, callback=False, prop='P17')
    B.frames()


@contract('P17 P09', 'GenericIntersectionProj._more_proj parallel_dykstra_projection', cfgs=[dict(m=2), dict(m=3), dict(m=3, prox=True), dict(m=4, _thorough=True), dict(m=4, _num=True), dict(m=6, prox=True, _num=True)], ncases=30)
def generic_many(B, m, prox=False):
    """cyclic Dykstra with one correction vector per set; stops when the point moved, and the projections of the round differ, by less than tol"""
    P, N = projections(B, m), B.count('niter', 0, 8)
    x0, tau, tol = B.vec('x0'), B.scalar('tau', pos=True), B.scalar('tol', nonneg=True, num=(1e-3, 0.3))
    kw = dict(use_parallel=True) if m == 2 else {}

    def step(s, k):
        u, z, us = s.u, [], []
        for i in range(m):
            v = P[i](u + s.z[i])
            z.append(s.z[i] + u - v)
            us.append(v)
            u = v
        return dict(u=u, z=z, d=upper(B, dist(B, s.u, u), *[dist(B, v, u) for v in us[:-1]]))

    def run(cb, n):
        if prox:
            return B.P.GenericIntersectionProx(P, niter=n, tol=tol, **kw).prox(x0, tau)
        return B.mod('projection').GenericIntersectionProj(P, niter=n, tol=tol, **kw)(x0)
    B.machine(run, N, lambda: dict(u=x0.copy(), z=[0 * x0 for _ in range(m)], d=1.0), step, out=lambda s: s.u, stop=lambda s, k: s.d < tol, callback=False, prop='P17')
    B.frames()


@contract('P17 P05 P09', 'GenericIntersectionProx.__call__', cfgs=[dict(m=1), dict(m=2), dict(m=3)], ncases=60)
def generic_indicator(B, m):
    """true exactly when every projection moves every entry by less than ten times the tolerance of the projection"""
    P, x, tol = projections(B, m), B.vec('x'), B.scalar('tol', nonneg=True, num=(1e-3, 0.3))
    v = B.P.GenericIntersectionProx(P, tol=tol)(x)
    ok = True
    for p in P:
        if not B.cond(dist(B, x, p(x)) < 10 * tol):
            ok = False
            break
    B.same('indicator', bool(v), ok)
    B.frames()


@contract('P17 P05', 'Sum.prox GenericIntersectionProj.__call__ dykstra_two parallel_dykstra_projection parallel_dykstra_prox', num_only=True, ncases=40, narrow=True, cfgs=[dict(m=2, par=False), dict(m=2, par=True), dict(m=3, par=False)])
def dykstra_limits(B, m, par):
    """the limits: projection onto the intersection of boxes, prox of a sum of quadratics"""
    import numpy as np
    r, n = B.rng, B.dim('n', 1, 6)
    lo, hi = [-np.abs(r.normal(size=n)) - 0.1 for _ in range(m)], [np.abs(r.normal(size=n)) + 0.1 for _ in range(m)]
    P = [lambda v, a=a, b=b: np.clip(v, a, b) for a, b in zip(lo, hi)]
    x, tau = r.normal(size=n) * 4, B.scalar('tau', pos=True)
    B.own('x', x)
    best = np.clip(x, np.max(lo, axis=0), np.min(hi, axis=0))
    pr = B.P.GenericIntersectionProx(P, use_parallel=par)
    p = pr.prox(x, tau)
    B.eq('nearest point of an intersection of boxes', p, best, tol=1e-4)
    B.same('indicator accepts it', bool(pr(p)), True)
    B.same('indicator rejects a point outside', bool(pr(p + (np.min(hi, axis=0) - p) + 1.0)), False)
    w = np.abs(r.normal(size=m)) + 0.2
    w = w / w.sum()
    bs = [r.normal(size=n) for _ in range(m)]
    fs = [B.P.L2(b=b, sigma=0.7 + 0.2 * i) for i, b in enumerate(bs)]
    S = B.P.Sum(fs, weights=None if (m == 2 and not par) else w, use_parallel=par)
    q = S.prox(x, tau)
    sg = np.array([0.7 + 0.2 * i for i in range(m)])
    # two terms: prox of the sum; parallel with steps tau / w: the weighted sum of f_i / w_i, again the sum
    ex = (x + tau * sum(s * b for s, b in zip(sg, bs))) / (1 + tau * sg.sum())
    B.eq('prox of a sum of quadratics', q, ex, tol=1e-4)
    B.frames()
