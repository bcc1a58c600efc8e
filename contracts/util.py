"""Shared clauses of the contracts."""


def minimiser(B, label, f, x, tau, p, prop=None, near=(), around=False, tol=1e-7, feas=None):
    """p minimises tau f(.) + 1/2 |. - x|^2"""
    fp = tau * f(p) + 0.5 * sq(B, p - x)
    for w in B.competitors('w', x, near=[p, x] + list(near), around=p if around else None):
        fw = tau * f(w) + 0.5 * sq(B, w - x)
        B.le(label, fp, fw, prop, tol=tol)


def sq(B, v):
    if B.sym:
        from vf import core
        return core.vnorm2(v)
    import numpy as np
    return float(np.sum(np.abs(v) ** 2))


def norm(B, v):
    return B.np.linalg.norm(v.ravel())


def moreau_id(B, f, x, tau, prop='P02'):
    B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', f.prox(x, tau) + tau * f.proxdual(x / tau, 1.0 / tau), x, prop)


def block(B, x, nn, i):
    """i-th block of a stacked array"""
    if B.sym:
        return x._part(i)
    o = int(sum(nn[:i]))
    return x[o:o + int(nn[i])]


def cat(B, xs):
    if B.sym:
        from vf import core
        return core.V([b for x in xs for b in x.bufs])
    return B.np.concatenate(xs)


def sub(B, x, i):
    return x._part(i) if B.sym else x[i]


def qenv_card(x, r0):
    """sup_y <x,y> - 1/2 (sum of the r0 largest y_i^2) - 1/2 |x|^2, from the definition: the biconjugate of
    (indicator of card <= r0) + 1/2|.|^2, i.e. half the squared r0-support norm, minus 1/2|x|^2"""
    import numpy as np
    a = np.sort(np.abs(np.ravel(x)))[::-1]
    n = a.size
    if n <= r0 or np.count_nonzero(a) <= r0:
        return 0.0
    # k-support norm (Argyriou, Foygel, Srebro 2012)
    for r in range(r0):
        tail = np.sum(a[r0 - r - 1:])
        lhs = a[r0 - r - 2] if r0 - r - 2 >= 0 else np.inf
        if lhs > tail / (r + 1) - 1e-13 and tail / (r + 1) >= a[r0 - r - 1] - 1e-13:
            ks = np.sum(a[:r0 - r - 1] ** 2) + tail ** 2 / (r + 1)
            return 0.5 * (ks - np.sum(a ** 2))
    raise ValueError('no index')
