"""P04 (and P09): non-convex penalties."""
from vf.api import contract
from contracts.util import minimiser, norm, sq


def grid_min(B, label, fe, x, tau, p, tol=1e-7):
    """componentwise: no point of a fine grid does better (concrete runs)"""
    import numpy as np
    x, p = np.ravel(x), np.ravel(p)
    for xi, pi in zip(x, p):
        r = 1.6 * abs(xi) + 0.5
        w = np.concatenate([np.linspace(-r, r, 1201), [0.0, xi, -xi], pi + np.linspace(-1e-2, 1e-2, 41), [pi]])
        v = tau * fe(w) + 0.5 * (w - xi) ** 2
        best = tau * float(fe(np.array([pi]))[0]) + 0.5 * (pi - xi) ** 2
        B.le(label, best, float(np.min(v)), 'P04', tol=tol)


@contract('P04 P09', 'SCAD.prox SCAD.__call__ SCAD.elementwise', weight=2)
def scad(B):
    s, a, tau, x = B.scalar('sigma', pos=True), B.scalar('a', lo=2.0), B.scalar('tau', pos=True), B.vec('x')
    B.assume(a > 2)
    B.assume(tau < a - 1)
    f = B.P.SCAD(s, a)

    def fe(u):
        au = B.np.abs(u)
        return B.np.where(au <= s, s * au, B.np.where(au <= a * s, (-(u * u) + 2 * a * s * au - s * s) / (2 * (a - 1)), (a + 1) * s * s / 2 + 0 * au))
    B.eq('value', f(x), B.np.sum(fe(x)), 'P04')
    p = f.prox(x, tau)
    if B.sym:
        minimiser(B, 'prox is a global minimiser', lambda u: B.np.sum(fe(u)), x, tau, p, 'P04')
    else:
        grid_min(B, 'prox is a global minimiser', fe, x, tau, p)
    B.frames()


@contract('P04', 'SCAD.prox', num_only=True)
def scad_default(B):
    s, tau, x = B.scalar('sigma', pos=True), B.scalar('tau', pos=True, hi=2.5), B.vec('x')
    B.assume(0 < tau < 2.6)
    f = B.P.SCAD(s)
    a = 3.7

    def fe(u):
        au = B.np.abs(u)
        return B.np.where(au <= s, s * au, B.np.where(au <= a * s, (-(u * u) + 2 * a * s * au - s * s) / (2 * (a - 1)), (a + 1) * s * s / 2 + 0 * au))
    B.eq('default a is 3.7', f(x), B.np.sum(fe(x)), 'P04')
    grid_min(B, 'prox is a global minimiser', fe, x, tau, f.prox(x, tau))
    for bad in ((0.0, 3.7), (-1.0, 3.7), (s, 2.0), (s, 1.0)):
        B.raises('invalid parameters are refused', ValueError, lambda: B.P.SCAD(*bad), 'P04')


@contract('P04 P09', 'QuadraticEnvelopeCard.prox QuadraticEnvelopeCard.__call__ QuadraticEnvelopeCard.elementwise', ncases=40)
def quadratic_envelope_card(B):
    mu, tau, x = B.scalar('mu', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.QuadraticEnvelopeCard(mu)
    r = B.np.sqrt(2 * mu)

    def fe(u):
        au = B.np.abs(u)
        return mu - B.np.where(au < r, (r - au) * (r - au) / 2, 0 * au)
    B.eq('value', f(x), B.np.sum(fe(x)), 'P04')
    p = f.prox(x, tau)
    if B.sym:
        minimiser(B, 'prox is a global minimiser', lambda u: B.np.sum(fe(u)), x, tau, p, 'P04')
    else:
        grid_min(B, 'prox is a global minimiser', fe, x, tau, p)
    B.frames()


@contract('P04 P09', 'Log.prox Log.__call__ Log.elementwise', num_only=True, ncases=60)
def log_penalty(B):
    import numpy as np
    s, g, tau, x = B.scalar('sigma', nonneg=True), B.scalar('gamma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.Log(s, g)

    def fe(u):
        return s / np.log(g + 1) * np.log(g * np.abs(u) + 1)
    B.eq('value', f(x), float(np.sum(fe(x))), 'P04')
    grid_min(B, 'prox is a global minimiser', fe, x, tau, f.prox(x, tau))
    B.eq('default gamma is 1.3', B.P.Log(s)(x), float(np.sum(s / np.log(2.3) * np.log(1.3 * np.abs(x) + 1))), 'P04')
    B.frames()


def _chosen(B, f, p, x, w, a, aw, z, rp, phi, tau, fe, o):
    """the prox is 0 or the stationary point rp of x's sign, whichever is better; o tells which of them is no worse than |w|"""
    np = B.np
    ap = np.abs(p)
    B.fact_all('no worse than zero', phi(ap) <= phi(z), 'P04')
    B.fact_all('zero or the larger stationary point', (ap == 0) | (ap == rp), 'P04')
    B.fact_all('zero only if better', (ap != 0) | (phi(z) <= phi(rp)), 'P04')
    B.fact_all('no worse than the larger stationary point', phi(ap) <= phi(rp), 'P04')
    B.fact_all('same sign as x', p * x >= 0, 'P04')
    B.derive('no worse than any size', [phi(ap), phi(rp), phi(z), phi(aw), o], [
        lambda q, r, n, w, o: q <= r, lambda q, r, n, w, o: q <= n, lambda q, r, n, w, o: (o <= 0) | (r <= w), lambda q, r, n, w, o: (o > 0) | (n <= w)],
        lambda q, r, n, w, o: q <= w, 'P04')
    B.fact_all('distance of sizes', ((p - x) * (p - x) <= (ap - a) * (ap - a)) & ((aw - a) * (aw - a) <= (w - x) * (w - x)), 'P04')
    fp = tau * fe(p) + (p - x) * (p - x) / 2
    fw = tau * fe(w) + (w - x) * (w - x) / 2
    B.derive('signs', [tau * fe(p), tau * fe(w), phi(ap), phi(aw), fp, fw], [
        lambda q, r, u, v, f, h: u <= v, lambda q, r, u, v, f, h: f <= u, lambda q, r, u, v, f, h: v <= h], lambda q, r, u, v, f, h: f <= h, 'P04')
    B.le('prox is a global minimiser, entry by entry', fp, fw, 'P04')


@contract('P04 P09', 'Log.prox Log.elementwise ProxOperator._check_tau', weight=2)
def log_minimiser(B):
    """entry by entry: phi(u) = tau fe(u) + (u - a)^2 / 2 with a = |x| rises, falls between the roots r1 < r2 of its stationarity
    equation and rises again, so its minimum over u >= 0 is at 0 or at r2"""
    np = B.np
    s, g, tau, x = B.scalar('sigma', nonneg=True), B.scalar('gamma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    w = B.vec('w')
    f = B.P.Log(s, g)
    p = f.prox(x, tau)
    B.frames()
    if not B._want('P04'):
        return
    fe = lambda u: s / np.log(g + 1) * np.log(g * np.abs(u) + 1)
    a, aw = np.abs(x), np.abs(w)
    k = tau * s / np.log(g + 1)
    phi = lambda u: tau * fe(u) + (u - a) * (u - a) / 2
    dphi = lambda u: k * g / (g * u + 1) + u - a
    e = g * a - 1
    disc = e * e - 4 * g * (k * g - a)
    has = disc >= 0
    c = np.sqrt(np.where(has, disc, 0 * x))
    r2 = (e + c) / (2 * g)
    rp = np.maximum(np.where(has, r2, 0 * x), 0)
    z = 0 * x
    for u, name in ((rp, 'larger stationary point'), (z, 'zero')):
        xi, d = B.mvt(phi, dphi, u, aw)
        y, yu, yw = 2 * g * xi - e, 2 * g * u - e, 2 * g * aw - e
        B.derive('slope', [g, k, a, xi, d], [lambda g, k, a, t, d: g > 0, lambda g, k, a, t, d: t >= 0, lambda g, k, a, t, d: d == k * g / (g * t + 1) + t - a],
                 lambda g, k, a, t, d: d * (g * t + 1) * 4 * g == (2 * g * t - (g * a - 1)) * (2 * g * t - (g * a - 1)) - ((g * a - 1) * (g * a - 1) - 4 * g * (k * g - a)), 'P04')
        if u is rp:
            B.derive('sides', [c, y, yu, yw, disc], [
                lambda c, y, u, w, q: (q < 0) | (c >= 0), lambda c, y, u, w, q: (q < 0) | (c * c == q), lambda c, y, u, w, q: (q < 0) | (u >= c),
                lambda c, y, u, w, q: (q < 0) | (u == c) | (w >= u), lambda c, y, u, w, q: ((u <= y) & (y <= w)) | ((w <= y) & (y <= u))],
                lambda c, y, u, w, q: (q < 0) | (w < -c) | ((y * y - q) * (w - u) >= 0), 'P04')
            guard = ~has | (yw < -c)
        else:
            B.derive('sides', [c, y, yu, yw, disc], [
                lambda c, y, u, w, q: (q < 0) | (c >= 0), lambda c, y, u, w, q: (q < 0) | (c * c == q), lambda c, y, u, w, q: (u <= y) & (y <= w)],
                lambda c, y, u, w, q: ((q >= 0) & (w >= -c)) | ((y * y - q) * (w - u) >= 0), 'P04')
            guard = has & (yw >= -c)
        h = y * y - disc
        B.derive('slope and sides', [g, xi, d, h, u, aw, phi(u), phi(aw), np.where(guard, 1 + z, z)], [
            lambda g, t, d, h, u, w, p, q, o: g > 0, lambda g, t, d, h, u, w, p, q, o: t >= 0, lambda g, t, d, h, u, w, p, q, o: d * (g * t + 1) * 4 * g == h,
            lambda g, t, d, h, u, w, p, q, o: (o > 0) | (h * (2 * g * w - 2 * g * u) >= 0), lambda g, t, d, h, u, w, p, q, o: q - p == d * (w - u)],
            lambda g, t, d, h, u, w, p, q, o: (o > 0) | (p <= q), 'P04')
        B.fact_all(name, guard | (phi(u) <= phi(aw)), 'P04')
    _chosen(B, f, p, x, w, a, aw, z, rp, phi, tau, fe, np.where(has & (2 * g * aw - e >= -c), 1 + z, z))


@contract('P04 P09', 'ETP.prox ETP.elementwise ProxOperator._check_tau', weight=2)
def etp_minimiser(B):
    """entry by entry: phi(u) = tau fe(u) + (u - a)^2 / 2 with a = |x| has a convex slope, whose larger root is r; left of r the
    slope is positive up to some point and negative after it"""
    np = B.np
    s, g, tau, x = B.scalar('sigma', nonneg=True), B.scalar('gamma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    w = B.vec('w')
    f = B.P.ETP(s, g)
    p = f.prox(x, tau)
    B.frames()
    if not B._want('P04'):
        return
    fe = lambda u: s / (1 - np.exp(-g)) * (1 - np.exp(-g * np.abs(u)))
    a, aw, z = np.abs(x), np.abs(w), 0 * x
    k = tau * s / (1 - np.exp(-g))
    phi = lambda u: tau * fe(u) + (u - a) * (u - a) / 2
    E = lambda u: np.exp(-g * u)
    dphi = lambda u: k * g * E(u) + u - a
    t = E(a) * k * g * g
    e1 = np.exp(-1 + 0 * g)
    has = t <= e1
    W = B.lambertw(-t)
    r = W / g + a
    rp = np.where(has & (r >= 0), r, z)
    A, R, Y, cc = g * a, W + g * a, g * aw, k * g * g
    er, ey, ea = np.exp(-R), E(aw), E(a)
    B.exp_sum(-R, W)
    B.derive('slope at r', [ea, er, np.exp(W), W, cc, t, np.where(has, 1 + z, z)], [
        lambda ea, er, ew, w, c, t, o: er * ew == ea, lambda ea, er, ew, w, c, t, o: ew > 0, lambda ea, er, ew, w, c, t, o: t == ea * c,
        lambda ea, er, ew, w, c, t, o: (o <= 0) | (w * ew == -t)],
        lambda ea, er, ew, w, c, t, o: (o <= 0) | (c * er == -w), 'P04')
    B.lemma('r', g * r, R, 'P04')
    sy = cc * ey + Y - A
    for u, name in ((rp, 'larger stationary point'), (z, 'zero')):
        xi, d = B.mvt(phi, dphi, u, aw)
        X, U = g * xi, g * u
        ex = E(xi)
        sx = cc * ex + X - A
        B.derive('between', [g, u, xi, aw], [lambda g, u, t, w: (g > 0) & (u >= 0) & (w >= 0), lambda g, u, t, w: ((u <= t) & (t <= w)) | ((w <= t) & (t <= u))],
                 lambda g, u, t, w: (t >= 0) & (((g * u <= g * t) & (g * t <= g * w)) | ((g * w <= g * t) & (g * t <= g * u))), 'P04')
        if u is rp:
            guard = ~has | ((Y < R) & (sy > 0))
            B.exp_tangent(-X, -R)
            B.exp_tangent(-Y, -X)
            B.exp_tangent(-R, -X)
            B.derive('sides', [cc, ex, ey, er, X, Y, R, U, A, W, np.where(guard, 1 + z, z)], [
                lambda c, ex, ey, er, x, y, r, u, a, w, o: (c >= 0) & (ex > 0) & (ey > 0) & (er > 0) & (w >= -1),
                lambda c, ex, ey, er, x, y, r, u, a, w, o: (o > 0) | (c * er == -w),
                lambda c, ex, ey, er, x, y, r, u, a, w, o: r == w + a,
                lambda c, ex, ey, er, x, y, r, u, a, w, o: (o > 0) | ((u == r) | ((u == 0) & (r < 0))),
                lambda c, ex, ey, er, x, y, r, u, a, w, o: (y >= 0) & (((u <= x) & (x <= y)) | ((y <= x) & (x <= u))),
                lambda c, ex, ey, er, x, y, r, u, a, w, o: (o > 0) | (y >= r) | (c * ey + y - a <= 0),
                lambda c, ex, ey, er, x, y, r, u, a, w, o: (ex >= er * (1 - x + r)) & (ey >= ex * (1 - y + x)) & (er >= ex * (1 - r + x))],
                lambda c, ex, ey, er, x, y, r, u, a, w, o: (o > 0) | ((c * ex + x - a) * (y - u) >= 0), 'P04')
        else:
            guard = has & ((Y >= R) | (sy <= 0))
            B.exp_tangent(-X, -Y)
            B.exp_tangent(-R, -Y)
            B.exp_tangent(A - X - 1, z)
            B.exp_sum(A - X, -1 + z)
            B.exp_sum(-A, A - X)
            B.derive('slope without stationary points', [cc, ex, ea, np.exp(A - X), np.exp(A - X - 1), e1 + z, A - X, t], [
                lambda c, ex, ea, ed, ef, e1, v, t: ex == ea * ed, lambda c, ex, ea, ed, ef, e1, v, t: ef == ed * e1, lambda c, ex, ea, ed, ef, e1, v, t: ef >= v,
                lambda c, ex, ea, ed, ef, e1, v, t: ed > 0, lambda c, ex, ea, ed, ef, e1, v, t: t == ea * c],
                lambda c, ex, ea, ed, ef, e1, v, t: (t <= e1) | (c * ex - v >= 0), 'P04')
            B.derive('sides', [cc, ex, ey, er, X, Y, R, A, W, np.where(has, 1 + z, z)], [
                lambda c, ex, ey, er, x, y, r, a, w, o: (c >= 0) & (ex > 0) & (ey > 0) & (er > 0),
                lambda c, ex, ey, er, x, y, r, a, w, o: (o <= 0) | (c * er == -w),
                lambda c, ex, ey, er, x, y, r, a, w, o: r == w + a,
                lambda c, ex, ey, er, x, y, r, a, w, o: (0 <= x) & (x <= y),
                lambda c, ex, ey, er, x, y, r, a, w, o: (o > 0) | (c * ex + x - a >= 0),
                lambda c, ex, ey, er, x, y, r, a, w, o: (ex >= ey * (1 - x + y)) & (er >= ey * (1 - r + y))],
                lambda c, ex, ey, er, x, y, r, a, w, o: ((o > 0) & ((y >= r) | (c * ey + y - a <= 0))) | ((c * ex + x - a) * y >= 0), 'P04')
        B.derive('slope and sides', [g, d, sx, U, Y, u, aw, phi(u), phi(aw), np.where(guard, 1 + z, z)], [
            lambda g, d, s, U, Y, u, w, p, q, o: g > 0, lambda g, d, s, U, Y, u, w, p, q, o: g * d == s, lambda g, d, s, U, Y, u, w, p, q, o: U == g * u,
            lambda g, d, s, U, Y, u, w, p, q, o: Y == g * w, lambda g, d, s, U, Y, u, w, p, q, o: (o > 0) | (s * (Y - U) >= 0),
            lambda g, d, s, U, Y, u, w, p, q, o: q - p == d * (w - u)],
            lambda g, d, s, U, Y, u, w, p, q, o: (o > 0) | (p <= q), 'P04')
        B.fact_all(name, guard | (phi(u) <= phi(aw)), 'P04')
    _chosen(B, f, p, x, w, a, aw, z, rp, phi, tau, fe, np.where(has & ((Y >= R) | (sy <= 0)), 1 + z, z))


@contract('P04 P09', 'Geman.prox Geman.elementwise Geman._find_local_minima ProxOperator._check_tau', weight=2)
def geman_minimiser(B):
    """entry by entry: phi(u) = tau fe(u) + (u - a)^2 / 2 with a = |x|; its slope times (u + gamma)^2 is the cubic
    t^3 - 3 h^2 t + G of t = u + (2 gamma - a) / 3, which has no root right of -h or T = 2 h y and one left of it"""
    np = B.np
    s, g, tau, x = B.scalar('sigma', nonneg=True), B.scalar('gamma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    w = B.vec('w')
    f = B.P.Geman(s, g)
    p = f.prox(x, tau)
    B.frames()
    if not B._want('P04'):
        return
    fe = lambda u: s * np.abs(u) / (np.abs(u) + g)
    a, aw, z = np.abs(x), np.abs(w), 0 * x
    k = tau * s * g
    phi = lambda u: tau * fe(u) + (u - a) * (u - a) / 2
    dphi = lambda u: k / ((u + g) * (u + g)) + u - a
    h, b3 = (g + a) / 3, (2 * g - a) / 3
    h3 = h * h * h
    G = k - 2 * h3
    has = G <= 2 * h3
    b, c, e = 2 * g - a, g ** 2 - 2 * g * a, g * s * tau - g ** 2 * a
    F, G0 = -((c - b ** 2 / 3) ** 3) / 27, (2 * b ** 3 - 9 * b * c + 27 * e) / 27
    B.lemma('F', F, h3 * h3, 'P04')
    B.lemma('G', G0, G, 'P04')
    sq = np.sqrt(F)
    cb = sq ** (1 / 3.0)
    cl = np.clip(-(G0 / (2 * sq)), -1.0, 1.0)
    y = np.cos(np.arccos(cl) / 3.0)
    ho = np.where(has, 1 + z, z)
    B.derive('square root', [h, sq, h3], [lambda h, s, c: h > 0, lambda h, s, c: s >= 0, lambda h, s, c: s * s == c * c, lambda h, s, c: c == h * h * h], lambda h, s, c: s == c, 'P04')
    B.derive('cube root', [h, cb, sq], [lambda h, c, s: h > 0, lambda h, c, s: c >= 0, lambda h, c, s: c * c * c == s, lambda h, c, s: s == h * h * h], lambda h, c, s: c == h, 'P04')
    B.derive('cosine', [h, h3, G, cl, ho], [lambda h, c, G, q, o: c > 0, lambda h, c, G, q, o: G >= -2 * c, lambda h, c, G, q, o: (o <= 0) | (G <= 2 * c),
             lambda h, c, G, q, o: (q == -1) | (q == 1) | (q * 2 * c == -G), lambda h, c, G, q, o: (q != -1) | (-G <= -2 * c),
             lambda h, c, G, q, o: (q != 1) | (-G >= 2 * c)], lambda h, c, G, q, o: (o <= 0) | (q * 2 * c == -G), 'P04')
    T = 2 * h * y
    r = T - b3
    B.derive('root', [h, G, y, cl, T, ho], [lambda h, G, y, q, T, o: h > 0, lambda h, G, y, q, T, o: (o <= 0) | (q * 2 * h * h * h == -G), lambda h, G, y, q, T, o: 4 * y * y * y - 3 * y == q,
             lambda h, G, y, q, T, o: T == 2 * h * y, lambda h, G, y, q, T, o: (y >= 1 / 2) & (y <= 1)],
             lambda h, G, y, q, T, o: (o <= 0) | (T * T * T - 3 * h * h * T + G == 0), 'P04')
    B.derive('range of the root', [h, y, T], [lambda h, y, T: (h > 0) & (y >= 1 / 2) & (y <= 1) & (T == 2 * h * y)], lambda h, y, T: (T >= h) & (T <= 2 * h), 'P04')
    B.fact_all('h', h > 0, 'P04')
    rp = np.where(has & (r >= 0), r, z)
    Q = lambda t: t * t + T * t + T * T - 3 * h * h
    al = np.abs(r)
    for u, v, name in ((rp, aw, 'larger stationary point'), (z, aw, 'zero'), (z, al, 'increasing')):
        xi, d = B.mvt(phi, dphi, u, v)
        t, tu, tv = xi + b3, u + b3, v + b3
        B.fact_all('between', (xi >= 0) & (v >= 0), 'P04')
        C = t * t * t - 3 * h * h * t + G
        B.derive('slope', [g, a, k, xi, d], [lambda g, a, k, t, d: g > 0, lambda g, a, k, t, d: t >= 0, lambda g, a, k, t, d: d == k / ((t + g) * (t + g)) + t - a],
                 lambda g, a, k, t, d: d * ((t + g) * (t + g)) == (t - a) * (t + g) * (t + g) + k, 'P04')
        B.derive('cubic', [g, a, k, xi, h, G, t], [
            lambda g, a, k, x, h, G, t: 3 * h == g + a, lambda g, a, k, x, h, G, t: G == k - 2 * h * h * h, lambda g, a, k, x, h, G, t: 3 * t == 3 * x + 2 * g - a],
            lambda g, a, k, x, h, G, t: (x - a) * (x + g) * (x + g) + k == t * t * t - 3 * h * h * t + G, 'P04')
        if u is rp:
            guard = ~has | (Q(tv) < 0)
            B.derive('sides', [h, T, t, tu, tv, G, np.where(guard, 1 + z, z)], [
                lambda h, T, t, u, v, G, o: (h > 0) & (T >= h) & (T <= 2 * h), lambda h, T, t, u, v, G, o: (o > 0) | (T * T * T - 3 * h * h * T + G == 0),
                lambda h, T, t, u, v, G, o: (o > 0) | (v * v + T * v + T * T - 3 * h * h >= 0), lambda h, T, t, u, v, G, o: (o > 0) | (u == T) | ((u > T) & (v >= u)),
                lambda h, T, t, u, v, G, o: ((u <= t) & (t <= v)) | ((v <= t) & (t <= u)), lambda h, T, t, u, v, G, o: v >= -h],
                lambda h, T, t, u, v, G, o: (o > 0) | ((t * t * t - 3 * h * h * t + G) * (v - u) >= 0), 'P04')
        else:
            guard = has & (Q(tv) >= 0) if v is aw else has
            B.derive('sides', [h, T, t, tu, tv, G, np.where(guard, 1 + z, z), ho], [
                lambda h, T, t, u, v, G, o, p: (h > 0) & (T >= h) & (T <= 2 * h), lambda h, T, t, u, v, G, o, p: (p <= 0) | (T * T * T - 3 * h * h * T + G == 0),
                lambda h, T, t, u, v, G, o, p: (o > 0) | (p <= 0) | (v * v + T * v + T * T - 3 * h * h <= 0), lambda h, T, t, u, v, G, o, p: (p > 0) | (G >= 2 * h * h * h),
                lambda h, T, t, u, v, G, o, p: (u <= t) & (t <= v) & (u >= -h)],
                lambda h, T, t, u, v, G, o, p: (o > 0) | ((t * t * t - 3 * h * h * t + G) * (v - u) >= 0), 'P04')
        B.derive('slope and sides', [g, xi, d, C, u, v, tu, tv, phi(u), phi(v), np.where(guard, 1 + z, z)], [
            lambda g, x, d, C, u, v, tu, tv, p, q, o: (g > 0) & (x >= 0), lambda g, x, d, C, u, v, tu, tv, p, q, o: d * ((x + g) * (x + g)) == C,
            lambda g, x, d, C, u, v, tu, tv, p, q, o: tv - tu == v - u, lambda g, x, d, C, u, v, tu, tv, p, q, o: (o > 0) | (C * (tv - tu) >= 0),
            lambda g, x, d, C, u, v, tu, tv, p, q, o: q - p == d * (v - u)],
            lambda g, x, d, C, u, v, tu, tv, p, q, o: (o > 0) | (p <= q), 'P04')
        B.fact_all(name, guard | (phi(u) <= phi(v)), 'P04')
    loc = 2 * cb * y - b / 3
    val = tau * fe(loc) + (loc - a) * (loc - a) / 2
    ind = G0 * G0 / 4 - F <= 1e-12 * F
    B.fact_all('chosen', (np.abs(p) == 0) | (ind & (val < a * a / 2) & (np.abs(p) == np.abs(loc))), 'P04')
    B.fact_all('not chosen', (np.abs(p) != 0) | ~ind | (val >= a * a / 2) | (np.abs(loc) == 0), 'P04')
    B.derive('indicator', [h3, G0, F, G], [lambda h, g, f, G: h > 0, lambda h, g, f, G: f == h * h, lambda h, g, f, G: (g == G) & (G >= -2 * h)],
             lambda h, g, f, G: (G > 2 * h) | (g * g / 4 - f <= 1e-12 * f), 'P04')
    B.lemma('location', loc, r, 'P04')
    B.fact_all('value', (val >= phi(al)) & ((loc >= 0) | (val >= phi(z))) & ((loc < 0) | (val == phi(al))) & (phi(z) == a * a / 2), 'P04')
    _chosen(B, f, p, x, w, a, aw, z, rp, phi, tau, fe, np.where(has & (Q(aw + b3) >= 0), 1 + z, z))


@contract('P04 P09', 'ETP.prox ETP.__call__ ETP.elementwise', num_only=True, ncases=60)
def etp_penalty(B):
    import numpy as np
    s, g, tau, x = B.scalar('sigma', nonneg=True), B.scalar('gamma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.ETP(s, g)

    def fe(u):
        return s / (1 - np.exp(-g)) * (1 - np.exp(-g * np.abs(u)))
    B.eq('value', f(x), float(np.sum(fe(x))), 'P04')
    grid_min(B, 'prox is a global minimiser', fe, x, tau, f.prox(x, tau))
    B.eq('default gamma is 1', B.P.ETP(s)(x), float(np.sum(s / (1 - np.exp(-1.0)) * (1 - np.exp(-np.abs(x))))), 'P04')
    B.frames()


@contract('P04 P09', 'Geman.prox Geman.__call__ Geman.elementwise Geman._find_local_minima', num_only=True, ncases=60)
def geman_penalty(B):
    import numpy as np
    s, g, tau, x = B.scalar('sigma', nonneg=True), B.scalar('gamma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.Geman(s, g)

    def fe(u):
        return s * np.abs(u) / (np.abs(u) + g)
    B.eq('value', f(x), float(np.sum(fe(x))), 'P04')
    grid_min(B, 'prox is a global minimiser', fe, x, tau, f.prox(x, tau))
    B.eq('default gamma is 1.3', B.P.Geman(s)(x), float(np.sum(s * np.abs(x) / (np.abs(x) + 1.3))), 'P04')
    B.frames()


@contract('P04 P09', 'Geman.__call__ Geman.elementwise')
def geman_value(B):
    s, g, x = B.scalar('sigma', pos=True), B.scalar('gamma', pos=True), B.vec('x')
    B.eq('value', B.P.Geman(s, g)(x), B.np.sum(s * B.np.abs(x) / (B.np.abs(x) + g)), 'P04')
    B.frames()


@contract('P04 P09', 'ETP.__call__ ETP.elementwise Log.__call__ Log.elementwise Log1.__call__ Log1.elementwise', sym_only=True)
def exp_log_values(B):
    s, g, x = B.scalar('sigma', pos=True), B.scalar('gamma', pos=True), B.vec('x')
    np = B.np
    B.eq('ETP value', B.P.ETP(s, g)(x), np.sum(s / (1 - np.exp(-g)) * (1 - np.exp(-g * np.abs(x)))), 'P04')
    B.eq('Log value', B.P.Log(s, g)(x), np.sum(s / np.log(g + 1) * np.log(g * np.abs(x) + 1)), 'P04')
    B.eq('Log1 value', B.P.Log1(s, g)(x), np.sum(np.log(np.abs(x) + g)), 'P04')
    B.frames()


@contract('P04 P09', 'L0.prox L0.__call__ _hardthreshold')
def l0(B):
    s, tau, x = B.scalar('sigma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.L0(s)
    B.eq('value counts the non-zero entries', f(x), B.np.sum(B.np.where(B.np.abs(x) > 0, 1 + 0 * x, 0 * x)), 'P04')
    B.eq('keeps exactly the entries above tau sigma', f.prox(x, tau), B.np.where(B.np.abs(x) > tau * s, x, 0 * x), 'P04')
    B.frames()


@contract('P04 P09', 'Log1.prox Log1.__call__', ncases=40)
def log1(B):
    s, d, tau, x = B.scalar('sigma', pos=True), B.scalar('delta', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.Log1(s, d)
    p = f.prox(x, tau)
    au = B.np.abs(x)
    t = B.np.sqrt(2 * tau * s) - d
    root = B.np.sqrt(B.np.where(au > t, (au + d) * (au + d) - 2 * tau * s, 0 * au))
    # documented closed form above the threshold, zero at or below it
    B.assume(t > 0)
    B.eq('documented closed form', p, B.np.where(au > t, B.np.sign(x) * (au - d + root) / 2, 0 * x), 'P04')
    B.frames()


@contract('P04', 'Log1.prox Log1.__call__', num_only=True, cfgs=[dict(cplx=False), dict(cplx=True)])
def log1_concrete(B, cplx):
    import numpy as np
    s, tau, x = B.scalar('sigma', pos=True), B.scalar('tau', pos=True), B.vec('x')
    d = 1e-10 if B.rng.random() < 0.4 else B.scalar('delta', pos=True)
    if cplx:
        x = x * np.exp(1j * B.vec('phase'))
    f = B.P.Log1(s) if d == 1e-10 else B.P.Log1(s, d)
    au = np.abs(x)
    t = np.sqrt(2 * tau * s) - d
    if t <= 0:
        return
    if np.any(np.abs(au - t) < 1e-6):
        return
    ref = np.where(au > t, 0.5 * (au - d + np.sqrt(np.maximum((au + d) ** 2 - 2 * tau * s, 0))), 0) * np.exp(1j * np.angle(x))
    B.eq('documented closed form', f.prox(x, tau), ref if cplx else ref.real, 'P04')
    if np.all(au > 0):
        B.eq('value', f(x), float(np.sum(np.log(au + d))), 'P04')


@contract('P04 P05', 'L0 RelaxedMumfordShah L0Ball L10Ball EuclideanBall on complex data', num_only=True, ncases=40)
def complex_nonconvex(B):
    """bounded: magnitudes decide, phases are kept"""
    import numpy as np
    rng = B.rng
    n = int(rng.integers(1, 8))
    x, tau, s, k = rng.normal(size=n) + 1j * rng.normal(size=n), *np.exp(rng.uniform(-1.5, 1.0, size=3)).tolist()
    B.inputs.update(x=x, tau=tau, sigma=s, kappa=k)
    au = np.abs(x)
    for name, f, t, low in (('L0', B.P.L0(s), tau * s, 0 * x), ('relaxed Mumford-Shah', B.P.RelaxedMumfordShah(s, k), np.sqrt(k / s * (1 + 2 * tau * s)), x / (1 + 2 * tau * s))):
        if np.all(abs(au - t) > 1e-9):
            B.eq('%s of a complex vector' % name, f.prox(x, tau), np.where(au > t, x, low), 'P04')
    B.eq('relaxed Mumford-Shah value of a complex vector', B.P.RelaxedMumfordShah(s, k)(x), min(s * np.linalg.norm(x) ** 2, k), 'P04')
    r = int(rng.integers(1, n + 1))
    keep = np.zeros(n)
    keep[np.argsort(-au)[:r]] = 1
    B.eq('L0 ball of a complex vector', B.P.L0Ball(r).prox(x, tau), keep * x, 'P05')
    X = rng.normal(size=(3, n)) + 1j * rng.normal(size=(3, n))
    keep = np.zeros(n)
    keep[np.argsort(-np.abs(X).sum(axis=0))[:r]] = 1
    B.eq('L1,0 ball of a complex matrix', np.asarray(B.P.L10Ball(3, r).prox(X.ravel(), tau)).reshape(3, n), keep * X, 'P05')
    c, nx = rng.normal(size=n) + 1j * rng.normal(size=n), None
    nx = np.linalg.norm(x - c)
    B.eq('Euclidean ball of a complex vector', B.P.EuclideanBall(c, s).prox(x, tau), x if nx <= s else c + s / nx * (x - c), 'P05', tol=1e-7)


@contract('P04 P09', 'RelaxedMumfordShah.prox RelaxedMumfordShah.__call__')
def relaxed_ms(B):
    s, k, tau, x = B.scalar('sigma', pos=True), B.scalar('kappa', pos=True), B.scalar('tau', pos=True), B.vec('x')
    f = B.P.RelaxedMumfordShah(s, k)
    n2 = sq(B, x)
    B.eq('value is min(sigma |x|^2, kappa)', f(x), B.np.minimum(s * n2, k), 'P04')
    t = B.np.sqrt(k / s * (1 + 2 * tau * s))
    if not B.sym and B.np.any(abs(abs(x) - t) < 1e-9):
        return
    B.eq('documented closed form', f.prox(x, tau), B.np.where(B.np.abs(x) <= t, x / (1 + 2 * tau * s), x), 'P04')
    B.frames()


@contract('P04 P09', 'QuadraticEnvelopeCardIndicator.prox QuadraticEnvelopeCardIndicator.__call__', num_only=True, ncases=80, cfgs=[dict(big=0), dict(big=1)])
def quad_env_card_indicator(B, big):
    """value: biconjugate of card indicator + 1/2|.|^2 minus 1/2|.|^2; prox: global minimiser"""
    import numpy as np
    from contracts.util import qenv_card
    n = B.dim('n', 1, 7)
    r0 = int(B.rng.integers(1, n + 1))
    B.inputs['r0'] = r0
    tau, x = B.scalar('tau', pos=True), B.vec('x', 'n')
    if big:
        B.assume(tau >= 1)
    else:
        B.assume(tau < 0.98)
    if len(np.unique(np.abs(x))) < n and big:
        x = x + np.linspace(0, 0.01, n)
    f = B.P.QuadraticEnvelopeCardIndicator(r0)
    B.eq('value is the quadratic envelope', f(x), qenv_card(x, r0), 'P04', tol=1e-6)
    p = f.prox(x, tau)
    fp = tau * qenv_card(p, r0) + 0.5 * np.sum((p - x) ** 2)
    for w in B.competitors('w', x, near=[p, x]):
        B.le('prox is a global minimiser', fp, tau * qenv_card(w, r0) + 0.5 * np.sum((w - x) ** 2), 'P04', tol=1e-6)
    B.frames()
