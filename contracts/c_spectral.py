"""P06 (and P02, P09): operators on singular values."""
from vf.api import contract
from contracts.util import qenv_card

SHAPES = [(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (3, 3), (2, 5), (4, 2)]


def mat(B, name, cplx=None, wide=True):
    """a matrix of some shape (also rank deficient, with repeated singular values, complex), flattened"""
    if B.sym:
        from vf import spectral
        n, e = B.dim('n'), B.dim('e', lo=0)
        dim = (n, n + e) if wide else (n + e, n)
        v = spectral.matrix(B.C, B.fresh_name(name), dim)
        B.owned.append((name, v))
        return v, dim
    import numpy as np
    n, m = SHAPES[B.seed % len(SHAPES)]
    k = min(n, m)
    B.inputs['shape'] = (n, m)
    cplx = bool((B.seed // 8) % 2) if cplx is None else cplx

    def g(*s):
        z = B.rng.normal(size=s)
        return z + 1j * B.rng.normal(size=s) if cplx else z
    st = int(B.rng.integers(0, 5))
    if st == 0:
        X = np.round(g(n, m) * 2) / 2
    elif st == 1:
        X = g(n, 1) @ g(1, m)
    elif st == 2:
        q, _ = np.linalg.qr(g(max(n, m), max(n, m)))
        s = np.array([1.5, 1.5, 0.5, 0.5])[:k]
        X = (q[:n, :k] * s) @ np.linalg.qr(g(m, m))[0][:k]
    elif st == 3:
        U, s, Vh = np.linalg.svd(g(n, m), full_matrices=False)
        X = (U * (s[0] * 10.0 ** (-1.2 * np.arange(k) * (1 + B.rng.random())))) @ Vh
    else:
        X = g(n, m) * float(B.rng.choice([0.3, 1.0, 3.0]))
    return B.own(name, np.ascontiguousarray(X.ravel())), (n, m)


def spec(B, x, dim):
    """singular values of the matrix and the map d -> U diag(d) V^H, flattened"""
    if B.sym:
        from vf import spectral, core
        r, c = spectral.decompose(x.reshape(dim))
        return core.V.of(core.vatom(r.s).scale(core.S(c))), lambda d: core.V.of(r.op.base_matvec(d.vals[0]))
    U, s, Vh = spectrum(x.reshape(dim))
    return s, lambda d: rebuild(U, d, Vh)


def samelen(B, p, x):
    if B.sym:
        B.eq('flattened result of the same length', p.size, x.size)
        B.same('one-dimensional result', p.ndim, 1)
    else:
        B.same('flattened result of the same length', p.shape == x.shape, True)


WIDE = (True, False)


@contract('P06 P09 P02', 'Nuclear.__init__ Nuclear.prox Nuclear.__call__ ProxOperator._proxdual_moreau', ncases=24,
          cfgs=[dict(w=w, wide=d) for w in ('scalar', 'weights', 'longer', 'single') for d in WIDE])
def nuclear(B, w, wide):
    x, dim = mat(B, 'x', wide=wide)
    k = dim[0] if B.sym and wide else dim[1] if B.sym else min(dim)
    t = B.scalar('tau', pos=True)
    if w == 'scalar':
        sg = ws = B.scalar('sigma', pos=True)
    elif w == 'single':
        sg = B.vec('sigma', 1, pos=True)
        ws = sg[0]
    elif w == 'weights':
        sg = ws = B.vec('sigma', k, pos=True)
    else:
        sg = B.vec('sigma', blocks=[k, 'extra'], pos=True)
        ws = sg[:k]
    s, back = spec(B, x, dim)
    f = B.P.Nuclear(dim, sg)
    B.eq('value: weighted sum of the singular values', f(x), B.np.sum(ws * s), tol=1e-6)
    p = f.prox(x, t)
    samelen(B, p, x)
    B.eq('soft threshold of the singular values, same singular vectors', p, back(B.np.maximum(s - t * ws, 0)))
    if w == 'scalar':
        B.eq('dual prox clips the singular values', f.proxdual(x, t), back(B.np.minimum(s, sg)))
        B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', f.prox(x, t) + t * f.proxdual(x / t, 1.0 / t), x, 'P02')
    B.frames()


@contract('P06', 'Nuclear.prox Nuclear.__call__', cfgs=[dict(wide=d) for d in WIDE], sym_only=True, replay='nuclear_real')
def nuclear_minimiser(B, wide):
    """against every matrix Y, through Z = U^H Y V: sum |diag Z| <= |Y|_* (assumed) and |diag Z| <= |Y|"""
    from vf import core
    x, dim = mat(B, 'x', wide=wide)
    t, sg = B.scalar('tau', pos=True), B.scalar('sigma', pos=True)
    s, back = spec(B, x, dim)
    f = B.P.Nuclear(dim, sg)
    p = f.prox(x, t)
    y = next(B.competitors('y', x))
    d = B.np.maximum(s - t * sg, 0)
    fp = f(p)
    B.C.pc.append(core.z(fp) == core.z(sg * B.np.sum(d)))
    B.C.assumed.add('|U diag(d) V^H|_* = sum(d) for orthonormal U, V and d >= 0')
    zz = next(B.competitors('z', s))
    g = lambda v: t * sg * B.np.sum(abs(v)) + core.vnorm2(v - s) / 2
    B.fact_le('soft threshold minimises over the singular values', g(d), g(zz))
    zv = diag_of(B, x, dim, y)
    fy = f(y)
    B.C.pc.append(core.z(sg * B.np.sum(abs(zv))) <= core.z(fy))
    B.C.assumed.add('sum |diag(U^H Y V)| <= |Y|_* for orthonormal U, V')
    B.C.pc.append(core.z(core.vnorm2(y - back(zv))) >= 0)
    B.C.pc.append(core.z(g(d)) <= core.z(g(zv)))       # the fact above at z = diag(U^H Y V)
    B.le('prox minimises', t * fp + core.vnorm2(p - x) / 2, t * fy + core.vnorm2(y - x) / 2)


def diag_of(B, x, dim, y):
    from vf import core, spectral
    r, c = spectral.decompose(x.reshape(dim))
    return core.V.of(r.op.base_rmatvec(y.vals[0]))


PENS = ('abstract', 'L1', 'Huber', 'L2', 'Euclidean', 'SCAD', 'QuadraticEnvelopeCard')


@contract('P06 P09 P02', 'SingularValuePenalty.__init__ SingularValuePenalty.prox SingularValuePenalty.__call__', cfgs=[dict(pen=p, wide=d) for p in PENS for d in WIDE], sym_only=True, replay='singular_value_penalty_real')
def singular_value_penalty(B, pen, wide):
    x, dim = mat(B, 'x', wide=wide)
    a, t = B.scalar('a', pos=True), B.scalar('tau', pos=True)
    if pen == 'SCAD':
        B.assume(t < 5)
    g = B.prox('g', symmetric=True) if pen == 'abstract' else PEN[pen](B.P, a, None)
    f = B.P.SingularValuePenalty(dim, g)
    s, back = spec(B, x, dim)
    B.eq('value: the penalty at the singular values', f(x), g(s))
    p = f.prox(x, t)
    samelen(B, p, x)
    B.eq('prox of the penalty at the singular values, same singular vectors', p, back(g.prox(s, t)))
    B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', f.prox(x, t) + t * f.proxdual(x / t, 1.0 / t), x, 'P02')
    B.frames()


@contract('P06 P09', 'NuclearBall.__init__ NuclearBall.prox NuclearBall.__call__ NuclearBallProj.__init__ NuclearBallProj.__call__', cfgs=[dict(wide=d) for d in WIDE], sym_only=True, replay='nuclear_ball_real')
def nuclear_ball(B, wide):
    """the projection on the l1 ball (contracts of P05) at the singular values"""
    x, dim = mat(B, 'x', wide=wide)
    k = dim[1] if B.cond(dim[1] < dim[0]) else dim[0]       # python's min
    r, t = B.scalar('radius', pos=True), B.scalar('tau', pos=True)
    s, back = spec(B, x, dim)
    proj = B.vfun('l1ball')
    B.stub('projection.Nuclear', 'L1BallProj', lambda B, a: lambda v: proj(v, a['n'], a['radius']), None)
    f = B.P.NuclearBall(dim, r)
    p = f.prox(x, t)
    samelen(B, p, x)
    d = proj(s, k, r)
    B.eq('the singular values projected on the l1 ball, same singular vectors', p, back(d))
    B.eq('projection', B.mod('projection').NuclearBallProj(k, r)(x.reshape(dim)).ravel(), back(d))
    tol = B.scalar('tol', pos=True)
    B.eq('accepts exactly the matrices of nuclear norm below the radius plus the tolerance', f(x, tol=tol), B.np.sum(s) - r < tol)
    B.frames()


def spectrum(X):
    import numpy as np
    U, s, Vh = np.linalg.svd(X, full_matrices=False)
    return U, s, Vh


def rebuild(U, s, Vh):
    return ((U * s) @ Vh).ravel()


def soft(s, t):
    import numpy as np
    return np.maximum(s - t, 0)


def spec_min(B, label, value, x, dim, tau, p):
    """p minimises tau value + 1/2 |. - x|^2 against matrices of every kind"""
    import numpy as np
    fp = tau * value(p) + 0.5 * np.sum(np.abs(p - x) ** 2)
    cands = [x, 0 * x]
    for sc in (1e-3, 1e-2, 0.1, 1.0):
        d = B.rng.normal(size=x.size) + (1j * B.rng.normal(size=x.size) if np.iscomplexobj(x) else 0)
        cands += [p + sc * d, p * (1 + sc), p * (1 - sc)]
    for w in cands:
        fw = tau * value(w) + 0.5 * np.sum(np.abs(w - x) ** 2)
        B.le(label, float(fp), float(fw), tol=1e-7)


@contract('P06 P09', 'Nuclear.__init__ Nuclear.prox Nuclear.__call__', cfgs=[dict(w='scalar'), dict(w='weights'), dict(w='single'), dict(w='longer')], num_only=True, narrow=True, ncases=32)
def nuclear_real(B, w):
    """bounded"""
    import numpy as np
    x, dim = mat(B, 'x')
    k = min(dim)
    t = B.scalar('tau', pos=True)
    if w == 'scalar':
        sg = B.scalar('sigma', pos=True)
    elif w == 'single':
        sg = B.own('sigma', np.array([B.scalar('s', pos=True)]))
    else:
        sg = B.own('sigma', np.abs(B._draw(k + (2 if w == 'longer' else 0) + (k == 1))) + 0.05)
    f = B.P.Nuclear(dim, sg)
    ws = np.asarray(sg)[:k] if np.size(sg) > 1 else np.ravel(sg)
    U, s, Vh = spectrum(x.reshape(dim))
    B.eq('value: weighted sum of the singular values', f(x), float(np.sum(ws * s)), tol=1e-6)
    p = f.prox(x, t)
    B.same('flattened result of the same length', p.shape == x.shape, True)
    B.eq('soft threshold of the singular values, same singular vectors', p, rebuild(U, soft(s, t * ws), Vh))
    if w == 'scalar':
        spec_min(B, 'prox minimises', lambda q: sg * np.sum(np.linalg.svd(q.reshape(dim), compute_uv=False)), x, dim, t, p)
        B.eq('Moreau', f.prox(x, t) + t * f.proxdual(x / t, 1.0 / t), x)
        q = f.proxdual(x, t)
        B.eq('dual prox clips the singular values', q, rebuild(U, np.minimum(s, sg), Vh))
    B.frames()


PEN = {
    'L1': lambda P, a, b: P.L1(a), 'SCAD': lambda P, a, b: P.SCAD(a, 6.0), 'Log': lambda P, a, b: P.Log(a, 1.0 + b), 'Log1': lambda P, a, b: P.Log1(a, 0.5),
    'ETP': lambda P, a, b: P.ETP(a, 0.7), 'Geman': lambda P, a, b: P.Geman(a, 1.3), 'QuadraticEnvelopeCard': lambda P, a, b: P.QuadraticEnvelopeCard(a),
    'QuadraticEnvelopeCardIndicator': lambda P, a, b: P.QuadraticEnvelopeCardIndicator(2), 'Huber': lambda P, a, b: P.Huber(a), 'L2': lambda P, a, b: P.L2(sigma=a),
    'Euclidean': lambda P, a, b: P.Euclidean(a), 'L0': lambda P, a, b: P.L0(a), 'L0Ball': lambda P, a, b: P.L0Ball(1), 'L1Ball': lambda P, a, b: P.L1Ball(None, a),
    'Simplex': None,
}


@contract('P06 P09', 'SingularValuePenalty.__init__ SingularValuePenalty.prox SingularValuePenalty.__call__', cfgs=[dict(pen=p) for p in sorted(PEN) if PEN[p]], num_only=True, narrow=True, ncases=24)
def singular_value_penalty_real(B, pen):
    """bounded: every penalty of the package that makes sense on singular values"""
    import numpy as np
    x, dim = mat(B, 'x')
    a, t = B.scalar('a', pos=True), B.scalar('tau', pos=True)
    if pen == 'SCAD':
        B.assume(t < 4.5)
    if pen == 'ETP':
        B.assume(a * 0.7 * t < 1)
    if pen == 'L1Ball':
        g = B.P.L1Ball(min(dim), a)
    else:
        g = PEN[pen](B.P, a, B.scalar('b', pos=True))
    f = B.P.SingularValuePenalty(dim, g)
    U, s, Vh = spectrum(x.reshape(dim))
    if pen not in ('L0', 'L0Ball', 'L1Ball'):
        B.eq('value: the penalty at the singular values', f(x), float(np.sum(g(s))), tol=1e-5)
    d = g.prox(s, t)
    gap = s.size < 2 or pen not in ('L0', 'L0Ball', 'QuadraticEnvelopeCard', 'QuadraticEnvelopeCardIndicator', 'Log', 'Geman', 'Log1', 'ETP') or \
        (np.min(-np.diff(s)) > 1e-6 and np.max(np.abs(g.prox(s * (1 + 1e-9), t) - d)) < 1e-6)
    p = f.prox(x, t)
    B.same('flattened result of the same length', p.shape == x.shape, True)
    if gap:
        B.eq('prox of the penalty at the singular values, same singular vectors', p, rebuild(U, d, Vh), tol=1e-6)
    B.frames()


@contract('P06 P09', 'NuclearBall.__init__ NuclearBall.prox NuclearBall.__call__ NuclearBallProj.__call__', num_only=True, narrow=True, ncases=120)
def nuclear_ball_real(B):
    """bounded"""
    import numpy as np
    x, dim = mat(B, 'x')
    r = B.scalar('radius', pos=True)
    U, s, Vh = spectrum(x.reshape(dim))
    if B.rng.random() < 0.4 and s.sum() > 0:
        r = B.inputs['radius'] = float(s.sum() * B.rng.choice([1.2, 3.0, 0.99]))
    f = B.P.NuclearBall(dim, r)
    if s.sum() <= r:
        d = s
    else:
        u = np.sort(s)[::-1]
        c = (np.cumsum(u) - r) / np.arange(1, u.size + 1)
        th = c[np.nonzero(u > c)[0][-1]]
        d = soft(s, th)
    p = f.prox(x, B.scalar('tau', pos=True))
    B.same('flattened result of the same length', p.shape == x.shape, True)
    B.eq('the singular values projected on the l1 ball, same singular vectors', p, rebuild(U, d, Vh), tol=1e-4)
    B.eq('projection', B.mod('projection').NuclearBallProj(min(dim), r)(x.reshape(dim)).ravel(), rebuild(U, d, Vh), tol=1e-4)
    B.same('accepts the projection', f(p, tol=1e-3), True)
    if s.sum() < r * (1 - 1e-6):
        B.eq('points inside stay', p, x, tol=1e-9)
        B.same('accepts points inside', f(x), True)
    if s.sum() > r + 1e-3:
        B.same('rejects points outside', f(x), False)
    B.frames()


def rank_env(X, r0):
    import numpy as np
    return qenv_card(np.linalg.svd(X, compute_uv=False), r0)


@contract('P06 P09', 'QuadraticEnvelopeRankL2.__init__ QuadraticEnvelopeRankL2.prox', num_only=True, narrow=True, ncases=48)
def rank_envelope_real(B):
    """bounded: the prox is the documented minimiser; it acts on the singular values of (M + x/tau)/(1 + 1/tau)"""
    import numpy as np
    x, dim = mat(B, 'x', cplx=False)
    M = B.own('M', (B._draw(x.size)).reshape(dim))
    r0, t = B.count('r0', 1, 4), B.scalar('tau', pos=True)
    f = B.P.QuadraticEnvelopeRankL2(dim, r0, M)
    p = f.prox(x, t)
    B.same('flattened result of the same length', p.shape == x.shape, True)

    def value(q):
        Q = q.reshape(dim)
        return rank_env(Q, r0) + 0.5 * np.sum((Q - M) ** 2)
    spec_min(B, 'prox minimises', value, x, dim, t, p)
    # candidates sharing the singular vectors of the data
    U, s, Vh = spectrum((M + x.reshape(dim) / t) / (1 + 1 / t))
    fp = t * value(p) + 0.5 * np.sum((p - x) ** 2)
    for _ in range(12):
        d = s * (B.rng.random(s.size) < 0.7) * B.rng.uniform(0.5, 1.5, s.size)
        w = rebuild(U, d, Vh)
        B.le('prox minimises among matrices with the same singular vectors', fp, t * value(w) + 0.5 * np.sum((w - x) ** 2))
    core = U.T @ p.reshape(dim) @ Vh.T
    if np.all(np.abs(np.diff(s)) > 1e-6) and s[-1] > 1e-6:
        # P + tau (M - Z) with Z = U diag Vh : P + tau M = (1 + tau) Y shares the singular vectors
        B.eq('singular vectors kept', p, (U @ np.diag(np.diag(core)) @ Vh).ravel(), tol=1e-6)
    B.frames()


@contract('P06 P09', 'QuadraticEnvelopeRankL2.__call__', num_only=True, narrow=True, ncases=32)
def rank_envelope_value(B):
    """bounded: the envelope at the singular values plus the misfit term (whose power is a recorded finding)"""
    import numpy as np
    x, dim = mat(B, 'x', cplx=False)
    M = B.own('M', x.reshape(dim) + (0 if B.seed % 3 == 0 else B._draw(x.size).reshape(dim)))
    r0 = B.count('r0', 1, 4)
    v = B.P.QuadraticEnvelopeRankL2(dim, r0, M)(x)
    R, d = rank_env(x.reshape(dim), r0), np.linalg.norm(x.reshape(dim) - M)
    # the code takes square roots of eigenvalues: half of the digits
    t = 1e-6 * (1 + abs(v) + np.linalg.norm(x) ** 2)
    if abs(v - (R + 0.5 * d)) > t:
        B.eq('value: envelope plus misfit', v, R + 0.5 * d ** 2, tol=t)
    B.frames()


@contract('P06', 'QuadraticEnvelopeRankL2.__call__', num_only=True, narrow=True, ncases=1)
def rank_envelope_value_at(B):
    """the recorded input"""
    import numpy as np
    v = B.P.QuadraticEnvelopeRankL2((2, 2), 1, np.zeros((2, 2)))(np.array([2.0, 0.0, 0.0, 0.0]))
    B.eq('misfit term squared at diag 2 0', v, 2.0)
