"""P10: counters, schedules, caches, warm starts; repeatability of everything else."""
from vf.api import contract
from contracts.registry import OPS, SYM

WARM = {'L2_iterative_warm', 'L2_cgls'}          # keep a starting guess between calls
COUNTED = {'L1_scheduled', 'L0_scheduled', 'RelaxedMumfordShah_scheduled', 'L0Ball_scheduled'}
ITER = {'TV1', 'TV2', 'L2_iterative', 'L2_iterative_warm', 'L2_cg', 'L2_cgls', 'Quadratic', 'Nonlinear', 'AffineSet', 'Sum2', 'Sum3', 'Sum2_parallel',
        'GenericIntersection', 'NuclearBall', 'Intersection'}


# ------------------------------------------------------------------ schedules
def _make(B, op, s, k):
    if op == 'L1':
        return B.P.L1(s)
    if op == 'L1_shifted':
        return B.P.L1(s, g=B.g)
    if op == 'L0':
        return B.P.L0(s)
    if op == 'L0Ball':
        return B.P.L0Ball(s)
    if op == 'L10Ball':
        return B.P.L10Ball(2, s)
    return B.P.RelaxedMumfordShah(s, k)


SCH = [dict(op='L1'), dict(op='L1_shifted'), dict(op='L0'), dict(op='L0Ball'), dict(op='L10Ball'), dict(op='RMS', which='both'), dict(op='RMS', which='sigma'), dict(op='RMS', which='kappa')]


@contract('P10', 'L1.prox L1.__call__ L0.prox L0.__call__ L0Ball.prox L0Ball.__call__ L10Ball.prox L10Ball.__call__ RelaxedMumfordShah.prox RelaxedMumfordShah.__call__ _current_sigma _increment_count', cfgs=SCH)
def schedule(B, op, which='both'):
    """from any counter value: value at the current counter; a prox advances it by one and uses the schedule there"""
    s, k = B.func('radius', True) if 'Ball' in op else B.posfunc('sigma'), B.posfunc('kappa')
    b = dict(blocks=['k', 'k']) if op == 'L10Ball' else {}
    x, u, t, t2 = B.vec('x', **b), B.vec('u', **b), B.scalar('tau', pos=True), B.scalar('tau2', pos=True)
    if op == 'L1_shifted':
        B.g = B.vec('g')
    s0, k0 = B.scalar('sigma0', pos=True), B.scalar('kappa0', pos=True)

    def const(c):
        return _make(B, op, s(c) if which != 'kappa' else s0, k(c) if which != 'sigma' else k0)
    f = _make(B, op, s if which != 'kappa' else s0, k if which != 'sigma' else k0)
    B.same('starts at zero', f.count, 0)
    if B.sym or B.seed_mod(2):
        c = B.count('count', 0, 9)
        f.count = c
    else:
        c = 0
    B.eq('value at the current counter', f(x), const(c)(x))
    B.eq('value leaves the counter', f.count, c)
    p = f.prox(x, t)
    B.eq('prox advances the counter by one', f.count, c + 1)
    B.eq('prox uses the schedule at the advanced counter', p, const(c + 1).prox(x, t))
    B.eq('value after a prox', f(u), const(c + 1)(u))
    p = f.prox(u, t2)
    B.eq('the next prox advances by one again', f.count, c + 2)
    B.eq('the next prox uses the next entry', p, const(c + 2).prox(u, t2))
    B.eq('value afterwards', f(x), const(c + 2)(x))
    B.eq('value leaves the counter again', f.count, c + 2)


def _sched_real(B):
    """operators with a schedule r, the same operator with the constant c, and whether a dual prox advances the counter"""
    import numpy as np
    P = B.P
    n = 12
    x = B.vec('x', n)
    r = B.func('r', True)
    s, k = B.posfunc('sigma'), B.posfunc('kappa')
    g = B.vec('g', n)
    A = np.round(B.rng.normal(size=(n + 2, n)), 3)
    B.own('A', A)
    b = B.vec('b', n + 2)
    from vf.numstubs import _Free
    return {
        'L1': (lambda: P.L1(s), lambda c: P.L1(s(c))),
        'L1_shifted': (lambda: P.L1(s, g=g), lambda c: P.L1(s(c), g=g)),
        'L0': (lambda: P.L0(s), lambda c: P.L0(s(c))),
        'RMS': (lambda: P.RelaxedMumfordShah(s, k), lambda c: P.RelaxedMumfordShah(s(c), k(c))),
        'RMS_sigma': (lambda: P.RelaxedMumfordShah(s, 0.3), lambda c: P.RelaxedMumfordShah(s(c), 0.3)),
        'RMS_kappa': (lambda: P.RelaxedMumfordShah(0.3, k), lambda c: P.RelaxedMumfordShah(0.3, k(c))),
        'L0Ball': (lambda: P.L0Ball(r), lambda c: P.L0Ball(r(c))),
        'L10Ball': (lambda: P.L10Ball(2, r), lambda c: P.L10Ball(2, r(c))),
        'L10Ball3': (lambda: P.L10Ball(3, r), lambda c: P.L10Ball(3, r(c))),
        'L2_lsqr': (lambda: P.L2(Op=_Free(A), b=b, niter=r, warm=False), lambda c: P.L2(Op=_Free(A), b=b, niter=r(c), warm=False)),
        'L2_cg': (lambda: P.L2(Op=_Free(A), b=b, niter=r, warm=False, solver='cg', x0=g), lambda c: P.L2(Op=_Free(A), b=b, niter=r(c), warm=False, solver='cg', x0=g)),
        'L2_cgls': (lambda: P.L2(Op=_Free(A), b=b, niter=r, warm=False, solver='cgls', x0=g), lambda c: P.L2(Op=_Free(A), b=b, niter=r(c), warm=False, solver='cgls', x0=g)),
        'TV1': (lambda: P.TV(dims=(n,), niter=r, rtol=0.0), lambda c: P.TV(dims=(n,), niter=r(c), rtol=0.0)),
        'TV2': (lambda: P.TV(dims=(3, 4), niter=r, rtol=0.0), lambda c: P.TV(dims=(3, 4), niter=r(c), rtol=0.0)),
    }, x


NAMES = ['L1', 'L1_shifted', 'L0', 'RMS', 'RMS_sigma', 'RMS_kappa', 'L0Ball', 'L10Ball', 'L10Ball3', 'L2_lsqr', 'L2_cg', 'L2_cgls', 'TV1', 'TV2']


@contract('P10', 'every operator with a scheduled parameter', cfgs=[dict(op=o) for o in NAMES], num_only=True, ncases=12)
def schedule_real(B, op):
    """bounded: random histories of value and prox calls, on the operator and through a composite"""
    import numpy as np
    ops, x = _sched_real(B)
    mk, const = ops[op]
    f = mk()
    B.same('starts at zero', f.count, 0)
    wrap = B.seed_mod(4)
    g = {0: f, 1: 1.0 * f, 2: f.precomposition(1.0, 0.0), 3: f + np.zeros(x.size)}[wrap]
    c = 0
    for _ in range(int(B.rng.integers(4, 16))):
        u = B._draw(x.size)
        if op in ('L0Ball', 'L10Ball', 'L10Ball3'):
            # points with as many nonzeros as the schedule allows somewhere
            u[np.argsort(B.rng.random(x.size))[int(B.rng.integers(1, 6)) * (1 if op == 'L0Ball' else 2):]] = 0.0
        t = float(B.rng.uniform(0.2, 2.0))
        if B.rng.random() < 0.4:
            B.eq('value at the current counter', float(g(u)), float(const(c)(u)), tol=1e-9)
            B.same('value leaves the counter', f.count, c)
        elif B.rng.random() < 0.15 and f.hasgrad:
            f.grad(u)
            B.same('grad leaves the counter', f.count, c)
        else:
            p = g.prox(u, t)
            c += 1
            B.same('prox advances the counter by one', f.count, c)
            B.eq('prox uses the schedule at the advanced counter', p.ravel(), const(c).prox(u, t).ravel(), tol=1e-9)


# ------------------------------------------------------------------ caches
@contract('P10', 'L2.prox L2.__init__', cfgs=[dict(q=False), dict(q=True)], ncases=16)
def factorization(B, q):
    """whatever steps came before, the factorised solve returns what a fresh operator returns, and is left in the same state"""
    A, b = B.linop('A', explicit=True), B.vec('b', 'm')
    kw = dict(Op=A, b=b, sigma=B.scalar('sigma', pos=True), densesolver='factorize', warm=False)
    if q:
        kw.update(q=B.vec('q'), alpha=B.scalar('alpha'))
    x = [B.vec('x%d' % i) for i in range(3)]
    t = [B.scalar('tau%d' % i, pos=True) for i in range(3)]
    if not B.sym and B.seed_mod(3):
        # repeated and alternating steps
        t[1 + B.seed_mod(2)] = t[0]
    f = B.P.L2(**kw)
    f.prox(x[0], t[0])
    p = f.prox(x[1], t[1])
    g = B.P.L2(**kw)
    B.eq('after one step: as a fresh operator', p, g.prox(x[1], t[1]))
    B.hint_state('state after one other step: as after this step alone', f, g, skip=('count', 'x0'))
    f(x[0])
    f.grad(x[0])
    p = f.prox(x[2], t[2])
    g = B.P.L2(**kw)
    B.eq('after two steps: as a fresh operator', p, g.prox(x[2], t[2]))
    d = dict(kw)
    d['densesolver'] = None
    B.eq('the factorised solve is the plain dense solve', p, B.P.L2(**d).prox(x[2], t[2]))


# ------------------------------------------------------------------ warm starts
WC = [dict(op=o, warm=w, sched=s) for o in ('legacy', 'cg', 'cgls') for w in (True, False) for s in (False, True)] + [dict(op='Quadratic', warm=w) for w in (True, False)]


@contract('P10', 'L2.prox Quadratic.prox', cfgs=WC, ncases=8)
def warm_start(B, op, warm, sched=False):
    """the guess handed to the iterative solver is the stored one, which is replaced by the solution only when asked for; the
    inner iteration count is the schedule at the advanced counter"""
    if op == 'Quadratic':
        f, x = OPS['Quadratic'](B)
        f.warm, x0, N = warm, f.x0, f.niter
    u, t, t2 = B.vec('u'), B.scalar('tau', pos=True), B.scalar('tau2', pos=True)
    if op != 'Quadratic':
        x, x0 = B.vec('x'), B.vec('x0')
        N = B.func('niter', True) if sched else 9
        f = B.P.L2(Op=B.linop('A'), b=B.vec('b', 'm'), sigma=B.scalar('sigma', pos=True), x0=x0, niter=N, warm=warm, solver=op)
    c = 0
    if sched:
        B.same('starts at zero', f.count, 0)
        c = f.count = B.count('count', 0, 9)
    log = B.solver_log()
    f(x)
    f.grad(x)
    B.same('no solve for value and gradient', len(log), 0)
    p = f.prox(x, t)
    B.same('one solve', len(log), 1)
    B.eq('the solve starts from the given guess', log[0]['x0'], x0)
    B.eq('inner iterations', log[0]['niter'], N(c + 1) if sched else N)
    B.eq('guess kept', f.x0, p if warm else x0)
    f(u)
    f.grad(u)
    p2 = f.prox(u, t2)
    B.same('one more solve', len(log), 2)
    B.eq('start of the next solve', log[1]['x0'], p if warm else x0)
    B.eq('inner iterations of the next solve', log[1]['niter'], N(c + 2) if sched else N)
    B.eq('guess kept afterwards', f.x0, p2 if warm else x0)
    if sched:
        B.eq('counter', f.count, c + 2)
    f.proxdual(u, t)
    B.eq('dual prox starts from the stored guess', log[2]['x0'], p2 if warm else x0)


@contract('P10 P03', 'Nonlinear.prox Nonlinear.__call__ Nonlinear._funprox Nonlinear._gradprox Nonlinear._fungradprox Nonlinear.fungrad',
          cfgs=[dict(warm=w, niter=k) for w in (True, False) for k in (1, 10)], ncases=10)
def nonlinear_warm(B, warm, niter):
    """the optimiser, an arbitrary function of what it can observe, sees f(u) + |u - y|^2 / (2 tau) with its gradient and starts at the stored
    guess, which is replaced by the solution only when asked for"""
    base = B.mod('proximal.Nonlinear').Nonlinear
    f, probe, inner, np = B.prox('f'), B.vec('probe'), B.vfun('optimize'), B.np
    seen = []

    class NL(base):
        def fun(self, u):
            return f(u)

        def grad(self, u):
            return f.grad(u)

        def optimize(self):
            v, g = self._fungradprox(probe, self.tau)
            B.eq('value of the subproblem', v, self._funprox(probe, self.tau))
            B.eq('gradient of the subproblem', g, self._gradprox(probe, self.tau))
            B.same('iteration limit', self.niter, niter)
            seen.append((v, g, self.x0))
            return inner(g, self.x0)
    x0 = B.vec('x0')
    P = NL(x0=x0, niter=niter, warm=warm)
    start = x0
    for i in range(3):
        x, t = B.vec('u%d' % i), B.scalar('tau%d' % i, pos=True)
        p = P.prox(x, t)
        B.same('one optimisation per call', len(seen), i + 1)
        v, g, s = seen[-1]
        B.eq('objective of the subproblem', v, f(probe) + np.dot(probe - x, probe - x) / (2 * t), 'P03')
        B.eq('gradient of the objective', g, f.grad(probe) + (probe - x) / t, 'P03')
        B.eq('starts at the stored guess', s, start)
        B.eq('the result of the optimisation is returned', p, inner(f.grad(probe) + (probe - x) / t, start))
        if warm:
            start = p
        B.eq('stored guess afterwards', P.x0, start)
        P(x)
        P.grad(x)
        B.eq('value and gradient leave the guess', P.x0, start)
    B.frames()


# ------------------------------------------------------------------ everything else is a function of its arguments
@contract('P10', 'every operator with constant parameters', cfgs=[dict(op=n) for n in sorted(SYM - COUNTED - {'Log'})], ncases=4)
def repeatable(B, op):
    """the result of a call does not depend on the calls before it"""
    f, x = OPS[op](B)
    u = B.np.copy(x) * 2 + 1
    t, t2 = B.scalar('tau', pos=True), B.scalar('tau2', pos=True)
    if op == 'SCAD':
        B.assume(B.both(t < f.a - 1, t2 < f.a - 1))
    before = B.snapshot(f)
    p, v = f.prox(x, t), f(x)
    p = B.np.copy(p)
    d = B.np.copy(f.proxdual(x, t)) if op != 'SCAD' else None
    f(u)
    f.prox(u, t2)
    if op != 'SCAD':
        f.proxdual(u, t2)
    if op != 'chained':
        f.grad(u)
    tol = 1e-3 if op == 'Quadratic' else 1e-5 if op in ITER else 1e-10
    B.eq('prox is the same again', f.prox(x, t), p, tol=tol)
    B.eq('value is the same again', f(x), v, tol=tol)
    if d is not None:
        B.eq('dual prox is the same again', f.proxdual(x, t), d, tol=tol)
    if op not in WARM and op not in ('Quadratic', 'L2_dense', 'L2_factorized'):
        B.hint_state('state after the calls as before', f, before, skip=('count',))


@contract('P10', 'every operator with constant parameters', cfgs=[dict(op=n) for n in sorted(set(OPS) - COUNTED)], num_only=True, ncases=12)
def repeatable_real(B, op):
    """bounded: random histories against a fresh operator"""
    import numpy as np
    f, x = OPS[op](B)
    tol = 1e-3 if op == 'Quadratic' else 1e-4 if op in ITER else 1e-9
    if op in ('Log1', 'ETP', 'Geman', 'Log', 'L0', 'SCAD'):
        x = np.round(x, 2)
    import copy
    g = copy.deepcopy(f)
    shp = x.shape
    with np.errstate(all='ignore'):
        for _ in range(int(B.rng.integers(1, 8))):
            u = B._draw(x.size).reshape(shp)
            t = float(B.rng.choice([0.3, 0.5, 1.1]))
            m = B.rng.integers(0, 4)
            try:
                (f.prox(u, t) if m == 0 else f.proxdual(u, t) if m == 1 else f(u) if m == 2 else f.grad(u))
            except (ValueError, NotImplementedError, TypeError):
                pass
        t = float(B.rng.choice([0.3, 0.5, 1.1]))
        B.eq('value as that of a fresh operator', f(x), g(x), tol=tol)
        B.eq('prox as that of a fresh operator', f.prox(x, t), g.prox(x, t), tol=tol)
