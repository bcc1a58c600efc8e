"""P01: non-positive steps are refused, positive steps accepted."""
from vf.api import contract
from contracts import registry
from contracts.registry import OPS as ALL, SYM

STORED = {'derived_moreau_stored', 'derived_dual_stored'}      # test doubles without a guard of their own
OPS = {k: v for k, v in ALL.items() if k not in STORED}

UNBUILDABLE = {'Intersection', 'L2Convolve', 'L2Convolve_2d', 'VStack_restr'}   # constructors outside the subset: concrete runs only


def accepts(B, label, fn):
    """the call is not refused for the sign of its step (it may fail for another reason, e.g. a step array it cannot use)"""
    msg = None
    try:
        fn()
    except ValueError as e:
        msg = str(e)
    except Exception as e:
        if not B.sym and not isinstance(e, (TypeError, IndexError, ValueError, NotImplementedError)):
            raise
        if B.sym:
            raise
    B.same(label, bool(msg is not None and 'positive' in msg), False)


@contract('P01', '_check_tau', cfgs=[dict(k='scalar'), dict(k='array'), dict(k='blocks'), dict(k='int')], ncases=40)
def check_tau(B, k):
    """the guard itself: refuses exactly when some entry is not positive, otherwise hands every argument on"""
    guard = B.mod('ProxOperator')._check_tau
    x = B.vec('x')
    tau = {'scalar': lambda: B.scalar('tau'), 'array': lambda: B.vec('tau'), 'blocks': lambda: B.smallvec('tau', 3),
           'int': lambda: B.count('tau', -2, 2)}[k]()
    y, me = B.vec('y'), object()
    calls = []

    def func(*a, **kw):
        calls.append((a, kw))
        return y
    g = guard(func)
    if B.cond(B.all(tau > 0) if k in ('array', 'blocks') else tau > 0):
        r = g(me, x, tau, w=3)
        B.same('the result is the result of the method', r, y)
        B.same('called once', len(calls), 1)
        (a, kw), = calls
        B.same('arguments handed on', len(a) == 3 and a[0] is me and a[1] is x and a[2] is tau and kw == {'w': 3}, True)
    else:
        B.raises('refused', ValueError, lambda: g(me, x, tau, w=3))
        B.same('the method did not run', len(calls), 0)


@contract('P01', 'every prox and proxdual of the package and the guard on it', cfgs=[dict(op=n) for n in sorted(set(OPS) - UNBUILDABLE)], ncases=8)
def step_sign(B, op):
    f, x = OPS[op](B)
    neg = B.scalar('tau_nonpositive', hi=0) if B.seed_mod(3) else 0.0
    for m in ('prox', 'proxdual'):
        B.raises('%s refuses a non-positive step' % m, ValueError, lambda: getattr(f, m)(x, neg))
        B.raises('%s refuses a zero step' % m, ValueError, lambda: getattr(f, m)(x, 0.0))
    h = f.H
    for m in ('prox', 'proxdual'):
        B.raises('adjoint: %s refuses a non-positive step' % m, ValueError, lambda: getattr(h, m)(x, neg))


@contract('P01', 'every prox and proxdual of the package and the guard on it', cfgs=[dict(op=n) for n in sorted(set(OPS) - UNBUILDABLE)], ncases=4)
def step_sign_array(B, op):
    f, x = OPS[op](B)
    t = B.vec('tau_array')
    B.assume(B.not_(B.all(t > 0)))
    for m in ('prox', 'proxdual'):
        B.raises('%s refuses an array step with a non-positive entry' % m, ValueError, lambda: getattr(f, m)(x, t))
    t2 = B.smallvec('tau_two', 2)
    B.assume(B.any(t2[0] <= 0, t2[1] <= 0))
    for m in ('prox', 'proxdual'):
        B.raises('%s refuses a two-entry step with a non-positive entry' % m, ValueError, lambda: getattr(f, m)(x, t2))


@contract('P01', 'every prox and proxdual of the package and the guard on it', cfgs=[dict(op=n) for n in sorted(SYM - STORED - {'Log'})], ncases=4)
def step_accept(B, op):
    f, x = OPS[op](B)
    t = B.scalar('tau', pos=True)
    if op == 'SCAD':
        B.assume(t < f.a - 1)
    for m in ('prox', 'proxdual'):
        if op == 'SCAD' and m == 'proxdual':
            continue
        accepts(B, '%s accepts a positive step' % m, lambda: getattr(f, m)(x, t))


DERIVED = ['itself', 'adjoint', 'plus', 'minus', 'scaled', 'scaled_negative', 'precomposed', 'chained', 'chained2', 'stack', 'orthogonal', 'sum', 'sum3',
           'twice']


def derive(B, f, x, d, v):
    import numpy as np
    import pylops
    P = B.P
    if d == 'itself':
        return f, x
    if d == 'adjoint':
        return f.H, x
    if d == 'plus':
        return f + v, x
    if d == 'minus':
        return f - v, x
    if d == 'scaled':
        return 1.5 * f, x
    if d == 'scaled_negative':
        return -1.5 * f, x
    if d == 'precomposed':
        return f.precomposition(-0.5, 0.25), x
    if d == 'chained':
        return f.chain(P.L1(0.3)), x
    if d == 'chained2':
        return P.L1(0.3).chain(f), x
    if d == 'stack':
        return P.VStack([P.L1(0.3), f], nn=[x.size, x.size]), np.concatenate([v, x.ravel()])
    if d == 'orthogonal':
        return P.Orthogonal(f, pylops.Identity(x.size)), x
    if d == 'sum':
        return P.Sum([f, P.L1(0.3)], niter=2), x
    if d == 'sum3':
        return P.Sum([f, P.L1(0.3), P.L2()], niter=2), x
    if d == 'twice':
        return 2.0 * (f.H + v), x


@contract('P01', 'every operator of the package, itself and under every derivation', cfgs=[dict(op=n) for n in sorted(OPS)], num_only=True, ncases=10)
def step_sign_real(B, op):
    """bounded: concrete steps on every operator and every operator derived from it"""
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    f, x = OPS[op](B)
    v = B.vec('shift', x.size)
    d = DERIVED[B.seed % len(DERIVED)] if B.seed % 3 else 'itself'
    B.inputs['derived'] = d
    if d not in ('itself', 'adjoint', 'scaled_negative', 'scaled') and x.ndim > 1:
        d = 'itself'
    if d in ('scaled', 'scaled_negative', 'twice') and op == 'Quadratic_linear' and False:
        d = 'itself'
    g, y = derive(B, f, x, d, v)
    n = y.size
    bad = [0.0, -0.0, -1.0, -1e-12, 0, -3, np.float64(-2.0), float('-inf')]
    arr = np.abs(B._draw(n)) + 0.1
    arrs = []
    for val in (0.0, -0.5):
        a = arr.copy()
        a[int(B.rng.integers(0, n))] = val
        arrs.append(a)
    arrs += [-arr, np.zeros(n), np.array([0.5, -0.25]), np.array([-0.5, 0.25]), np.array([0.0]), np.array([1, 0])]
    for m in ('prox', 'proxdual'):
        for t in bad:
            B.raises('%s refuses %r' % (m, t), ValueError, lambda: getattr(g, m)(y.copy(), t))
        for t in arrs:
            B.raises('%s refuses an array with a non-positive entry' % m, ValueError, lambda: getattr(g, m)(y.copy(), t))
        if d == 'scaled_negative':
            continue
        for t in (0.4, 1e-6, 1, np.float32(0.75)):
            accepts(B, '%s accepts %r' % (m, t), lambda: getattr(g, m)(y.copy(), t))
        with np.errstate(all='ignore'):
            accepts(B, '%s accepts a positive array' % m, lambda: getattr(g, m)(y.copy(), arr))
            accepts(B, '%s accepts a positive pair' % m, lambda: getattr(g, m)(y.copy(), np.array([0.5, 0.25])))


@contract('P01', '_Simplex_cuda.prox', num_only=True, ncases=4)
def step_sign_cuda(B):
    """bounded: the guard of the cuda engine, which refuses before any device code runs"""
    import numpy as np
    f = B.mod('proximal.Simplex')._Simplex_cuda(6, 1.0, dims=(2, 3), axis=1)
    x = B.vec('x', 6)
    for t in (0.0, -1.0, np.array([1.0, 0.0]), np.array([-1.0, 1.0])):
        B.raises('refuses %r' % (t,), ValueError, lambda: f.prox(x, t))
        B.raises('dual refuses %r' % (t,), ValueError, lambda: f.proxdual(x, t))
