"""P09: no call of an operator modifies what was handed to it (solvers: their own contracts carry P09)."""
from vf.api import contract
from contracts.registry import OPS, SYM
from contracts.c_steps import DERIVED, derive


def _try(fn):
    try:
        return fn()
    except Exception:
        return None


@contract('P09', 'value, prox, proxdual and grad of every operator', cfgs=[dict(op=n) for n in sorted(SYM)], ncases=6)
def operator_frames(B, op):
    f, x = OPS[op](B)
    t = B.scalar('tau', pos=True)
    if op == 'SCAD':
        B.assume(t < f.a - 1)
    f(x)
    B.frames(label='value leaves')
    p = f.prox(x, t)
    B.frames(label='prox leaves')
    if op not in ('SCAD', 'Log'):
        f.proxdual(x, t)
        B.frames(label='proxdual leaves')
    if op != 'chained':
        f.grad(x)
        B.frames(label='grad leaves')
    f.prox(p, t)
    f(p)
    B.frames(label='a second call leaves')


def _snap(o, out, path, depth=0):
    """every array reachable from an operator's attributes"""
    import numpy as np
    if isinstance(o, np.ndarray):
        out.append((path, o, o.copy()))
    elif depth < 3:
        if isinstance(o, dict):
            for k, v in list(o.items()):
                _snap(v, out, '%s[%r]' % (path, k), depth + 1)
        elif isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                _snap(v, out, '%s[%d]' % (path, i), depth + 1)
        elif hasattr(o, '__dict__') and not callable(o) or depth == 0:
            for k, v in list(vars(o).items()):
                _snap(v, out, '%s.%s' % (path, k), depth + 1)


@contract('P09', 'value, prox, proxdual and grad of every operator, itself and derived', cfgs=[dict(op=n) for n in sorted(OPS)], num_only=True, ncases=24)
def operator_frames_real(B, op):
    """bounded: layouts, complex arguments, step arrays, derived operators; every array an operator was built with; results
    handed out earlier"""
    import numpy as np
    f, x = OPS[op](B)
    d = DERIVED[B.seed % len(DERIVED)] if B.seed % 3 == 1 else 'itself'
    v = B.vec('shift', x.size)
    if d not in ('itself', 'adjoint', 'scaled_negative', 'scaled') and x.ndim > 1:
        d = 'itself'
    f, x = derive(B, f, x, d, v)
    B.inputs['derived'] = d
    n = x.size
    params = []
    _snap(f, params, op)
    lay = B.seed_mod(4)
    if lay == 1:
        x = x + 1j * B._draw(n).reshape(x.shape)
    if lay == 2 and x.ndim == 1:
        big = np.zeros(2 * n)
        big[::2] = x
        x = big[::2]
    if lay == 3:
        x = (x * 1.0).copy()
        x[...] = x.reshape(-1)[::-1].reshape(x.shape)
    x0 = x.copy()
    B.inputs['x as called'] = x0
    with np.errstate(all='ignore'):
        steps = [0.7, np.float64(1.3), np.abs(B._draw(n)) + 0.2, np.array([0.4, 0.9]), np.array([0.8])]
        old = [s.copy() if isinstance(s, np.ndarray) else s for s in steps]
        results = []
        calls = [('value', lambda: f(x)), ('grad', lambda: f.grad(x))]
        for i, s in enumerate(steps):
            calls += [('prox', lambda s=s: f.prox(x, s)), ('proxdual', lambda s=s: f.proxdual(x, s))]
        calls = [calls[i] for i in B.rng.permutation(len(calls))]
        for nm, call in calls:
            r = _try(call)
            B.same('%s leaves its argument' % nm, bool(np.array_equal(x, x0, equal_nan=True)), True)
            for s, o in zip(steps, old):
                B.same('%s leaves the step array' % nm, bool(np.array_equal(s, o)), True)
            for path, a, a0 in params:
                B.same('%s leaves %s' % (nm, path), bool(np.array_equal(a, a0, equal_nan=True)), True)
            B.frames(label='%s leaves' % nm)
            for r1, r0 in results:
                B.same('%s leaves a result handed out before' % nm, bool(np.array_equal(r1, r0, equal_nan=True)), True)
            if isinstance(r, np.ndarray):
                results.append((r, r.copy()))
