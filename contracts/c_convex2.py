"""P03, P08, P09, P02 (remaining convex operators): user nonlinear functions, convolution, total variation."""
from vf.api import contract
from contracts.util import minimiser, sq


@contract('P03 P08 P09 P10', 'Nonlinear.__init__ Nonlinear.__call__ Nonlinear.prox Nonlinear._funprox Nonlinear._gradprox Nonlinear._fungradprox Nonlinear.fungrad',
          cfgs=[dict(warm=True), dict(warm=False)])
def nonlinear(B, warm):
    """the functions handed to the user's optimiser are tau^-1 times the objective of the prox, and its gradient; what the
    optimiser returns is returned; the optimiser starts from the stored guess"""
    F = B.prox('F')
    x, u, x0, tau = B.vec('x'), B.vec('u'), B.vec('x0'), B.scalar('tau', pos=True)
    res = B.vec('res')
    seen = []

    class NL(B.mod('proximal.Nonlinear').Nonlinear):
        def fun(self, v):
            return F(v)

        def grad(self, v):
            return F.grad(v)

        def optimize(self):
            seen.append((self.x0, self._funprox(u, self.tau), self._gradprox(u, self.tau), self._fungradprox(u, self.tau), self.niter))
            return res
    f = NL(x0=x0, niter=7, warm=warm)
    B.eq('value is the user function', f(x), F(x), 'P03')
    B.same('has a gradient', f.hasgrad, True, 'P08')
    g = f.fungrad(u)
    B.eq('value and gradient pair', g[0], F(u), 'P08')
    B.eq('gradient of the pair', g[1], F.grad(u), 'P08')
    p = f.prox(x, tau)
    B.same('optimised once', len(seen), 1, 'P03')
    (s0, fp, gp, fgp, nit), = seen
    obj = F(u) + sq(B, u - x) / (2 * tau)
    grd = F.grad(u) + (u - x) / tau
    B.eq('objective of the optimiser', fp, obj, 'P03')
    B.eq('gradient of the optimiser', gp, grd, 'P03')
    B.eq('joint objective of the optimiser', fgp[0], obj, 'P03')
    B.eq('joint gradient of the optimiser', fgp[1], grd, 'P03')
    B.eq('the optimum is returned', p, res, 'P03')
    B.eq('starts from the given guess', s0, x0, 'P10')
    B.eq('guess after the call', f.x0, res if warm else x0, 'P10')
    f.prox(u, tau)
    B.eq('start of the second call', seen[1][0], res if warm else x0, 'P10')
    B.eq('second call centred at its own point', seen[1][1], F(u), 'P03')
    B.frames()


def circ(h, x, nfft, axis):
    """circular convolution by its definition"""
    import numpy as np
    x = np.moveaxis(x, axis, 0)
    xp = np.zeros((nfft,) + x.shape[1:])
    xp[:x.shape[0]] = x
    out = np.zeros_like(xp)
    hh = np.moveaxis(h, axis, 0) if h.ndim > 1 else h
    for j in range(hh.shape[0]):
        sh = np.roll(xp, j, axis=0)
        out += hh[j] * sh
    return np.moveaxis(out, 0, axis)


@contract('P03 P08 P02 P09', 'L2Convolve.__init__ L2Convolve.__call__ L2Convolve.prox L2Convolve.grad', num_only=True, ncases=30,
          cfgs=[dict(nd=nd, full=full) for nd in (1, 2, 3) for full in (0, 1)])
def l2_convolve(B, nd, full):
    """bounded: against circular convolution written out; the prox is the minimiser for signals of the transform length,
    and the documented Fourier formula for shorter, zero-padded ones"""
    import numpy as np
    s, tau = B.scalar('sigma', pos=True), B.scalar('tau', pos=True)
    nfft = int(B.rng.integers(6, 12))
    n = nfft if full else int(B.rng.integers(3, nfft + 1))
    axis = int(B.rng.integers(0, nd))
    dims = [2, 3, 2][:nd]
    dims[axis] = n
    bdims = list(dims)
    bdims[axis] = nfft
    h = B.vec('h', int(B.rng.integers(1, 5)))
    b = B.vec('b', int(np.prod(bdims))).reshape(bdims)
    x = B.vec('x', int(np.prod(dims)))
    kw = {} if nd == 1 else dict(dims=tuple(dims), dir=axis if B.rng.random() < 0.6 else axis - nd)
    if nd > 1 and axis == nd - 1 and B.rng.random() < 0.4:
        kw.pop('dir')
    f = B.P.L2Convolve(h, b, nfft=nfft, sigma=s, **kw)

    def ref(u):
        return s / 2 * np.sum((circ(h, u.reshape(dims), nfft, axis) - b) ** 2)
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    B.le('prox of a real signal is real', np.max(np.abs(np.imag(p))), 1e-9, 'P03')
    p = np.real(p)
    B.same('prox has the size of x', p.shape == x.shape, True, 'P03')
    if full:
        minimiser(B, 'prox minimises', ref, x, tau, p, 'P03', tol=1e-9)
    else:
        hf = np.fft.fft(h, nfft)
        shp = [1] * nd
        shp[axis] = nfft
        hf = hf.reshape(shp)
        xf, bf = np.fft.fft(x.reshape(dims), nfft, axis=axis), np.fft.fft(b, nfft, axis=axis)
        y = np.fft.ifft((tau * s * np.conj(hf) * bf + xf) / (1 + tau * s * np.abs(hf) ** 2), axis=axis)
        B.eq('documented formula', p, np.real(np.take(y, range(n), axis=axis)).ravel(), 'P03')
    g = np.real(f.grad(x))
    e = 1e-6
    fd = np.array([(ref(x + e * d) - ref(x - e * d)) / (2 * e) for d in np.eye(x.size)])
    B.eq('gradient is the derivative of the value', g, fd, 'P08', tol=1e-6)
    B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', np.real(f.prox(x, tau) + tau * f.proxdual(x / tau, 1.0 / tau)), x, 'P02')
    B.frames()


@contract('P03 P02 P09', 'TV.__init__ TV.__call__ TV.prox', num_only=True, ncases=12, weight=2,
          cfgs=[dict(dims=(7,)), dict(dims=None), dict(dims=(3, 4)), dict(dims=(2, 3, 2)), dict(dims=(2, 2, 2, 3)), dict(dims=(2, 6))])
def total_variation(B, dims):
    """bounded: value by its definition (isotropic, forward differences); prox to solver accuracy"""
    import numpy as np
    s, tau = B.scalar('sigma', pos=True), B.scalar('tau', pos=True)
    n = B.dim('n', 3, 9)
    shape = dims if dims else (n,)
    x = B.vec('x', int(np.prod(shape)))

    def ref(u):
        u = u.reshape(shape)
        t = 0
        for a in range(len(shape)):
            d = np.zeros(shape)
            sl = [slice(None)] * len(shape)
            sl[a] = slice(0, -1)
            d[tuple(sl)] = np.diff(u, axis=a)
            t = t + d ** 2
        return s * np.sum(np.sqrt(t))
    f = B.P.TV(dims=dims, sigma=s, niter=1500, rtol=0.0)
    B.eq('value', f(x), ref(x), 'P03')
    p = f.prox(x, tau)
    B.same('prox has the size of x', p.shape == x.shape, True, 'P03')
    near = [np.round(p, 2), np.full(x.size, np.mean(x))]
    minimiser(B, 'prox minimises', ref, x, tau, p, 'P03', near=near, tol=2e-4)
    c = np.mean(x)
    if dims is None or len(shape) == 1:
        # exact one-dimensional minimiser from the dual (box-constrained) problem
        B.eq('prox is the exact minimiser', p, tv1d(x, tau * s), 'P03', tol=2e-2)
    B.eq('mean is kept', np.mean(p), c, 'P03', tol=1e-6)
    B.eq('x = prox(x; tau) + tau proxdual(x/tau; 1/tau)', p + tau * f.proxdual(x / tau, 1.0 / tau), x, 'P02', tol=1e-6)
    f2 = B.P.TV(dims=dims, sigma=s)
    q = f2.prox(x, tau)
    fq, fx = tau * ref(q) + 0.5 * np.sum((q - x) ** 2), tau * ref(x)
    B.le('default accuracy improves on x', fq, fx * (1 + 1e-6) + 1e-9, 'P03')
    B.frames()


def tv1d(x, lam):
    from scipy.optimize import lsq_linear
    import numpy as np
    n = x.size
    D = np.diff(np.eye(n), axis=0)
    r = lsq_linear(D.T, x, bounds=(-lam - 1e-300, lam + 1e-300), tol=1e-14, max_iter=2000)
    return x - D.T @ r.x
