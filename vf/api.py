"""The contract language, with two readings.

A contract is a Python function  c(B, **cfg)  that builds inputs through B, calls the real code
and states what must hold.  SymB reads it as proof obligations over symbolic inputs (all inputs,
all sizes, all branches); NumB reads the same text as a runtime contract over concrete inputs,
used to replay a failed obligation and to cross-check the symbolic semantics."""
from __future__ import annotations

import contextlib
import hashlib
import io
import math
import sys
import time
import traceback

import numpy as np

from . import core
from .core import (BV, Atom, Buf, Ctx, Infeasible, PathDone, S, SB, Sm, SmB, Unsupported, V, Val, ctx, fresh, set_ctx, vatom,
                   vconst, z, zb)

CONTRACTS = []
INTS = bool(__import__('os').environ.get('VF_INTS'))
DEBUG = bool(__import__('os').environ.get('VF_DEBUG'))


class Contract:
    def __init__(self, fn, props, funcs, cfgs, num_only, sym_only, ncases, note, weight):
        self.fn, self.props, self.funcs, self.cfgs = fn, props, funcs, cfgs
        self.num_only, self.sym_only, self.ncases, self.note, self.weight = num_only, sym_only, ncases, note, weight
        self.name = fn.__name__


def contract(props, funcs=(), cfgs=({},), num_only=False, sym_only=False, ncases=24, note='', weight=1, narrow=False, replay=None):
    if isinstance(props, str):
        props = props.split()

    def deco(fn):
        CONTRACTS.append(Contract(fn, list(props), list(funcs) if not isinstance(funcs, str) else funcs.split(), list(cfgs), num_only,
                                  sym_only, ncases, note, weight))
        CONTRACTS[-1].narrow = narrow
        CONTRACTS[-1].replay = replay          # contract whose concrete runs look for a failing input (when this one has none)
        return fn
    return deco


def pub(cfg):
    return {k: v for k, v in cfg.items() if not k.startswith('_')}


class Skip(BaseException):
    """the concrete inputs do not satisfy the precondition"""


class Violation(Exception):
    def __init__(self, label, prop, detail):
        self.label, self.prop, self.detail = label, prop, detail
        Exception.__init__(self, '%s: %s' % (label, detail))


# ================================================================ symbolic reading
STUBBED = []           # (module, name, function) replaced on the current path


class SymB:
    kind = 'sym'
    sym = True

    def __init__(self, C, cfg, defprop):
        while STUBBED:
            setattr(*STUBBED.pop())
        from . import loader, shims
        self.cfg = cfg
        self.C = C
        self.np = shims.np_
        self.pylops = shims.MODULES['pylops']
        self.L = loader.loader()
        self.P = self.L.mods['pyproximal']
        self.defprop = defprop
        self.owned = []
        self.obls = []
        self.covers = {}
        self.names = set()
        self.junk = False
        self.only = None          # properties whose obligations are wanted

    def mod(self, name):
        return self.L.load('pyproximal.' + name)

    # inputs
    def dim(self, name, lo=1, hi=6):
        if name in self.C.cache.setdefault('dims', {}):
            return self.C.cache['dims'][name]
        nm = 'n!' + name
        k = z3r(nm)
        self.C.axioms[nm] = [k >= lo]
        s = S(k, True)
        self.C.cache['dims'][name] = s
        return s

    def count(self, name, lo=1, hi=6, isint=True):
        """a symbolic natural number"""
        nm = self.fresh_name(name)
        k = z3r(nm)
        self.C.axioms[nm] = [k >= lo]
        return S(k, True)

    def fresh_name(self, n):
        assert n not in self.names, n
        self.names.add(n)
        return n

    def scalar(self, name, pos=False, nonneg=False, lo=None, hi=None, ne=None, num=None):
        nm = self.fresh_name(name)
        k = z3r(nm)
        ax = []
        if pos:
            ax.append(k > 0)
        if nonneg:
            ax.append(k >= 0)
        if lo is not None:
            ax.append(k >= z(lo))
        if hi is not None:
            ax.append(k <= z(hi))
        if ne is not None:
            ax.append(k != z(ne))
        self.C.axioms[nm] = ax
        # make the range part of the path condition when it is first used
        return S(k)

    def vec(self, name, n='n', blocks=None, own=True, pos=False, nonneg=False, rows=False, cond=None):
        nm = self.fresh_name(name)
        if blocks is None:
            size = self.dim(n) if isinstance(n, str) else n
            sizes = [size]
        else:
            sizes = [self.dim(b) if isinstance(b, str) else b for b in blocks]
        bufs = []
        for i, s in enumerate(sizes):
            a = Atom(nm if len(sizes) == 1 else '%s.%d' % (nm, i), s)
            if pos:
                self.C.elem_facts.append(lambda idx, a=a: a.at(idx) > 0)
            if nonneg:
                self.C.elem_facts.append(lambda idx, a=a: a.at(idx) >= 0)
            if cond is not None:
                self.C.elem_facts.append(lambda idx, a=a: zb(cond(S(a.at(idx)))))
            bufs.append(Buf(vatom(a), nm))
        v = V(bufs, None, rows)
        if len(sizes) > 1 and not rows:
            self.C.blocks[core.simp(v.size.e).sexpr()] = sizes
        if own:
            self.owned.append((nm, v))
        return v

    def own(self, name, v):
        """a derived input whose contents must not change either"""
        if isinstance(v, Sm):
            v.init = list(v.items)
        else:
            for b in v.bufs:
                b.init = b.val
        self.owned.append((name, v))
        return v

    def smallvec(self, name, k, pos=False):
        s = Sm([self.scalar('%s%d' % (name, i), pos=pos) for i in range(k)])
        self.owned.append((name, s))
        return s

    def competitors(self, name, like, near=(), feas=None, around=None):
        nm = self.fresh_name(name)
        bufs = [Buf(vatom(Atom('%s.%d' % (nm, i), v.size))) for i, v in enumerate(like.vals)]
        w = V(bufs, like._shape, like.rows)
        # an arbitrary competitor, written as around + difference when that makes the quadratic terms cancel
        yield w if around is None else around + w

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        e = zb(cond) if not isinstance(cond, SmB) else zb(cond.all())
        self.C.pc.append(e)

    # stubs
    def prox(self, name, **k):
        if k.get('value') == 'any':
            # an indicator where its value is displayed only
            k['value'] = 'bool' if self.cfg.get('show') else 'real'
        return self.absclass()(self, name, **k)

    def absclass(self):
        if not hasattr(self.L, 'absprox'):
            base = self.L.mods['pyproximal'].ProxOperator
            from . import stubs
            self.L.absprox = stubs.make_absprox(base)
        return self.L.absprox

    def bilinear(self, name):
        from . import stubs
        if not hasattr(self.L, 'absbil'):
            self.L.absbil = stubs.make_bilinear(self.mod('utils.bilinear').BilinearOperator)
        h = self.L.absbil(name)
        h.nx, h.ny = 'nx', 'ny'
        return h

    def linop(self, name, m='m', n='n', explicit=False, identity=False, orth=None):
        from .shims import BaseOp
        m = self.dim(m) if isinstance(m, str) else m
        n = self.dim(n) if isinstance(n, str) else n
        if identity:
            m = n
        return BaseOp(name, m, n, explicit, identity, orth)

    def func(self, name, isint=False):
        """uninterpreted scalar function of one integer"""
        def f(k):
            return core.uscalar(name, (k,), isint=isint, axioms=None)
        return f

    def posfunc(self, name):
        def f(k):
            return core.uscalar(name, (k,), axioms=lambda r, *a: [r > 0])
        return f

    def vfun(self, name, same=None):
        """uninterpreted array function of arrays and scalars"""
        from . import stubs

        def f(*args):
            return stubs.uvec(self.C, name, args, same=args[0] if same is None else same)
        return f

    # claims
    def _want(self, prop):
        prop = prop or self.defprop
        return self.only is None or prop in self.only

    def _add(self, label, prop, res):
        self.obls.append((label, prop or self.defprop, res, self.junk))

    def eq(self, label, a, b, prop=None, tol=None):
        from . import prover
        if not self._want(prop):
            return
        self._add(label, prop, _eq(self.C, a, b))

    def le(self, label, a, b, prop=None, tol=None):
        from . import prover
        if not self._want(prop):
            return
        if isinstance(a, (V,)) or isinstance(b, V):
            self.true(label, core.ball(a <= b), prop)
            return
        self._add(label, prop, prover.prove_le(self.C, a, b))

    def true(self, label, cond, prop=None):
        from . import prover
        if not self._want(prop):
            return
        if isinstance(cond, BV):
            cond = core.ball(cond)
        if isinstance(cond, SmB):
            cond = cond.all()
        if isinstance(cond, (S,)):
            cond = cond != 0
        self._add(label, prop, prover.prove(self.C, zb(cond)))

    def same(self, label, a, b, prop=None):
        """object identity / plain python equality"""
        from . import prover
        if self._want(prop):
            self._add(label, prop, prover.Result('proved' if a is b or (type(a) is type(b) and isinstance(a, (int, str, bool, type(None))) and a == b)
                                                 else 'refuted', None, 'structural'))

    def raises(self, label, exc, fn, prop=None):
        from . import prover
        try:
            fn()
            r = prover.Result('refuted', None, 'execution', 'no exception')
        except (Unsupported, PathDone, Infeasible):
            raise
        except exc:
            r = prover.Result('proved', None, 'execution')
        except Exception as e:
            r = prover.Result('refuted', None, 'execution', 'raised %r' % e)
        if self._want(prop):
            self._add(label, prop, r)

    def lemma(self, label, a, b, prop=None):
        """array equality, proved at a generic index and then available as a fact at every index"""
        from . import prover
        r = prover.prove_veq(self.C, a, b)
        if self._want(prop):
            self._add('lemma: ' + label, prop, r)
        if r.status == 'proved':
            for x, y in zip(a.vals, b.vals):
                self.C.elem_facts.append(lambda idx, x=x, y=y: x.at(idx) == y.at(idx))

    def fact_all(self, label, mask, prop=None):
        """holds at every entry: proved at a generic index and then available"""
        from . import prover
        if isinstance(mask, BV):
            fs = list(mask.fns)
        else:
            fs = [lambda idx: zb(mask)]
        r = None
        for f in fs:
            r = prover.prove(self.C, f(self.C.I), extra_idx=(self.C.I,))
            if r.status != 'proved':
                break
        if self._want(prop):
            self._add('lemma: ' + label, prop, r)
        if r.status == 'proved':
            self.C.elem_facts.extend(fs)

    def derive(self, label, args, hyps, concl, prop=None):
        """a lemma of real arithmetic, proved for all reals and used at every entry: its hypotheses are proved there one by one, after
        which its conclusion is available"""
        from . import prover
        import z3
        rs = [z3.Real('arg%d' % i) for i in range(len(args))]
        st, _, be = prover._check([zb(h(*rs)) for h in hyps] + [z3.Not(zb(concl(*rs)))], 8000)
        r = prover.Result({'unsat': 'proved', 'sat': 'refuted'}.get(st, 'unknown'), None, be)
        bad = 'for all reals' if r.status != 'proved' else None
        for i, h in enumerate(hyps):
            if bad:
                break
            b = h(*args)
            for f in (b.fns if isinstance(b, BV) else [lambda idx: zb(b)]):
                r2 = prover.prove(self.C, f(self.C.I), extra_idx=(self.C.I,))
                if r2.status != 'proved':
                    r, bad = r2, 'hypothesis %d' % i
                    break
        if self._want(prop):
            self._add('lemma: ' + label + (' (%s)' % bad if bad else ''), prop, r)
        if not bad:
            b = concl(*args)
            self.C.elem_facts.extend(b.fns if isinstance(b, BV) else [lambda idx: zb(b)])

    def removed(self, x, p, v, k):
        """(m, t): indicator m of the entries (columns) that p sets to zero in x while it keeps the others; t separates the magnitudes v inside from those outside"""
        from . import prover
        import z3
        for st in self.C.isets:
            for inside in (True, False):
                f = st.f if inside else (lambda idx, g=st.f: z3.Not(g(idx)))
                if all(prover.implied_idx(self.C, lambda idx: b.at(idx) == z3.If(f(idx), z3.RealVal(0), a.at(idx))) for a, b in zip(x.vals, p.vals)):
                    m = V.of(st.ind) if inside else 1 - V.of(st.ind)
                    w = v.vals[0]
                    for s in st.splits:
                        for t in (s, -s, None):
                            t = core.ssqrt(S(s)).e if t is None else t
                            if prover.implied_idx(self.C, lambda idx: z3.If(f(idx), w.at(idx) <= t, w.at(idx) >= t)):
                                return m, core.smax(S(t), 0)
                    return m, S(st.splits[0])
        raise Unsupported('no index set of known size explains the result')

    def lambertw(self, v):
        """real part of the principal branch"""
        from . import shims
        return shims._LAMBERT(v)

    def exp_sum(self, a, b):
        """exp(a + b) = exp(a) exp(b), entry by entry"""
        self._known(self.np.exp(a + b) == self.np.exp(a) * self.np.exp(b), 'exp(a + b) = exp(a) exp(b)')

    def exp_tangent(self, a, b):
        """exp lies above its tangent at b, entry by entry"""
        self._known(self.np.exp(a) >= self.np.exp(b) * (1 + a - b), 'exp lies above its tangents')

    def _known(self, cond, what):
        if isinstance(cond, BV):
            self.C.elem_facts.extend(cond.fns)
        else:
            self.C.pc.append(zb(cond))
        self.C.assumed.add('fact of analysis: ' + what)

    def mvt(self, phi, dphi, u, w):
        """mean value theorem, entry by entry: phi(w) - phi(u) = phi'(xi) (w - u) for some xi between; phi differentiable there, with
        derivative dphi (assumed here, compared with difference quotients in the concrete runs)"""
        x = Atom(self.C.name('xi'), w.vals[0].size)
        xi = V.of(vatom(x))
        pu, pw, d = phi(u).vals[0], phi(w).vals[0], dphi(xi).vals[0]
        uv, wv = u.vals[0], w.vals[0]
        And, Or = core.z3.And, core.z3.Or

        self.C.elem_facts.append(lambda idx: Or(And(uv.at(idx) <= x.at(idx), x.at(idx) <= wv.at(idx)), And(wv.at(idx) <= x.at(idx), x.at(idx) <= uv.at(idx))))
        self.C.elem_facts.append(lambda idx: pw.at(idx) - pu.at(idx) == d.at(idx) * (wv.at(idx) - uv.at(idx)))
        self.C.assumed.add('mean value theorem for the scalar penalties (their derivatives are written in the contracts)')
        return xi, dphi(xi)

    def machine(self, *a, **k):
        from . import machine
        return machine.machine_sym(self, *a, **k)

    def stub(self, modname, name, spec, ref):
        """the function is replaced by its contract in the callers; spec(B, arguments by name)"""
        import inspect
        m = self.mod(modname)
        real = getattr(m, name)
        sig = inspect.signature(real)

        def call(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return spec(self, dict(b.arguments))
        setattr(m, name, call)
        STUBBED.append((m, name, real))
        return lambda **k: spec(self, k)

    def lsq(self, Op, R):
        """argmin |Op x - b|^2 + |R x - d|^2 / tau, solved exactly"""
        from . import shims

        def f(b, d, tau, x0):
            return shims._reginv(Op, b, [R], x0=x0, dataregs=[d], epsRs=[1.0 / core.ssqrt(tau)])[0]
        return f

    def fact_le(self, label, a, b, prop=None):
        """a <= b, proved and then available"""
        from . import prover
        r = prover.prove_le(self.C, a, b)
        if self._want(prop):
            self._add('lemma: ' + label, prop, r)
        if r.status == 'proved':
            self.C.pc.append(z(a) <= z(b))

    def solver_log(self):
        """the calls of the iterative solvers of scipy and pylops so far: their starting guess and number of iterations"""
        return self.C.__dict__.setdefault('solver_log', [])

    def hint_state(self, label, f, g, skip=(), prop=None):
        """the two operators are in the same state (then what holds after the calls made so far holds after any history);
        not an alarm when it is not provable"""
        from . import prover
        if not self._want(prop):
            return
        ok = _same_state(self.C, {k: v for k, v in vars(f).items() if k not in skip}, {k: v for k, v in vars(g).items() if k not in skip})
        self._add(label, prop, prover.Result('proved' if ok else 'unknown', None, 'state', '' if ok else 'states differ'))

    def snapshot(self, f):
        return _Snap({k: (v.copy() if isinstance(v, V) else v) for k, v in vars(f).items()})

    def frames(self, prop='P09', label='inputs unchanged'):
        """everything handed in still has its initial contents"""
        from . import prover
        if not self._want(prop):
            return
        for nm, v in self.owned:
            if isinstance(v, V):
                for b in v.bufs:
                    if b.val is not b.init:
                        self._add('%s: %s' % (label, nm), prop, prover.prove_veq(self.C, V([Buf(b.val)]), V([Buf(b.init)])))
                    else:
                        self._add('%s: %s' % (label, nm), prop, prover.Result('proved', None, 'frame'))
            else:
                ok = len(v.items) == len(v.init) and all(_eq(self.C, x, y).status == 'proved' for x, y in zip(v.items, v.init))
                self._add('%s: %s' % (label, nm), prop, prover.Result('proved' if ok else 'refuted', None, 'frame'))

    def cond(self, c):
        """branch of the contract itself"""
        return bool(c)

    def havoc_whiles(self, *prefixes):
        """while loops of these modules are taken with invariant True"""
        self.C.havoc = tuple('pyproximal.' + p for p in prefixes)

    def cover(self, name):
        self.covers[name] = True

    # helpers common to both readings
    def seed_mod(self, k):
        return 1

    def not_(self, c):
        return SB(core.z3.Not(zb(c)))

    def any(self, *c):
        return SB(core.z3.Or(*[zb(x) for x in c]))

    def both(self, *c):
        return SB(core.z3.And(*[zb(x) for x in c]))

    def implies(self, a, b):
        return SB(core.z3.Implies(zb(a), zb(b)))

    def all(self, m):
        return core.ball(m)


def z3r(n):
    import z3
    return z3.Real(n)


class _Snap:
    def __init__(self, d):
        self.__dict__.update(d)


def _same_state(C, a, b, depth=0):
    from . import prover
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same_state(C, a[k], b[k], depth) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same_state(C, x, y, depth) for x, y in zip(a, b))
    if hasattr(a, 'terms') and hasattr(b, 'terms'):
        return a.terms.keys() == b.terms.keys() and all(prover.implied(C, a.terms[w] == b.terms[w]) for w in a.terms)
    if isinstance(a, (V, S, core.Sm)) or core.is_num(a):
        try:
            return _eq(C, a, b).status == 'proved'
        except (Unsupported, TypeError, AttributeError):
            return False
    if type(a) is type(b) and hasattr(a, '__dict__') and depth < 4 and not callable(a):
        return _same_state(C, vars(a), vars(b), depth + 1)
    try:
        return bool(a == b) is True
    except Exception:
        return False


def _eq(C, a, b):
    from . import prover
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return prover.Result('refuted', None, 'structural', 'lengths differ')
        last = prover.Result('proved', None, 'structural')
        for x, y in zip(a, b):
            r = _eq(C, x, y)
            if r.status != 'proved':
                return r
            last = r
        return last
    if a is None or b is None:
        return prover.Result('proved' if a is b else 'refuted', None, 'structural')
    if isinstance(a, Sm) and isinstance(b, Sm):
        return _eq(C, a.items, b.items)
    if isinstance(a, BV) and isinstance(b, BV):
        return prover.prove(C, zb(core.ball(a == b)))
    if isinstance(a, SB) or isinstance(b, SB):
        return prover.prove(C, zb(a) == zb(b))
    if isinstance(a, V) and isinstance(b, V):
        return prover.prove_veq(C, a, b)
    if isinstance(a, core.SliceV) and isinstance(b, core.SliceV):
        r = prover.prove_eq(C, a.stop, b.stop)
        if r.status != 'proved':
            return r
        x, y = a.v.vals[0], b.v.vals[0]
        n = z(a.stop)
        return prover.prove(C, core.z3.Implies(core.z3.And(C.I >= 0, C.I < n), x.at(C.I) == y.at(C.I)), extra_idx=(C.I,))
    if isinstance(a, core.SliceV) or isinstance(b, core.SliceV):
        return prover.Result('unknown', None, 'structural', 'slice against %r' % type(b))
    if isinstance(a, V) or isinstance(b, V):
        v, k = (a, b) if isinstance(a, V) else (b, a)
        if core.is_num(k) or isinstance(k, S):
            return prover.prove_veq(C, v, v._new([vconst(k, x.size) for x in v.vals]))
        return prover.Result('refuted', None, 'structural', 'array against %r' % type(k))
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return prover.Result('proved' if bool(a) == bool(b) else 'refuted', None, 'structural')
    if isinstance(a, float) and isinstance(b, float) and (math.isinf(a) or math.isinf(b)):
        return prover.Result('proved' if a == b else 'refuted', None, 'structural')
    return prover.prove_eq(C, a, b)


# ================================================================ concrete reading
class NumB:
    kind = 'num'
    sym = False

    def __init__(self, seed, cfg, defprop, over=None):
        import pyproximal
        self.P = pyproximal
        self.np = np
        import pylops
        self.pylops = pylops
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.cfg = cfg
        self.defprop = defprop
        self.over = over or {}
        self.dims = {}
        self.owned = []
        self.inputs = {}
        self.only = None
        self.nclaims = 0
        self.style = seed % 6
        # one run in five spreads its inputs over several orders of magnitude
        self.wide = (seed % 5 == 3 or (cfg.get('_search') and seed % 2)) and not cfg.get('_narrow')
        self.vscale = float(10.0 ** self.rng.uniform(-3.0, 1.5)) if self.wide else 1.0

    def mod(self, name):
        import importlib
        return importlib.import_module('pyproximal.' + name)

    def dim(self, name, lo=1, hi=6):
        if name not in self.dims:
            k = self.over.get('n!' + name)
            hh = max(hi, lo) if hi < 6 or self.rng.random() < 0.88 else 4 * max(hi, lo)
            self.dims[name] = int(k) if k is not None and 1 <= k <= 50 else int(self.rng.integers(max(lo, 1), hh + 1))
            self.inputs['dim ' + name] = self.dims[name]
        return self.dims[name]

    def count(self, name, lo=1, hi=6, isint=True):
        v = int(self.rng.integers(lo, (hi if hi < 6 or self.rng.random() < 0.9 else 3 * hi) + 1))
        if name in self.over:
            v = max(lo, min(int(self.over[name]), 60))
        elif 'iter_k' in self.over:
            v = max(lo, min(int(self.over['iter_k']) + 2, 60))
        self.inputs[name] = v
        return v

    def scalar(self, name, pos=False, nonneg=False, lo=None, hi=None, ne=None, num=None):
        """num: usual range of the concrete runs (the symbolic reading has none)"""
        if num is not None and name not in self.over:
            r = self.rng.random()
            if r < 0.85:
                v = float(num[0] + (num[1] - num[0]) * self.rng.random())
            elif r < 0.95:
                v = float(num[0] * 10.0 ** self.rng.uniform(-1, 0)) if num[0] > 0 else float(num[0])
            else:
                v = float(num[1] * 10.0 ** self.rng.uniform(0, 0.7))
            self.inputs[name] = v
            return v
        if name in self.over:
            v = float(self.over[name])
        else:
            while True:
                r = self.rng.random()
                if self.wide and r < 0.7:
                    v = float(10.0 ** self.rng.uniform(-3.0, 2.0))
                elif r < 0.4:
                    v = float(self.rng.choice([0.5, 1.0, 2.0, 1.5, 0.25, 3.0]))
                else:
                    v = float(np.exp(self.rng.normal() * 0.8))
                if not pos and not nonneg and lo is None and self.rng.random() < 0.5:
                    v = -v
                if nonneg and self.rng.random() < 0.15:
                    v = 0.0
                if lo is not None and hi is not None:
                    v = float(lo + (hi - lo) * self.rng.random())
                elif lo is not None:
                    v = float(lo + abs(v))
                elif hi is not None:
                    v = float(hi - abs(v))
                if ne is None or v != ne:
                    break
        self.inputs[name] = v
        return v

    def _draw(self, n):
        st = self.rng.integers(0, 6)
        sc = float(self.rng.choice([0.3, 1.0, 1.0, 4.0]))
        if self.wide:
            x = self.rng.normal(size=n) * self.vscale
        elif st == 0:
            x = self.rng.integers(-3, 4, n).astype(float)
        elif st == 1:
            x = self.rng.normal(size=n) * sc
            x[self.rng.random(n) < 0.4] = 0.0
        elif st == 2:
            x = np.round(self.rng.normal(size=n) * 2) / 2
        else:
            x = self.rng.normal(size=n) * sc
        return x

    def vec(self, name, n='n', blocks=None, own=True, pos=False, nonneg=False, rows=False, cond=None):
        if blocks is None:
            size = self.dim(n) if isinstance(n, str) else int(n)
            x = self._draw(size)
        else:
            sizes = [self.dim(b) if isinstance(b, str) else int(b) for b in blocks]
            x = self._draw(sum(sizes))
        r = self.rng.random()
        same = [v for v in self.inputs.values() if isinstance(v, np.ndarray) and v.shape == x.shape and v.dtype == x.dtype]
        if r < 0.04:
            x = np.zeros_like(x)
        elif r < 0.08 and same:
            x = same[int(self.rng.integers(len(same)))].copy()
        if name in self.over:
            o = np.asarray(self.over[name], float).ravel()
            x[:len(o)] = o[:len(x)]
            if len(o) and len(x) > len(o):
                x[len(o):] = np.resize(o, len(x) - len(o))
        if pos:
            x = np.abs(x) + 0.05
        if nonneg:
            x = np.abs(x)
        if INTS and self.rng.random() < 0.3:
            x = np.round(x).astype(int) + (1 if pos else 0)
        if rows:
            x = x.reshape(len(blocks), -1)
        if own:
            self.owned.append((name, x, x.copy()))
        self.inputs[name] = x.copy()
        return x

    def own(self, name, v):
        self.owned.append((name, v, v.copy()))
        self.inputs[name] = v.copy()
        return v

    def smallvec(self, name, k, pos=False):
        x = np.array([self.scalar('%s%d' % (name, i), pos=pos) for i in range(k)])
        self.owned.append((name, x, x.copy()))
        return x

    def competitors(self, name, like, near=(), feas=None, around=None):
        pts = []
        n = like.size
        for c in list(near):
            c = np.asarray(c, float).ravel()
            if not np.isfinite(c).all():
                continue
            for _ in range(8):
                pts.append(c + self.rng.normal(size=n) * 10.0 ** -self.rng.uniform(0, 4))
            for j in range(min(n, 6)):
                for d in (1e-3, -1e-3, 0.3, -0.3):
                    q = c.copy()
                    q[j] += d
                    pts.append(q)
                q = c.copy()
                q[j] = 0.0
                pts.append(q)
                q = c.copy()
                q[j] = -q[j]
                pts.append(q)
        pts.append(np.zeros(n))
        for _ in range(6):
            pts.append(self._draw(n))
        for q in pts:
            yield q.reshape(like.shape)

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            cond = all(bool(np.all(c)) for c in cond)
        if not bool(np.all(cond)):
            raise Skip()

    def prox(self, name, **k):
        from . import numstubs
        if k.get('value') == 'any':
            k['value'] = 'bool' if self.rng.random() < 0.4 else 'real'
        return numstubs.make_prox(self, name, **k)

    def bilinear(self, name):
        from . import numstubs
        return numstubs.make_bilinear(self, name)

    def linop(self, name, m='m', n='n', explicit=False, identity=False, orth=None):
        from . import numstubs
        return numstubs.make_linop(self, name, m, n, explicit, identity, orth)

    def func(self, name, isint=False):
        h = int(hashlib.md5(name.encode()).hexdigest()[:6], 16) + self.seed
        if isint:
            return lambda k: 1 + (h + 3 * int(k)) % 4
        return lambda k: 0.3 + ((h + 7 * int(k)) % 11) / 5.0

    posfunc = func

    def vfun(self, name, same=None):
        h = int(hashlib.md5(name.encode()).hexdigest()[:6], 16) + self.seed

        def f(*args):
            r = np.random.default_rng(h)
            out = np.zeros_like(args[0] if same is None else same, dtype=float)
            for a in args:
                out = out + np.sin(np.asarray(a, float) * r.uniform(0.3, 1.0) + r.uniform(0, 3)) * r.uniform(0.5, 1.0)
            return out
        return f

    # claims
    def _want(self, prop):
        prop = prop or self.defprop
        return self.only is None or prop in self.only

    def _fail(self, label, prop, detail):
        raise Violation(label, prop or self.defprop, detail)

    def eq(self, label, a, b, prop=None, tol=1e-7):
        if not self._want(prop):
            return
        self.nclaims += 1
        d = _numeq(a, b, tol if tol is not None else 1e-7)
        if d:
            self._fail(label, prop, d)

    def le(self, label, a, b, prop=None, tol=1e-8):
        if not self._want(prop):
            return
        self.nclaims += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        t = (tol if tol is not None else 1e-8) * (1 + np.abs(a) + np.abs(np.where(np.isinf(b), 0, b)))
        if not np.all(a <= b + t):
            self._fail(label, prop, '%r <= %r does not hold' % (a, b))

    def true(self, label, cond, prop=None):
        if not self._want(prop):
            return
        self.nclaims += 1
        if not bool(np.all(cond)):
            self._fail(label, prop, 'condition is false')

    def same(self, label, a, b, prop=None):
        if not self._want(prop):
            return
        self.nclaims += 1
        if not (a is b or (type(a) is type(b) and isinstance(a, (int, str, bool, type(None))) and a == b)):
            self._fail(label, prop, '%r is not %r' % (a, b))

    def raises(self, label, exc, fn, prop=None):
        self.nclaims += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            if self._want(prop):
                self._fail(label, prop, 'raised %r instead of %r' % (e, exc))
            return
        if self._want(prop):
            self._fail(label, prop, 'returned %r instead of raising %r' % (r, exc))

    def lemma(self, label, a, b, prop=None):
        self.eq('lemma: ' + label, a, b, prop)

    def fact_all(self, label, mask, prop=None):
        return

    def derive(self, label, args, hyps, concl, prop=None):
        return

    def removed(self, x, p, v, k):
        import numpy as np
        P2, v = np.atleast_2d(p), np.ravel(v)
        o = [i for i in np.argsort(v, kind='stable') if not np.any(P2[:, i])][:max(v.size - k, 0)]
        m = np.zeros(v.size)
        m[o] = 1.0
        return m, float(v[o].max()) if o else 0.0

    def lambertw(self, v):
        from scipy.special import lambertw
        return np.real(lambertw(v))

    def exp_sum(self, a, b):
        pass

    def exp_tangent(self, a, b):
        pass

    def mvt(self, phi, dphi, u, w):
        lo, hi = np.minimum(u, w), np.maximum(u, w)
        for q in (0.2, 0.5, 0.9):
            x = lo + q * (hi - lo)
            h = 1e-4 * (hi - lo)
            ok = hi - lo > 1e-3
            d = (phi(x + h) - phi(x - h)) / np.where(ok, 2 * h, 1)
            if not np.all(np.abs(d - dphi(x))[ok] <= 1e-4 * (1 + np.abs(d[ok]))):
                self._fail('derivative written in the contract', None, '%r against %r' % (d, dphi(x)))
        return lo, dphi(lo)

    def machine(self, *a, **k):
        from . import machine
        return machine.machine_num(self, *a, **k)

    def stub(self, modname, name, spec, ref):
        return lambda **k: ref(**k)

    def lsq(self, Op, R):
        def f(b, d, tau, x0):
            M = np.vstack([_dense(Op), _dense(R) / np.sqrt(tau)])
            return np.linalg.lstsq(M, np.concatenate([b, d / np.sqrt(tau)]), rcond=None)[0]
        return f

    def fact_le(self, label, a, b, prop=None):
        self.le('lemma: ' + label, a, b, prop)

    def solver_log(self):
        from . import shims
        import sys
        if hasattr(self, '_slog'):
            return self._slog
        log = self._slog = []
        import scipy.sparse.linalg as sl
        import pylops.optimization.basic as pb
        import pylops.optimization.leastsquares as pl
        self._undo = []
        for name, real, pos in (('lsqr', sl.lsqr, None), ('lsqr', pb.lsqr, ('x0', 'niter')), ('cg', pb.cg, None), ('regularized_inversion', pl.regularized_inversion, None)):
            pos = pos or shims.LOGGED[name]

            def rec(A, b, *a, _n=name, _r=real, _p=pos, **k):
                kk = dict(zip(_p, a), **k)
                x0 = kk.get('x0')
                log.append(dict(solver=_n, x0=None if x0 is None else np.array(x0), niter=kk.get('iter_lim', kk.get('niter'))))
                return _r(A, b, *a, **k)
            for mn, m in list(sys.modules.items()):
                if mn.startswith('pyproximal') and m is not None:
                    for at, v in list(vars(m).items()):
                        if v is real:
                            setattr(m, at, rec)
                            self._undo.append((m, at, real))
        return log

    def close(self):
        for m, at, real in getattr(self, '_undo', ()):
            setattr(m, at, real)
        self._undo = []

    def hint_state(self, label, f, g, skip=(), prop=None):
        pass

    def snapshot(self, f):
        return None

    def frames(self, prop='P09', label='inputs unchanged'):
        if not self._want(prop):
            return
        for nm, x, x0 in self.owned:
            self.nclaims += 1
            if not np.array_equal(x, x0, equal_nan=True):
                self._fail('%s: %s' % (label, nm), prop, 'was %r, is %r' % (x0, x))

    def cond(self, c):
        return bool(np.all(c))

    def havoc_whiles(self, *prefixes):
        pass

    def cover(self, name):
        pass

    def seed_mod(self, k):
        return self.seed % k

    def not_(self, c):
        return not bool(c)

    def any(self, *c):
        return any(bool(x) for x in c)

    def both(self, *c):
        return all(bool(x) for x in c)

    def implies(self, a, b):
        return (not bool(np.all(a))) or bool(np.all(b))

    def all(self, m):
        return bool(np.all(m))


def _numeq(a, b, tol):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return 'lengths %d and %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = _numeq(x, y, tol)
            if d:
                return '[%d] %s' % (i, d)
        return None
    if a is None or b is None:
        return None if a is b else '%r is not %r' % (a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype == bool or y.dtype == bool:
        return None if np.array_equal(x, y) else '%r != %r' % (a, b)
    if x.shape != y.shape and x.size != 1 and y.size != 1:
        return 'shapes %r and %r' % (x.shape, y.shape)
    xf = np.where(np.isfinite(x), np.abs(x), 0)
    yf = np.where(np.isfinite(y), np.abs(y), 0)
    sc = 1 + max(np.max(xf, initial=0), np.max(yf, initial=0))
    if sc > 1e100:
        return None          # both diverged: rounding decides
    with np.errstate(invalid='ignore'):
        bad = ~((np.abs(x - y) <= tol * sc) | (x == y) | ((x != x) & (y != y)))
    if np.any(bad):
        return '%s != %s (difference %.3g)' % (np.array2string(x, threshold=20), np.array2string(y, threshold=20), float(np.nanmax(np.where(bad, np.abs(x - y), 0))) if np.isfinite(x).all() and np.isfinite(y).all() else float('nan'))
    return None


def _dense(op):
    return np.stack([op.matvec(e) for e in np.eye(op.shape[1])], axis=1)


# ================================================================ running one contract
def run_sym(c, cfg, only, budget=120.0, max_paths=400):
    """explore every path of a contract; returns a dict of obligations"""
    t0 = time.time()
    sess = {'phase': 'A'}
    out = _explore(c, cfg, only, budget, max_paths, sess, t0)
    if sess.get('machine') and not out['undecided']:
        ext = None
        for rnd in range(8):
            sess['phase'] = 'B'
            sess['retry'] = False
            ext = _explore(c, cfg, only, budget, max_paths, sess, t0)
            if not sess['retry']:
                break
            # refutations seen before the invariant was weakened are only hints
            out['obls'] += [o[:5] + (True,) + o[6:] for o in ext['obls'] if o[2] == 'refuted']
        else:
            ext['undecided'].append('no inductive invariant found')
        out['obls'] += ext['obls']
        out['undecided'] += ['induction: ' + u for u in ext['undecided']]
        out['assumed'] |= ext['assumed']
        out['covers'].update(ext['covers'])
        out['paths'] += ext['paths']
        if not ext['undecided'] and not ext['covers'].get('induction step'):
            out['undecided'].append('induction: no path reaches the end of the loop body')
    out['time'] = time.time() - t0
    return out


def _explore(c, cfg, only, budget, max_paths, sess, t0):
    out = {'paths': 0, 'obls': [], 'undecided': [], 'covers': {}, 'assumed': set(), 'time': 0.0}
    stack = [[]]
    while stack:
        if time.time() - t0 > budget:
            out['undecided'].append('time budget of %ds spent, %d path prefixes left' % (budget, len(stack)))
            break
        if out['paths'] >= max_paths:
            out['undecided'].append('more than %d paths' % max_paths)
            break
        prefix = stack.pop()
        C = Ctx(prefix, {'session': sess})
        set_ctx(C)
        B = SymB(C, cfg, c.props[0])
        B.only = only
        err = None
        try:
            c.fn(B, **pub(cfg))
            out['covers']['end reached'] = True
        except Infeasible:
            set_ctx(None)
            continue_ = True
            err = 'infeasible'
        except PathDone:
            out['covers']['loop step reached'] = True
        except Unsupported as e:
            err = 'unsupported: %s' % e
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb if '/pyproximal/' in f.filename]
            if where:
                err += ' at %s:%d' % (where[-1].filename.split('/pyproximal/')[-1], where[-1].lineno)
        except RecursionError:
            err = 'unsupported: recursion'
        except Exception as e:
            if DEBUG:
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb if '/pyproximal/' in f.filename]
            err = 'exception: %s: %s at %s' % (type(e).__name__, e, ('%s:%d' % (where[-1].filename.split('/pyproximal/')[-1], where[-1].lineno)) if where else
                                               '%s:%d' % (tb[-1].filename, tb[-1].lineno))
        out['paths'] += 1
        for (label, prop, res, junk) in B.obls:
            out['obls'].append((label, prop, res.status, res.backend, res.note, junk, _model(C, B, res)))
        for (label, res) in C.obls:
            out['obls'].append((label, c.props[0], res.status, res.backend, res.note, False, None))
        out['assumed'] |= C.assumed
        out['covers'].update(B.covers)
        if err and err != 'infeasible':
            # a path that cannot be taken proves nothing and refutes nothing
            from . import prover
            import z3
            if prover.quick_sat(C, z3.BoolVal(True), 3000) != z3.unsat:
                out['undecided'].append(err)
        for i in range(len(C.decisions) - 1, len(prefix) - 1, -1):
            v, forced = C.decisions[i]
            if not forced:
                stack.append([d[0] for d in C.decisions[:i]] + [not v])
        set_ctx(None)
    return out


def _model(C, B, res):
    if res.model is None:
        return None
    m = {}
    for d in res.model.decls():
        n = d.name()
        try:
            v = res.model[d]
            import z3
            if z3.is_rational_value(v):
                m[n] = float(v.numerator_as_long()) / float(v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                m[n] = float(a.numerator_as_long()) / float(a.denominator_as_long())
            elif z3.is_true(v) or z3.is_false(v):
                m[n] = bool(z3.is_true(v))
        except Exception:
            pass
    # keep inputs only
    return {k: v for k, v in m.items() if k.split('@')[0].split('.')[0] in B.names or k.startswith('n!')}


def model_to_over(model):
    """counter-model -> concrete inputs: scalars by name, arrays from their values at the indices in use"""
    over, arr = {}, {}
    for k, v in (model or {}).items():
        if isinstance(v, bool):
            continue
        if '@' in k:
            nm, _ = k.split('@', 1)
            arr.setdefault(nm.split('.')[0], []).append(v)
        elif not k.startswith('n!'):
            over[k] = v
    over.update(arr)
    return over


def run_num(c, cfg, only, seeds, over=None, budget=60.0, search=False):
    """returns (violation or None, stats)"""
    t0 = time.time()
    st = {'cases': 0, 'claims': 0, 'skipped': 0, 'sample': None}
    for sd in seeds:
        if time.time() - t0 > budget:
            break
        B = NumB(sd, dict(cfg, _narrow=getattr(c, 'narrow', False), _search=search), c.props[0], over)
        B.only, B.nth = only, st['cases']
        try:
            with np.errstate(all='ignore'):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with contextlib.redirect_stdout(io.StringIO()):
                        try:
                            c.fn(B, **pub(cfg))
                        finally:
                            B.close()
            st['cases'] += 1
            st['claims'] += B.nclaims
            if st['sample'] is None:
                st['sample'] = _short(B.inputs)
        except Skip:
            st['skipped'] += 1
        except Violation as v:
            return {'label': v.label, 'prop': v.prop, 'detail': v.detail[:2000], 'seed': sd, 'inputs': _short(B.inputs), 'over': over}, st
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb if '/pyproximal/' in f.filename]
            if only is not None and c.props[0] not in only:
                # the contract's own property reports the crash
                st['cases'] += 1
                continue
            return {'label': 'completes without an unexpected exception', 'prop': c.props[0],
                    'detail': '%s: %s (%s)' % (type(e).__name__, e, '%s:%d' % (where[-1].filename, where[-1].lineno) if where else
                                               '%s:%d' % (tb[-1].filename, tb[-1].lineno)),
                    'seed': sd, 'inputs': _short(B.inputs), 'over': over, 'infra': not where}, st
    return None, st


def _short(d):
    o = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            if np.iscomplexobj(v):
                o[k] = {'re': v.real.ravel()[:40].tolist(), 'im': v.imag.ravel()[:40].tolist()}
            else:
                o[k] = v.ravel()[:40].tolist()
        else:
            o[k] = v
    return o
