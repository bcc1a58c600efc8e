"""Symbolic domain of the verifier: reals, booleans and arrays of symbolic length.

Everything here is the *logic* in which obligations are stated.  The code that is
verified is the real code of /repo, executed on these values (see loader.py).
Scalars are mathematical reals; arrays are finite sequences of reals of symbolic
length, kept as linear combinations of atoms, where an atom is an input array, the
result of an uninterpreted function (a prox, a gradient, A x ...), or an
elementwise-defined array given by its value at a generic index.
"""
from __future__ import annotations

import itertools
import math
import time
from fractions import Fraction

import z3

_FLOAT, _INT, _BOOL, _ISI = float, int, bool, isinstance


class Unsupported(Exception):
    """The symbolic domain has no meaning for this operation: obligation undecided."""


class PathDone(BaseException):
    """End of a path that is covered by an inductive step."""


class Infeasible(BaseException):
    pass


# --------------------------------------------------------------------------- ctx
class Ctx:
    def __init__(self, prefix=(), opts=None):
        self.prefix = list(prefix)
        self.decisions = []          # (value, forced)
        self.pc = []                 # z3 bools
        self.known = {}              # ast id -> bool
        self.keep = []               # keep z3 asts alive
        self.fresh = itertools.count()
        self.axioms = {}             # const name -> list of z3 axioms (need closure)
        self.quants = {}             # const name -> ('all', [fn]) fn: idx -> Bool
        self.maxes = {}              # const name -> [fn] : idx -> Real
        self.cache = {}              # generic memo
        self.apps = {}               # fname -> list of (args, result)
        self.elem_facts = []         # fn: idx -> Bool   (hold for all idx)
        self.atoms = []
        self.gram_info = {}          # name -> (a,b)
        self.obls = []               # Obl
        self.trace = []              # ghost event trace
        self.opts = opts or {}
        self.atomidx = {}            # atom id -> {idxkey: (idx, const)}
        self.solver_time = 0.0
        self.nq = 0
        self.assumed = set()
        self.I = z3.Real('i!')
        self.idxterms = {'i!': self.I}
        self.loop_hook = None
        self.sqvec = {}              # const name of a norm -> components
        self.blocks = {}
        self.isets = []              # index sets of known size

    def sqrt_arg(self, e):
        """e is sqrt(a) with a >= 0 known: a"""
        t = self.cache.get(('sqrtarg', e.get_id()))
        if t is None:
            return None
        from . import prover
        return t if ('nonneg', t.get_id()) in self.cache or prover.implied(self, t >= 0, 1500) else None

    def oblige(self, name, goal):
        from . import prover
        r = prover.prove(self, goal)
        self.obls.append((name, r))

    # -- naming
    def name(self, base):
        return '%s!%d' % (base, next(self.fresh))

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.known:
            return self.known[key]
        self.keep.append(cond)
        i = len(self.decisions)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.decisions.append((val, True))
        else:
            t = self.check_sat(cond)
            f = self.check_sat(z3.Not(cond))
            if t == z3.unsat and f == z3.unsat:
                raise Infeasible()
            if t == z3.unsat:
                val, forced = False, True
            elif f == z3.unsat:
                val, forced = True, True
            else:
                val, forced = True, False
            self.decisions.append((val, forced))
            if len(self.decisions) > self.opts.get('max_dec', 60):
                raise Unsupported('too many decisions on a path')
        lit = cond if val else z3.Not(cond)
        self.pc.append(lit)
        self.known[key] = val
        nc = z3.simplify(z3.Not(cond))
        self.keep.append(nc)
        self.known[nc.get_id()] = not val
        return val

    def check_sat(self, extra, timeout=1500):
        from . import prover
        sess = self.opts.get('session', {})
        if sess.get('slow', 0) >= 6:
            # the solver does not settle the branches of this contract: both sides are explored
            timeout = 300
        r = prover.quick_sat(self, extra, timeout)
        if r == z3.unknown:
            sess['slow'] = sess.get('slow', 0) + 1
        return r

    def assume(self, cond):
        if _ISI(cond, SB):
            cond = cond.e
        if _ISI(cond, _BOOL):
            cond = z3.BoolVal(cond)
        self.pc.append(cond)


CTX: Ctx | None = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ----------------------------------------------------------------------- scalars
def is_num(v):
    if _ISI(v, (S, SB, V, BV, Sm, SmB)):
        return False
    return _ISI(v, (_INT, _FLOAT, Fraction)) or (
        hasattr(v, 'dtype') and hasattr(v, 'item') and getattr(v, 'ndim', 1) == 0)


def z(v):
    """lift to a z3 real"""
    if _ISI(v, S):
        return v.e
    if _ISI(v, SB):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    if _ISI(v, z3.ExprRef):
        return v
    if hasattr(v, 'item') and not _ISI(v, (V, BV)):
        v = v.item()
    if _ISI(v, _BOOL):
        return z3.RealVal(1 if v else 0)
    if _ISI(v, _INT):
        return z3.RealVal(v)
    if _ISI(v, _FLOAT):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported('inf/nan in arithmetic')
        return z3.RealVal(str(Fraction(v)))
    if _ISI(v, Fraction):
        return z3.RealVal(str(v))
    raise Unsupported('cannot lift %r' % type(v))


def isinf(v):
    return _ISI(v, _FLOAT) and math.isinf(v)


def simp(e):
    return z3.simplify(e)


def mk(e):
    e = z3.simplify(e)
    return S(e)


def num_of(e):
    """Fraction if the z3 expr is a numeral, else None"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


class S:
    """symbolic real"""
    __slots__ = ('e', 'isint')
    __array_priority__ = 1000
    ndim = 0
    size = 1
    shape = ()
    dtype = 'float64'

    def __init__(self, e, isint=False):
        self.e = e
        self.isint = isint

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    # arithmetic
    def _bin(self, o, f, rev=False):
        if _ISI(o, (V, BV, Sm)):
            return NotImplemented
        if _ISI(o, complex):
            raise Unsupported('complex')
        if not _ISI(o, (S, SB, z3.ExprRef)) and not is_num(o):
            return NotImplemented
        a, b = self.e, z(o)
        if rev:
            a, b = b, a
        r = mk(f(a, b))
        r.isint = self.isint and (getattr(o, 'isint', False) or _ISI(o, _INT))
        return r

    def __add__(self, o):
        if isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if isinf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinf(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _ISI(o, S) and o.e.eq(self.e) and z3.is_const(self.e):
            t = ctx().sqrt_arg(self.e)
            if t is not None:
                return S(t)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinf(o):
            return 0.0
        r = self._bin(o, lambda a, b: a / b)
        if r is not NotImplemented:
            r.isint = False
        return r

    def __rtruediv__(self, o):
        r = self._bin(o, lambda a, b: a / b, True)
        if r is not NotImplemented:
            r.isint = False
        return r

    def __floordiv__(self, o):
        return uscalar('floordiv', (self, S(z(o))), isint=True)

    def __rfloordiv__(self, o):
        return uscalar('floordiv', (S(z(o)), self), isint=True)

    def __mod__(self, o):
        return uscalar('mod', (self, S(z(o))), isint=True)

    def __rmod__(self, o):
        if _ISI(o, str):
            return NotImplemented
        return uscalar('mod', (S(z(o)), self), isint=True)

    def __neg__(self):
        return S(simp(-self.e), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, p):
        if is_num(p) and p == 2:
            a = ctx().sqrt_arg(self.e)
            if a is not None:
                return S(a)
        return spow(self, p)

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')

    # comparison
    def _cmp(self, o, f):
        if _ISI(o, (V, BV, Sm)):
            return NotImplemented
        if _ISI(o, SB) or is_num(o) or _ISI(o, S):
            return SB(f(self.e, z(o)))
        return NotImplemented

    def __lt__(self, o):
        if isinf(o):
            return o > 0
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if isinf(o):
            return o > 0
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if isinf(o):
            return o < 0
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if isinf(o):
            return o < 0
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinf(o) or o is None or _ISI(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if isinf(o) or o is None or _ISI(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = object.__hash__

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __float__(self):
        # only formatting of log lines reaches this; the builtin float() of the
        # verified modules is replaced and keeps the symbolic value
        return 0.5

    def __int__(self):
        return 1

    def __index__(self):
        q = num_of(simp(self.e))
        if q is not None and q.denominator == 1:
            return int(q)
        raise Unsupported('symbolic value used as a concrete index')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return 'S(%s)' % self.e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy-scalar look
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def conj(self):
        return self

    def sum(self, axis=None):
        return self

    def max(self):
        return self

    def ravel(self):
        raise Unsupported('ravel of scalar')

    def astype(self, *a, **k):
        return self


class SB:
    """symbolic boolean"""
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if _ISI(o, BV):
            return NotImplemented
        return SB(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        if _ISI(o, BV):
            return NotImplemented
        return SB(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __eq__(self, o):
        return SB(self.e == zb(o))

    def __ne__(self, o):
        return SB(self.e != zb(o))

    __hash__ = object.__hash__

    # arithmetic use: 0/1
    def _s(self):
        return S(z(self))

    def __add__(self, o):
        return self._s() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._s() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._s() - o

    def __rsub__(self, o):
        return o - self._s()

    def __lt__(self, o):
        return self._s() < o

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        return 0.5

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return 'SB(%s)' % self.e


def zb(v):
    if _ISI(v, SB):
        return v.e
    if _ISI(v, z3.BoolRef):
        return v
    return z3.BoolVal(_BOOL(v))


def const(name, axioms=()):
    c = z3.Real(name)
    if axioms:
        ctx().axioms.setdefault(name, []).extend(axioms)
    return c


def fresh(base, pos=False, nonneg=False, isint=False):
    c = ctx()
    n = c.name(base)
    k = z3.Real(n)
    if pos:
        c.axioms[n] = [k > 0]
    elif nonneg:
        c.axioms[n] = [k >= 0]
    return S(k, isint)


def ckey(*zs):
    """hashable key of z3 expressions (kept alive by the context)"""
    c = ctx()
    out = []
    for e in zs:
        e = z3.simplify(e, som=True) if _ISI(e, z3.ArithRef) else z3.simplify(e)
        c.keep.append(e)
        out.append(e.get_id())
    return tuple(out)


def uscalar(fname, args, isint=False, axioms=None):
    """uninterpreted scalar function of scalars, congruent"""
    c = ctx()
    zs = [z(a) for a in args]
    k = (fname,) + ckey(*zs)
    if k in c.cache:
        return c.cache[k]
    # semantic congruence against earlier applications
    from . import prover
    for (zz, r) in c.apps.setdefault(('u', fname), []):
        g = z3.And(*[a == b for a, b in zip(zz, zs)]) if zs else z3.BoolVal(True)
        if prover.implied(c, g):
            c.cache[k] = r
            return r
    n = c.name(fname)
    r = S(z3.Real(n), isint)
    if axioms:
        c.axioms[n] = axioms(r.e, *zs)
    # remember the arguments: replay needs them
    c.cache[k] = r
    c.apps[('u', fname)].append((zs, r))
    return r


def ssqrt(a, nonneg=False):
    """nonneg: the argument is a sum of squares"""
    if is_num(a):
        f = Fraction(a)
        rn, rd = math.isqrt(f.numerator) if f >= 0 else -1, math.isqrt(f.denominator)
        if f >= 0 and rn * rn == f.numerator and rd * rd == f.denominator:
            return _FLOAT(Fraction(rn, rd))
    e = z3.simplify(z(a), som=True)
    q = num_of(e)
    if q is not None and q >= 0:
        rn, rd = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if rn * rn == q.numerator and rd * rd == q.denominator:
            return S(z3.RealVal(str(Fraction(rn, rd))))
    c = ctx()
    k = ('sqrt',) + ckey(e)
    if nonneg:
        c.keep.append(e)
        c.cache[('nonneg', e.get_id())] = True
    if k in c.cache:
        return c.cache[k]
    lst, hit = semfind(c, 'sqrt', e)
    if hit is not None:
        c.cache[('nonneg', e.get_id())] = nonneg or c.cache.get(('nonneg', e.get_id()), False)
        c.cache[k] = hit
        return hit
    n = c.name('sqrt')
    s = z3.Real(n)
    if lst is not None:
        lst.append((e, S(s)))
    c.axioms[n] = [z3.And(s >= 0, s * s == e) if nonneg else z3.Implies(e >= 0, z3.And(s >= 0, s * s == e))]
    c.keep.append(s)
    c.cache[('sqrtarg', s.get_id())] = e
    c.cache[k] = S(s)
    return c.cache[k]


def _sfun(name, axioms):
    def f(a):
        c = ctx()
        e = z3.simplify(z(a), som=True)
        k = (name,) + ckey(e)
        if k in c.cache:
            return c.cache[k]
        n = c.name(name)
        s = z3.Real(n)
        c.axioms[n] = axioms(s, e)
        lst = c.apps.setdefault(('m', name), [])
        for (e2, s2) in lst:     # monotonicity and congruence
            c.axioms[n] = c.axioms[n] + [z3.Implies(e2 == e, s2 == s),
                                         z3.Implies(e2 < e, s2 < s),
                                         z3.Implies(e < e2, s < s2)]
        lst.append((e, s))
        c.cache[k] = S(s)
        return c.cache[k]
    return f


sexp = _sfun('exp', lambda s, e: [s > 0, z3.Implies(e < 0, s < 1), z3.Implies(e > 0, s > 1), z3.Implies(e == 0, s == 1), s >= 1 + e])
slog = _sfun('log', lambda s, e: [z3.Implies(e > 1, s > 0), z3.Implies(z3.And(e > 0, e < 1), s < 0), z3.Implies(e > 0, s <= e - 1), z3.Implies(e == 1, s == 0)])


def _powfun(name, axioms):
    """a function given by axioms between value and argument (same argument, same value)"""
    def f(a):
        c = ctx()
        e = z3.simplify(z(a), som=True)
        k = (name,) + ckey(e)
        if k in c.cache:
            return c.cache[k]
        lst, hit = semfind(c, name, e)
        if hit is not None:
            c.cache[k] = hit
            return hit
        n = c.name(name)
        s = z3.Real(n)
        c.axioms[n] = axioms(s, e)
        c.keep.append(s)
        c.cache[('arg', name, s.get_id())] = e
        c.cache[k] = S(s)
        if lst is not None:
            lst.append((e, S(s)))
        return c.cache[k]
    return f


# real powers of negative numbers are nan: nothing is said about them
scbrt = _powfun('cbrt', lambda s, e: [z3.Implies(e >= 0, z3.And(s >= 0, s * s * s == e))])
sacos = _powfun('acos', lambda s, e: [])
# principal branch, real for arguments of at least -1/e
slambertw = _powfun('lambertw', lambda s, e: [s >= -1, z3.Implies(e >= 0, s >= 0), z3.Implies(e < 0, s < 0), z3.Implies(e + sexp(S(z3.RealVal(-1))).e >= 0, s * sexp(S(s)).e == e)])


def scos(a):
    """the cosine of a third of an arc cosine is the root in [1/2, 1] of 4 y^3 - 3 y = c"""
    c = ctx()
    e = z3.simplify(z(a), som=True)
    third = None
    for cst in _consts(e):
        if cst.decl().name().startswith('acos!') and num_of(z3.simplify(e - cst / 3)) is not None and abs(num_of(z3.simplify(e - cst / 3))) == 0:
            third = c.cache[('arg', 'acos', cst.get_id())]
    if third is None:
        for cst in _consts(e):
            if cst.decl().name().startswith('acos!'):
                raise Unsupported('cosine')
        return _scos0(S(e))
    return _cos3(S(third))


def _consts(e):
    from . import prover
    return list(prover.consts_of([e]).values())


_scos0 = _powfun('cos', lambda s, e: [s >= -1, s <= 1])
_cos3 = _powfun('cosacos3', lambda s, e: [z3.Implies(z3.And(e >= -1, e <= 1), z3.And(2 * s >= 1, s <= 1, 4 * s * s * s - 3 * s == e))])


def spow(a, p):
    if _ISI(p, S):
        q = num_of(simp(p.e))
        if q is None:
            raise Unsupported('symbolic exponent')
        p = q
    p = Fraction(p)
    if p.denominator == 1 and 0 <= p <= 6:
        r = S(z3.RealVal(1))
        for _ in range(int(p)):
            r = r * a
        return r
    if p == Fraction(1, 2):
        return ssqrt(a)
    if abs(p - Fraction(1, 3)) < Fraction(1, 10 ** 15):
        return scbrt(a)
    if p.denominator == 1 and -4 <= p < 0:
        return 1 / spow(a, -p)
    raise Unsupported('power %s' % p)


def smax(a, b):
    if isinf(a):
        return a if a > 0 else b
    if isinf(b):
        return b if b > 0 else a
    if not _ISI(a, (S, SB)) and not _ISI(b, (S, SB)):
        return a if a >= b else b
    x, y = z(a), z(b)
    return mk(z3.If(x >= y, x, y))


def smin(a, b):
    if isinf(a):
        return a if a < 0 else b
    if isinf(b):
        return b if b < 0 else a
    if not _ISI(a, (S, SB)) and not _ISI(b, (S, SB)):
        return a if a <= b else b
    x, y = z(a), z(b)
    return mk(z3.If(x <= y, x, y))


def ssign(a):
    x = z(a)
    return mk(z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))))


def sabs(a):
    x = z(a)
    return mk(z3.If(x >= 0, x, -x))


# ------------------------------------------------------------------------ arrays
class Atom:
    __slots__ = ('id', 'name', 'defn', 'tag', 'size')

    def __init__(self, name, size, defn=None, tag=None):
        c = ctx()
        self.id = len(c.atoms)
        self.name = name
        self.defn = defn       # idx(z3) -> z3 real
        self.tag = tag         # ('prod', val, val) | ('abs', val) | ('lin', op, kind, atom)
        self.size = size
        c.atoms.append(self)

    def at(self, idx):
        c = ctx()
        if self.defn is not None:
            k = ('at', self.id, idx.get_id())
            if k not in c.cache:
                c.keep.append(idx)
                c.cache[k] = self.defn(idx)
            return c.cache[k]
        d = c.atomidx.setdefault(self.id, {})
        k = z3.simplify(idx)
        key = k.sexpr()
        if key not in d:
            d[key] = (k, z3.Real('%s@%s' % (self.name, key)))
            c.idxterms.setdefault(key, k)
            c.axioms.setdefault('%s@%s' % (self.name, key), [])
        return d[key][1]

    def __repr__(self):
        return self.name


ONE_KEY = 'ones'


def ones_atom(size):
    c = ctx()
    k = (ONE_KEY,) + ckey(z(size))
    if k not in c.cache:
        c.cache[k] = Atom('ones', size, defn=lambda idx: z3.RealVal(1), tag=('ones',))
    return c.cache[k]


def unit_atom(k, size):
    """1 at index k, 0 elsewhere; k must be a valid index"""
    from . import prover
    c = ctx()
    key = ('unit',) + ckey(k, z(size))
    if key not in c.cache:
        if not prover.implied(c, z3.And(k >= 0, k < z(size))):
            raise Unsupported('index not known to be in range')
        c.cache[key] = Atom(c.name('unit'), size, defn=lambda idx: z3.If(idx == k, z3.RealVal(1), z3.RealVal(0)), tag=('unit', k))
    return c.cache[key]


class Val:
    """immutable value of one array block: linear combination of atoms"""
    __slots__ = ('lin', 'size')

    def __init__(self, lin, size):
        self.lin = lin
        self.size = size

    def at(self, idx):
        t = None
        for a, cf in self.lin.items():
            term = cf * a.at(idx)
            t = term if t is None else t + term
        return z3.RealVal(0) if t is None else z3.simplify(t)

    def add(self, o, k=1):
        lin = dict(self.lin)
        kz = z(k)
        for a, cf in o.lin.items():
            cf = kz * cf
            if a in lin:
                s = z3.simplify(lin[a] + cf, som=True)
                if num_of(s) == 0:
                    del lin[a]
                else:
                    lin[a] = s
            else:
                s = z3.simplify(cf, som=True)
                if num_of(s) != 0:
                    lin[a] = s
        return Val(lin, self.size)

    def scale(self, k):
        kz = z(k)
        lin = {}
        for a, cf in self.lin.items():
            s = z3.simplify(kz * cf)
            if num_of(s) != 0:
                lin[a] = s
        return Val(lin, self.size)

    def key(self):
        return tuple(sorted((a.id,) + ckey(cf) for a, cf in self.lin.items()))

    def __repr__(self):
        return ' + '.join('%s*%s' % (cf, a) for a, cf in self.lin.items()) or '0'


def vconst(k, size):
    kz = z3.simplify(z(k))
    if num_of(kz) == 0:
        return Val({}, size)
    return Val({ones_atom(size): kz}, size)


def vatom(a):
    return Val({a: z3.RealVal(1)}, a.size)


def uniform(val):
    """scalar k if the block is constant k everywhere, else None"""
    if not val.lin:
        return z3.RealVal(0)
    if len(val.lin) == 1:
        (a, cf), = val.lin.items()
        if a.tag == ('ones',):
            return cf
    return None


_RV = {}


def semhash(c, e):
    """value of e at two fixed pseudo-random assignments; None when it does not evaluate"""
    from . import prover
    cs = prover.consts_of([e])
    if not cs or len(cs) > 60:
        return None
    out = []
    for r in (0, 1):
        sub = []
        for n, k in cs.items():
            if (n, r) not in _RV:
                import hashlib
                h = int(hashlib.md5(('%s/%d' % (n, r)).encode()).hexdigest()[:6], 16)
                _RV[(n, r)] = h
            h = _RV[(n, r)]
            if k.sort() == z3.RealSort():
                sub.append((k, z3.RealVal('%d/%d' % ((h % 1999) - (0 if h % 3 else 999) or 7, 101 + h % 397))))
            elif k.sort() == z3.BoolSort():
                sub.append((k, z3.BoolVal(h % 2 == 0)))
            else:
                return None
        q = z3.simplify(z3.substitute(e, *sub))
        if not z3.is_rational_value(q):
            return None
        out.append(q.as_string())
    return tuple(out)


def semfind(c, kind, e):
    """an earlier entry of the same kind whose expression is provably equal to e; the caller registers new ones with semadd"""
    h = semhash(c, e)
    if h is None:
        return None, None
    lst = c.cache.setdefault(('sem', kind, h), [])
    if lst:
        from . import prover
        for e2, r in lst:
            if prover.rat_zero(c, e - e2) or prover.identical(e, e2) or (getattr(c, 'depth', 0) < 2 and prover.implied(c, e == e2, 400)):
                return lst, r
    return lst, None


def elem(fn, vals, size, tag=None, base='el'):
    """elementwise-defined block; hash-consed on its value at the generic index"""
    c = ctx()
    if any(a.tag and a.tag[0] == 'flip' for v in vals for a in v.lin):
        from . import spectral
        if spectral.flipped(vals):
            return spectral.flip(elem(fn, [spectral.flip(v) for v in vals], size, None, base))
    e = z3.simplify(fn(*[v.at(c.I) for v in vals]), som=True)
    c.keep.append(e)
    # constants stay linear
    if not _mentions(e, 'i!', c):
        return Val({ones_atom(size): e}, size) if num_of(e) != 0 else Val({}, size)
    k = ('elem', e.get_id()) + ckey(z(size))
    if k in c.cache:
        return vatom(c.cache[k])
    lst, a = semfind(c, ('elem',) + k[2:], e)
    if a is None:
        a = Atom(c.name(base), size, defn=lambda idx: fn(*[v.at(idx) for v in vals]), tag=tag)
        if lst is not None:
            lst.append((e, a))
    c.cache[k] = a
    return vatom(a)


def _mentions(e, idxname, c):
    """does e depend on an element of an array at the generic index?"""
    memo = c.cache.setdefault(('mentions', idxname), {})
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n == idxname or n.endswith('@' + idxname) or ('@' in n and idxname in n.split('@', 1)[1]):
                return True
            ax = c.axioms.get(n)
            if n.startswith(('sqrt!', 'exp!', 'log!')) and ax:
                stack.extend(ax)
        stack.extend(x.children())
    return False


def vmul(a, b):
    ka, kb = uniform(a), uniform(b)
    if ka is not None:
        return b.scale(ka)
    if kb is not None:
        return a.scale(kb)
    return elem(lambda x, y: x * y, [a, b], a.size, tag=('prod', a, b), base='mul')


def vdiv(a, b):
    kb = uniform(b)
    if kb is not None:
        return a.scale(z3.simplify(1 / kb))
    return elem(lambda x, y: x / y, [a, b], a.size, tag=('div', a, b), base='div')


def vabs(a):
    u = uniform(a)
    if u is not None:
        return vconst(sabs(u), a.size)
    return elem(lambda x: z3.If(x >= 0, x, -x), [a], a.size, tag=('abs', a), base='abs')


# inner products ------------------------------------------------------------------
def gram(a, b):
    c = ctx()
    # adjoint canonicalisation: <A^H u, b> = <u, A b>
    for p, q in ((a, b), (b, a)):
        if p.tag and p.tag[0] == 'lin' and p.tag[2] == 'adj' and not getattr(p.tag[1], 'isometry', False):
            op, u = p.tag[1], p.tag[3]
            return inner(vatom(u), op.base_matvec(vatom(q)))
    for p, q in ((a, b), (b, a)):
        # <A s, A w> with A^H A s known from a solved system
        if p.tag and p.tag[0] == 'lin' and p.tag[2] == 'mat' and q.tag and q.tag[0] == 'lin' and q.tag[2] == 'mat' \
                and p.tag[1] is q.tag[1] and p.tag[3].tag and p.tag[3].tag[0] == 'solve':
            op = p.tag[1]
            if tuple(p.tag[3].tag[1]) == ((op, True), (op, False)):
                return inner(op.base_rmatvec(vatom(p)), vatom(q.tag[3]))
    for p, q in ((a, b), (b, a)):
        if p.tag and p.tag[0] == 'lin' and p.tag[2] == 'mat' and getattr(p.tag[1], 'isometry', False):
            if q.tag and q.tag[0] == 'lin' and q.tag[1] is p.tag[1] and q.tag[2] == 'mat':
                return gram(p.tag[3], q.tag[3])
            return inner(vatom(p.tag[3]), p.tag[1].base_rmatvec(vatom(q)))
    if a.tag and a.tag[0] == 'word' or b.tag and b.tag[0] == 'word':
        from . import words
        return words.trace(a, b)
    for p, q in ((a, b), (b, a)):
        if p.tag and p.tag[0] == 'flip' and (q.tag == ('ones',) or q.tag and q.tag[0] == 'flip'):
            return gram(p.tag[1], q if q.tag == ('ones',) else q.tag[1])
    for p, q in ((a, b), (b, a)):
        if p.tag and p.tag[0] == 'unit':
            return S(z3.simplify(q.at(p.tag[1])))
    for p, q in ((a, b), (b, a)):
        if p.tag and p.tag[0] == 'prod' and q.tag == ('ones',):
            return inner(p.tag[1], p.tag[2])
    if a.tag and b.tag and a.tag[0] == 'abs' and b.tag[0] == 'abs' and a is b:
        return inner(a.tag[1], a.tag[1])
    if a.tag == ('ones',) and b.tag == ('ones',):
        return S(z(a.size))
    if b.id < a.id:
        a, b = b, a
    n = 'g<%s,%s>' % (a.name, b.name)
    if n not in c.gram_info:
        c.gram_info[n] = (a, b)
        k = z3.Real(n)
        c.axioms[n] = [k >= 0] if a is b else []
    return S(z3.Real(n))


def inner(v, w):
    tot = S(z3.RealVal(0))
    for a, ca in v.lin.items():
        for b, cb in w.lin.items():
            tot = tot + S(z3.simplify(ca * cb)) * gram(a, b)
    return S(z3.simplify(tot.e, som=True))


class Buf:
    __slots__ = ('val', 'owner', 'init')

    def __init__(self, val, owner=None):
        self.val = val
        self.owner = owner
        self.init = val


def _sz(x):
    return x


class V:
    """shim of numpy.ndarray: one or more blocks of symbolic length"""
    __array_priority__ = 2000
    dtype = 'float64'
    __array_ufunc__ = None

    def __init__(self, bufs, shape=None, rows=False):
        self.bufs = bufs
        self.rows = rows
        self._shape = shape

    @staticmethod
    def of(val, owner=None):
        return V([Buf(val, owner)])

    @property
    def vals(self):
        return [b.val for b in self.bufs]

    @property
    def size(self):
        t = self.bufs[0].val.size
        for b in self.bufs[1:]:
            t = t + b.val.size
        return t

    @property
    def shape(self):
        if self._shape is not None:
            return self._shape
        if self.rows:
            return (len(self.bufs), self.bufs[0].val.size)
        return (self.size,)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        if self.rows:
            return VT(self)
        raise Unsupported('transpose')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return V([Buf(Val({}, b.val.size)) for b in self.bufs], self._shape, self.rows)

    def _new(self, vals):
        return V([Buf(v) for v in vals], self._shape, self.rows)

    def _coerce(self, o):
        """values of the other operand, per block"""
        if _ISI(o, V):
            if len(o.bufs) == len(self.bufs):
                if len(o.bufs) == 1 and o.bufs[0].val.size is not self.bufs[0].val.size:
                    return [_conform(o.bufs[0].val, self.bufs[0].val.size)]
                return o.vals
            if self.rows and len(o.bufs) == 1:
                return [o.bufs[0].val] * len(self.bufs)
            raise Unsupported('broadcast')
        if _ISI(o, Sm):
            if len(o.items) == 1 and not self.rows:
                return [vconst(o.items[0], b.val.size) for b in self.bufs]
            if o.col and self.rows and len(o.items) == len(self.bufs):
                return [vconst(k, b.val.size) for k, b in zip(o.items, self.bufs)]
            raise Unsupported('broadcast small array')
        if _ISI(o, BV):
            return [elem_ite(f, b.val.size) for f, b in zip(o.fns, self.bufs)]
        if isinf(o):
            raise Unsupported('inf in array arithmetic')
        return [vconst(o, b.val.size) for b in self.bufs]

    def _shape_from(self, o):
        if _ISI(o, V) and o.rows and not self.rows and len(o.bufs) != len(self.bufs):
            return o
        return self

    def _ew(self, o, f):
        if _ISI(o, MaskedV) or getattr(o, '_vf_fac', False):
            return NotImplemented
        if _ISI(o, V) and len(self.bufs) == 1 and len(o.bufs) == 1 and num_of(simp(z(self.bufs[0].val.size))) == 1 and num_of(simp(z(o.bufs[0].val.size))) != 1:
            return o._new([f(_conform(self.vals[0], o.bufs[0].val.size), o.vals[0])])
        if _ISI(o, V) and o.rows and len(self.bufs) == 1 and (len(o.bufs) > 1 or not self.rows):
            vals = self.vals * len(o.bufs)
            return o._new([f(a, b) for a, b in zip(vals, o.vals)])
        return self._new([f(a, b) for a, b in zip(self.vals, self._coerce(o))])

    def _ip(self, o, f):
        ov = self._coerce(o)
        for b, w in zip(self.bufs, ov):
            b.val = f(b.val, w)
        return self

    def __add__(self, o):
        return self._ew(o, lambda a, b: a.add(b))

    __radd__ = __add__

    def __iadd__(self, o):
        return self._ip(o, lambda a, b: a.add(b))

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a.add(b, -1))

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: b.add(a, -1))

    def __isub__(self, o):
        return self._ip(o, lambda a, b: a.add(b, -1))

    def __mul__(self, o):
        return self._ew(o, vmul)

    __rmul__ = __mul__

    def __imul__(self, o):
        return self._ip(o, vmul)

    def __truediv__(self, o):
        return self._ew(o, vdiv)

    def __rtruediv__(self, o):
        return self._ew(o, lambda a, b: vdiv(b, a))

    def __itruediv__(self, o):
        return self._ip(o, vdiv)

    def __neg__(self):
        return self._new([v.scale(-1) for v in self.vals])

    def __pos__(self):
        return self

    def __abs__(self):
        return self._new([vabs(v) for v in self.vals])

    def __pow__(self, p):
        if not is_num(p):
            raise Unsupported('power')
        if p == 2:
            return self._new([vmul(v, v) for v in self.vals])
        if p == 1:
            return self.copy()
        return self._new([elem(lambda x: spow(S(x), p).e, [v], v.size, base='pow') for v in self.vals])

    def __matmul__(self, o):
        if _ISI(o, VT):           # rows @ rows.T -> small matrix
            return SmM([[inner(a, b) for b in o.v.vals] for a in self.vals])
        if _ISI(o, V) and self.ndim == 1 and o.ndim == 1:
            return vdot(self, o)
        raise Unsupported('matmul')

    # comparisons -> masks
    def _cmp(self, o, f):
        if o is None:
            return False
        if isinf(o):
            val = {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0}.get(f.__name__, False)
            return BV([(lambda idx, v=val: z3.BoolVal(v)) for _ in self.bufs], self)
        if _ISI(o, V) and o.rows and not self.rows and len(self.bufs) == 1:
            return BV([(lambda idx, a=self.vals[0], b=b: f(a.at(idx), b.at(idx))) for b in o.vals], o)
        ov = self._coerce(o)
        return BV([(lambda idx, a=a, b=b: f(a.at(idx), b.at(idx))) for a, b in zip(self.vals, ov)], self)

    def __lt__(self, o):
        def lt(a, b):
            return a < b
        return self._cmp(o, lt)

    def __le__(self, o):
        def le(a, b):
            return a <= b
        return self._cmp(o, le)

    def __gt__(self, o):
        def gt(a, b):
            return a > b
        return self._cmp(o, gt)

    def __ge__(self, o):
        def ge(a, b):
            return a >= b
        return self._cmp(o, ge)

    def __eq__(self, o):
        def eq(a, b):
            return a == b
        return self._cmp(o, eq)

    def __ne__(self, o):
        def ne(a, b):
            return a != b
        return self._cmp(o, ne)

    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported('truth value of an array')

    # indexing
    def _part(self, i):
        return V([self.bufs[i]])

    def __getitem__(self, i):
        if _ISI(i, tuple):
            if len(i) == 1:
                return self[i[0]]
            if self.rows and len(i) == 2 and _ISI(i[0], slice) and i[0] == slice(None) and _ISI(i[1], slice) and i[1] == slice(None):
                return self
            if all(_ISI(k, (_INT, S)) for k in i):
                if self.rows and len(i) == 2 and _ISI(i[0], _INT):
                    return self.bufs[i[0]].val_at(i[1]) if False else S(z3.simplify(self.bufs[i[0]].val.at(z(i[1]))))
                return S(z3.simplify(self.bufs[0].val.at(z(i[-1]))))
            if len(i) == 2 and self.ndim == 1 and all(k is None or (_ISI(k, slice) and k == slice(None)) for k in i) and (i[0] is None) != (i[1] is None):
                from . import spectral
                return spectral.Line(self, i[1] is None)
            raise Unsupported('index %r' % (i,))
        if _ISI(i, BV):
            return MaskedV([Buf(v) for v in self.vals], list(i.fns), self)
        if _ISI(i, IdxSet) and not self.rows and len(self.bufs) == 1:
            i.mask(self)
            return Gathered(self.vals[0], i)
        if i is None or i is Ellipsis:
            raise Unsupported('newaxis')
        if _ISI(i, slice):
            if i.step == -1 and i.start is None and i.stop is None:
                from . import spectral
                return spectral.vflip(self)
            if i.step is not None:
                raise Unsupported('strided slice')
            return self._slice(i.start, i.stop)
        if _ISI(i, Places):
            return i.gather(self)
        if self.rows:
            if _ISI(i, S):
                i = i.__index__()
            return self._part(i)
        if len(self.bufs) == 1 and _ISI(i, (_INT, S)):
            if _ISI(i, _INT) and i < 0:
                i = self.size + i
            return S(z3.simplify(self.bufs[0].val.at(z(i))))
        if _ISI(i, _INT):
            return S(z3.simplify(self.bufs[0].val.at(z(i))))
        raise Unsupported('index %r' % (i,))

    def _slice(self, a, b):
        if a is None and b is None:
            return self
        if self.rows:
            if (a is None or _ISI(a, _INT)) and (b is None or _ISI(b, _INT)):
                return V(self.bufs[a:b], None, True)
            raise Unsupported('row slice')
        from . import prover
        bounds = [z3.RealVal(0)]
        for bf in self.bufs:
            bounds.append(z3.simplify(bounds[-1] + z(bf.val.size)))
        za = z3.RealVal(0) if a is None else z(a)
        zb_ = bounds[-1] if b is None else z(b)
        if a is not None and (a < 0 if _ISI(a, _INT) else prover.implied(ctx(), za < 0)):
            za = z3.simplify(bounds[-1] + za)
        if b is not None and (b < 0 if _ISI(b, _INT) else prover.implied(ctx(), zb_ < 0)):
            zb_ = z3.simplify(bounds[-1] + zb_)
        ia = ib = None
        for j, t in enumerate(bounds):
            if ia is None and prover.implied(ctx(), t == za):
                ia = j
            if prover.implied(ctx(), t == zb_):
                ib = j
                if ia is not None and j > ia:
                    break
        if ia is not None and ib is not None and ib > ia:
            return V(self.bufs[ia:ib])
        if ia == 0 and len(self.bufs) == 1:
            return SliceV(self, b)
        raise Unsupported('slice bounds')

    def __setitem__(self, i, v):
        if _ISI(i, tuple) and len(i) == 2 and self.rows and i[0] == slice(None) and _ISI(i[1], (IdxSet, BV)):
            if not (_ISI(v, S) or is_num(v)):
                raise Unsupported('store into columns')
            m = i[1].mask(self) if _ISI(i[1], IdxSet) else BV([i[1].fns[0]] * len(self.bufs), self)
            if _ISI(i[1], BV) and len(i[1].fns) != 1:
                raise Unsupported('store into columns')
            i = m
        if _ISI(i, IdxSet):
            if self.rows or len(self.bufs) != 1:
                raise Unsupported('store at an index set')
            if _ISI(v, Gathered):
                if v.idx.order.rank is not i.order.rank or not v.idx.lo.eq(i.lo) or not v.idx.hi.eq(i.hi):
                    raise Unsupported('store of other entries')
                v = V([Buf(v.val)])
            elif not (_ISI(v, S) or is_num(v)):
                raise Unsupported('store at an index set')
            i = i.mask(self)
        if _ISI(i, BV):
            if _ISI(v, MaskedV):
                from . import prover
                c = ctx()
                for f, g in zip(i.fns, v.masks):
                    if not prover.implied_idx(c, lambda idx: f(idx) == g(idx)):
                        raise Unsupported('mask mismatch')
                src = [b.val for b in v.bufs]
            else:
                src = self._coerce(v)
            for b, f, s in zip(self.bufs, i.fns, src):
                old = b.val
                b.val = elem((lambda f: lambda idx_s: None)(f), [], old.size) if False else _ite(f, s, old)
            return
        if _ISI(i, Places):
            i.scatter(self, v)
            return
        if _ISI(i, tuple) and len(i) == 1:
            i = i[0]
        if _ISI(i, slice) and i == slice(None):
            for b, s in zip(self.bufs, self._coerce(v)):
                b.val = s
            return
        if _ISI(i, slice):
            tgt = self._slice(i.start, i.stop)
            if _ISI(tgt, SliceV):
                raise Unsupported('slice store')
            for b, s in zip(tgt.bufs, tgt._coerce(v)):
                b.val = s
            return
        if self.rows:
            if _ISI(i, S):
                i = i.__index__()
            b = self.bufs[i]
            b.val = V([b])._coerce(v)[0]
            return
        if len(self.bufs) == 1 and _ISI(i, (_INT, S)):
            b = self.bufs[0]
            old, k, zv = b.val, z3.simplify(z(i)), z(v)
            c = ctx()
            from . import prover
            if ('unit',) + ckey(k, z(old.size)) in c.cache or prover.implied(c, z3.And(k >= 0, k < z(old.size))):
                b.val = old.add(vatom(unit_atom(k, old.size)), z3.simplify(zv - old.at(k)))
                return
            e = z3.simplify(z3.If(c.I == k, zv, old.at(c.I)), som=True)
            c.keep.append(e)
            key = ('elem', e.get_id()) + ckey(z(old.size))
            if key not in c.cache:
                c.cache[key] = Atom(c.name('store'), old.size,
                                    defn=lambda idx: z3.If(idx == k, zv, old.at(idx)), tag=('store', old, k, zv))
            b.val = vatom(c.cache[key])
            return
        raise Unsupported('store %r' % (i,))

    def __len__(self):
        if self.rows:
            return len(self.bufs)
        raise Unsupported('len of symbolic array')

    def __iter__(self):
        if self.rows:
            return iter([self._part(i) for i in range(len(self.bufs))])
        raise Unsupported('iteration over a symbolic array')

    # methods
    def copy(self):
        return self._new(self.vals)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def conj(self):
        return self

    conjugate = conj

    def ravel(self, *a, **k):
        return V(self.bufs)

    def flatten(self):
        return V([Buf(v) for v in self.vals])

    def squeeze(self):
        return self

    def item(self):
        raise Unsupported('item')

    def reshape(self, *shp):
        if len(shp) == 1 and _ISI(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        if len(shp) == 1 and _ISI(shp[0], ShapeTok):
            return V(self.bufs, shp[0])
        if len(shp) == 1:
            return V(self.bufs)
        if len(shp) == 2 and len(self.bufs) == 1 and not self.rows:
            shp = _other_dim(shp, self.size)
        k = shp[0]
        if _ISI(k, S):
            q = num_of(simp(k.e))
            k = int(q) if q is not None else k
        if _ISI(k, _INT) and k == len(self.bufs) and len(shp) == 2:
            return V(self.bufs, None, True)
        if _ISI(k, _INT) and k == len(self.bufs) and k > 1:
            raise Unsupported('reshape')
        if len(shp) == 2 and len(self.bufs) == 1 and not self.rows and not any(_ISI(d, _INT) and d < 0 for d in shp):
            from . import spectral
            return spectral.MatX(self.bufs, tuple(shp))
        return V(self.bufs, tuple(shp))

    def sum(self, axis=None, keepdims=False):
        return vsum(self, axis, keepdims)

    def mean(self, axis=None):
        s = vsum(self, axis)
        return s / (len(self.bufs) if self.rows and axis == 0 else self.size)

    def dot(self, o):
        return vdot(self, o)

    def max(self, axis=None):
        if axis is not None:
            raise Unsupported('max axis')
        return vmax(self)

    def min(self, axis=None):
        return -vmax(-self)

    def all(self):
        raise Unsupported('all')

    def __repr__(self):
        return 'V(%s)' % '; '.join(repr(v) for v in self.vals)

    def __format__(self, s):
        return '<symarray>'


def _other_dim(shp, size):
    """(k, -1) and (-1, k) of a sequence whose length is written k*m"""
    for i in (0, 1):
        if _ISI(shp[i], _INT) and shp[i] == -1 and _ISI(shp[1 - i], S) and _ISI(size, S):
            e, q = z3.simplify(z(size)), z3.simplify(z(shp[1 - i]))
            if z3.is_mul(e):
                ch = list(e.children())
                for j, h in enumerate(ch):
                    if h.eq(q):
                        rest = ch[:j] + ch[j + 1:]
                        m = S(rest[0] if len(rest) == 1 else z3.simplify(z3.Product(*rest)), True)
                        return (shp[0], m) if i else (m, shp[1])
    return shp


class Places:
    """the index array of a restriction R (distinct indices): x[p] = R x, and the store x[p] = v makes
    x := R^H v + the sum over the other restrictions of the partition of R_j^H R_j x"""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, op):
        self.op = op

    @property
    def size(self):
        return self.op.m

    @property
    def shape(self):
        return (self.op.m,)

    def __len__(self):
        return self.op.m

    def gather(self, x):
        if x.rows or len(x.bufs) != 1:
            raise Unsupported('entries of several blocks')
        return V.of(self.op.base_matvec(x.vals[0]))

    def scatter(self, x, v):
        if x.rows or len(x.bufs) != 1:
            raise Unsupported('store into several blocks')
        old = x.bufs[0].val
        new = x._coerce(v)[0] if _ISI(v, S) or is_num(v) else None
        if new is not None:
            new = self.op.base_matvec(new)
        elif not _ISI(v, V) or len(v.bufs) != 1 or v.rows:
            raise Unsupported('store at given places')
        else:
            new = v.vals[0]
        # the restrictions of one partition cover every place: x = sum_j R_j^H R_j x
        out = self.op.base_rmatvec(new)
        for o in self.op.others:
            out = out.add(o.base_rmatvec(o.base_matvec(old)))
        x.bufs[0].val = out

    def __getitem__(self, i):
        raise Unsupported('part of an index array')


class SliceV:
    """prefix view v[:stop] with symbolic stop, only compared"""

    def __init__(self, v, stop):
        self.v, self.stop = v, stop

    def __format__(self, s):
        return '<slice>'


class VT:
    def __init__(self, v):
        self.v = v

    def __matmul__(self, w):     # rows.T @ small vector -> linear combination
        if _ISI(w, Sm):
            out = None
            for b, k in zip(self.v.vals, w.items):
                t = b.scale(k)
                out = t if out is None else out.add(t)
            return V.of(out)
        raise Unsupported('matmul T')

    @property
    def T(self):
        return self.v


class ShapeTok(tuple):
    pass


def _ite(f, a, b):
    c = ctx()
    size = b.size
    if any(t.tag and t.tag[0] == 'flip' for v in (a, b) for t in v.lin):
        from . import spectral
        if spectral.flipped([a, b]):
            n = z(size)
            return spectral.flip(_ite(lambda idx: f(z3.simplify(n - 1 - idx)), spectral.flip(a), spectral.flip(b)))
    if b.lin and all(t.tag and t.tag[0] == 'prod' and t.tag[1].key() == t.tag[2].key() for t in b.lin):
        # e.g. negative squares
        from . import prover
        if prover.implied_idx(c, lambda idx: z3.Not(f(idx))):
            return b
    e = z3.simplify(z3.If(f(c.I), a.at(c.I), b.at(c.I)), som=True)
    c.keep.append(e)
    if not _mentions(e, 'i!', c):
        return vconst(e, size)
    k = ('elem', e.get_id()) + ckey(z(size))
    if k not in c.cache:
        lst = at = None
        if all(t.tag == ('ones',) for v in (a, b) for t in v.lin):
            # indicators: the same condition written differently is the same sequence
            lst, at = semfind(c, ('ind',) + k[2:], e)
        if at is None:
            at = Atom(c.name('ite'), size, defn=lambda idx: z3.If(f(idx), a.at(idx), b.at(idx)))
            if lst is not None:
                lst.append((e, at))
        c.cache[k] = at
    return vatom(c.cache[k])


def _conform(val, size):
    """val against an array of this length: one entry is broadcast, otherwise the lengths are equal"""
    a, b = simp(z(val.size)), simp(z(size))
    if a.eq(b):
        return val
    c = ctx()
    k = ('conform',) + ckey(a, b)
    from . import prover
    if num_of(a) == 1:
        return vconst(S(simp(val.at(z3.RealVal(0)))), size)
    if k not in c.cache:
        c.cache[k] = prover.implied(c, a == b)
    if not c.cache[k]:
        raise Unsupported('lengths %s and %s' % (a, b))
    return val


def elem_ite(f, size):
    return _ite(f, vconst(1, size), vconst(0, size))


class BV:
    """elementwise boolean mask"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    dtype = 'bool'

    def __init__(self, fns, like):
        self.fns = list(fns)
        self.like = like

    @property
    def shape(self):
        return self.like.shape

    @property
    def size(self):
        return self.like.size

    def _b(self, o, f):
        if _ISI(o, BV):
            return BV([(lambda idx, p=p, q=q: f(p(idx), q(idx))) for p, q in zip(self.fns, o.fns)], self.like)
        return BV([(lambda idx, p=p: f(p(idx), zb(o))) for p in self.fns], self.like)

    def __and__(self, o):
        return self._b(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)

    __ror__ = __or__

    def __invert__(self):
        return BV([(lambda idx, p=p: z3.Not(p(idx))) for p in self.fns], self.like)

    def __eq__(self, o):
        return self._b(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._b(o, lambda a, b: a != b)

    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported('truth value of a mask')

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def num(self):
        return self.like._new([elem_ite(f, v.size) for f, v in zip(self.fns, self.like.vals)])

    def astype(self, *a, **k):
        return self.num()

    def sum(self, axis=None):
        return vsum(self.num(), axis)

    def any(self):
        return bany(self)

    def all(self):
        return ball(self)

    def copy(self):
        return BV(self.fns, self.like)

    def ravel(self):
        return self

    def reshape(self, *a):
        return self

    def __getitem__(self, i):
        if _ISI(i, BV):
            return MaskedB(self.fns, list(i.fns), self.like)
        raise Unsupported('mask index')

    def __setitem__(self, i, v):
        if _ISI(i, BV) and _ISI(v, MaskedB):
            old = list(self.fns)
            ii = list(i.fns)
            self.fns = [(lambda idx, m=m, s=s, o=o: z3.If(m(idx), s(idx), o(idx)))
                        for m, s, o in zip(ii, v.fns, old)]
            return
        raise Unsupported('mask store')


class MaskedV(V):
    """x[mask]: values only meaningful where the mask holds"""

    def __init__(self, bufs, masks, like, rows=False):
        V.__init__(self, bufs, None, rows)
        self.masks = masks
        self.like = like

    def _new(self, vals):
        return MaskedV([Buf(v) for v in vals], self.masks, self.like, self.rows)

    @property
    def size(self):
        return masksize(self) * len(self.bufs) if self.rows else masksize(self)

    @property
    def shape(self):
        return (len(self.bufs), masksize(self)) if self.rows else (masksize(self),)

    def _part(self, i):
        return MaskedV([self.bufs[i]], [self.masks[i]], self.like)

    def copy(self):
        return self._new(self.vals)

    def ravel(self, *a, **k):
        if self.rows:
            raise Unsupported('ravel of masked rows')
        return self

    def _coerce(self, o):
        if _ISI(o, MaskedV):
            from . import prover
            om, ov = o.masks, o.vals
            if self.rows and len(o.bufs) == 1 and not o.rows:
                om, ov = om * len(self.bufs), ov * len(self.bufs)
            if len(om) != len(self.masks):
                raise Unsupported('masked blocks')
            for f, g in zip(self.masks, om):
                if f is not g and not prover.implied_idx(ctx(), lambda idx: f(idx) == g(idx)):
                    raise Unsupported('mask mismatch')
            return ov
        if _ISI(o, Sm) and len(o.items) == 1 and not o.col:
            return [vconst(o.items[0], b.val.size) for b in self.bufs]
        if _ISI(o, (V, Sm)):
            raise Unsupported('masked and full array')
        return V._coerce(self, o)

    def _ew(self, o, f):
        if _ISI(o, MaskedV) and o.rows and not self.rows:
            return o._new([f(a, b) for a, b in zip(self.vals * len(o.bufs), o._coerce(self) and o.vals)])
        return self._new([f(a, b) for a, b in zip(self.vals, self._coerce(o))])

    def _cmp(self, o, f):
        if self.rows:
            raise Unsupported('comparison of masked rows')
        ov = self._coerce(o)
        return MaskedB([(lambda idx, a=a, b=b: f(a.at(idx), b.at(idx))) for a, b in zip(self.vals, ov)],
                       self.masks, self.like)

    def __getitem__(self, i):
        if self.rows and _ISI(i, _INT):
            return self._part(i)
        if self.rows and _ISI(i, tuple) and len(i) == 2 and _ISI(i[0], ArgIdx) and _ISI(i[1], IndexAll):
            return i[0].pick(self)
        if _ISI(i, MaskedB) and not self.rows:
            return MaskedV([Buf(b.val) for b in self.bufs], [(lambda idx, m=m, f=f: z3.And(m(idx), f(idx)))
                                       for m, f in zip(self.masks, i.fns)], self.like)
        raise Unsupported('masked index')

    def __setitem__(self, i, v):
        if not _ISI(i, MaskedB) or self.rows:
            raise Unsupported('masked store')
        src = v.vals if _ISI(v, MaskedV) else self._coerce(v)
        if _ISI(v, MaskedV):
            from . import prover
            for m, f, g in zip(self.masks, i.fns, v.masks):
                if not prover.implied_idx(ctx(), lambda idx: g(idx) == z3.And(m(idx), f(idx))):
                    raise Unsupported('mask mismatch')
        for b, f, s in zip(self.bufs, i.fns, src):
            b.val = _ite(f, s, b.val)

    def sum(self, axis=None, keepdims=False):
        raise Unsupported('masked sum')

    __hash__ = object.__hash__


class IndexAll:
    """0, 1, ..., n-1 for a symbolic n"""

    def __init__(self, n):
        self.n = n

    @property
    def size(self):
        return self.n


class ArgIdx:
    """argmin (argmax) over the rows; the first of equal entries"""

    def __init__(self, v, sign):
        self.v, self.vals, self.sign = v, v.vals, sign

    def chosen(self, idx):
        es = [w.at(idx) * self.sign for w in self.vals]
        out = []
        for j in range(len(es)):
            out.append(z3.And(*([es[j] < es[l] for l in range(j)] + [es[j] <= es[l] for l in range(j + 1, len(es))])))
        return out

    def pick(self, r):
        if len(r.bufs) != len(self.vals) or _ISI(r, MaskedV) != _ISI(self.v, MaskedV):
            raise Unsupported('fancy index')
        if _ISI(r, MaskedV):
            r._coerce(self.v)

        def at(*xs):
            return None
        out = r.vals[-1]
        for j in reversed(range(len(r.bufs) - 1)):
            out = _ite(lambda idx, j=j: self.chosen(idx)[j], r.vals[j], out)
        if _ISI(r, MaskedV):
            return MaskedV([Buf(out)], [r.masks[0]], r.like)
        return V([Buf(out)])


class ArgSort:
    """the order that sorts v: entry i has rank_i in 0..n-1; for every k some value separates the k entries of lowest rank from the others"""

    def __init__(self, v, rev=False, kth=None):
        if len(v.bufs) != 1 or _ISI(v, MaskedV):
            raise Unsupported('argsort')
        self.v, self.rev, self.kth = v, rev, kth
        self.val = v.vals[0]
        self.n = z(self.val.size)
        c = ctx()
        e = z3.simplify(self.val.at(c.I), som=True)
        c.keep.append(e)
        k = ('rank', e.get_id(), str(kth)) + ckey(self.n)
        if k not in c.cache:
            a = Atom(c.name('rank'), self.val.size)
            c.elem_facts.append(lambda idx, a=a, n=self.n: z3.And(a.at(idx) >= 0, a.at(idx) <= n - 1))
            c.cache[k] = a
        self.rank = c.cache[k]

    @property
    def size(self):
        return self.v.size

    def __len__(self):
        raise Unsupported('len of an order')

    def _bound(self, k):
        k = z(k)
        return z3.simplify(z3.If(k < 0, z3.If(self.n + k < 0, 0, self.n + k), z3.If(k > self.n, self.n, k)))

    def _split(self, k):
        """k entries of lowest rank <= split <= the others"""
        c = ctx()
        key = ('split', self.rank.id) + ckey(k)
        if key not in c.cache:
            if self.kth is not None:
                from . import prover
                if not prover.implied(c, z3.Or(k <= 0, k >= self.n, k == self.kth, k == self.kth + 1)):
                    raise Unsupported('slice of a partition')
            s = const(c.name('split'))
            w, r = self.val, self.rank
            c.elem_facts.append(lambda idx, s=s, w=w, r=r, k=k: z3.If(r.at(idx) < k, w.at(idx) <= s, w.at(idx) >= s))
            c.cache[key] = s
        return c.cache[key]

    def __getitem__(self, i):
        if not _ISI(i, slice):
            raise Unsupported('entry of an order')
        if i.step == -1 and i.start is None and i.stop is None:
            if self.kth is not None:
                raise Unsupported('reversed partition')
            r = ArgSort(self.v, not self.rev)
            return r
        if i.step not in (None, 1):
            raise Unsupported('strided order')
        lo = z3.RealVal(0) if i.start is None else self._bound(i.start)
        hi = self.n if i.stop is None else self._bound(i.stop)
        if self.rev:
            lo, hi = z3.simplify(self.n - hi), z3.simplify(self.n - lo)
        return IdxSet(self, lo, hi)


class IdxSet:
    """the entries of rank lo..hi-1 of an order, in that order"""

    def __init__(self, order, lo, hi):
        self.order, self.lo, self.hi = order, lo, hi
        r, c = order.rank, ctx()
        self.f = lambda idx: z3.And(r.at(idx) >= lo, r.at(idx) < hi)
        self.count = z3.simplify(z3.If(hi > lo, hi - lo, 0))
        self.ind = elem_ite(self.f, order.val.size)
        self.splits = [order._split(lo), order._split(hi)]
        key = ('count', r.id) + ckey(lo, hi)
        if key not in c.cache:
            c.cache[key] = True
            c.pc.append(inner(self.ind, vatom(ones_atom(order.val.size))).e == self.count)
            c.isets.append(self)

    @property
    def size(self):
        return S(self.count, True)

    def mask(self, like):
        for v in like.vals:
            _conform(v, self.order.val.size)
        return BV([self.f] * len(like.bufs), like)


class Gathered:
    """the entries at an index set, in its order"""

    def __init__(self, val, idx):
        self.val, self.idx = val, idx

    def copy(self):
        return self

    def sum(self, axis=None):
        return inner(self.val, self.idx.ind)


class MaskedB:
    def __init__(self, fns, masks, like):
        self.fns, self.masks, self.like = fns, masks, like

    def __and__(self, o):
        return MaskedB([(lambda idx, p=p, q=q: z3.And(p(idx), q(idx))) for p, q in zip(self.fns, o.fns)],
                       self.masks, self.like)

    def __or__(self, o):
        return MaskedB([(lambda idx, p=p, q=q: z3.Or(p(idx), q(idx))) for p, q in zip(self.fns, o.fns)],
                       self.masks, self.like)

    def where(self, a, b):
        like = MaskedV([Buf(v) for v in self.like.vals], self.masks, self.like)
        return like._new([_ite(f, p, q) for f, p, q in zip(self.fns, like._coerce(a), like._coerce(b))])

    def __invert__(self):
        return MaskedB([(lambda idx, p=p: z3.Not(p(idx))) for p in self.fns], self.masks, self.like)


def masksize(m):
    return uscalar('masksize', ())


class Sm:
    """small concrete-length 1-d array of scalars"""
    __array_priority__ = 1500
    __array_ufunc__ = None
    dtype = 'float64'

    def __init__(self, items, col=False):
        self.items = list(items)
        self.col = col
        self.init = list(items)

    @property
    def size(self):
        return len(self.items)

    @property
    def shape(self):
        return (len(self.items), 1) if self.col else (len(self.items),)

    ndim = 1

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        if _ISI(i, tuple):
            if len(i) == 2 and i[0] == slice(None) and i[1] is None:
                return Sm(self.items, True)
            if len(i) == 2 and i[0] is None and i[1] == slice(None):
                return SmM([self.items])
            raise Unsupported('small index')
        if i is None:
            return SmM([self.items])
        if _ISI(i, slice):
            return Sm(self.items[i])
        return self.items[i if _ISI(i, _INT) else i.__index__()]

    def __setitem__(self, i, v):
        if _ISI(i, SmB):
            vi = v.items if _ISI(v, Sm) else [v] * len(self.items)
            self.items = [mk(z3.If(zb(c), z(n), z(o))) for c, n, o in zip(i.items, vi, self.items)]
            return
        self.items[i] = v

    def _ew(self, o, f, rev=False):
        if _ISI(o, V):
            return NotImplemented
        oi = o.items if _ISI(o, (Sm,)) else [o] * len(self.items)
        if len(oi) == 1 != len(self.items):
            oi = oi * len(self.items)
        if len(oi) != len(self.items):
            raise Unsupported('small broadcast')
        return Sm([f(b, a) if rev else f(a, b) for a, b in zip(self.items, oi)], self.col)

    def __add__(self, o):
        return self._ew(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _ISI(o, V):
            return o.__mul__(self)
        return self._ew(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._ew(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._ew(o, lambda a, b: a / b, True)

    def __itruediv__(self, o):
        self.items = self._ew(o, lambda a, b: a / b).items
        return self

    def __imul__(self, o):
        self.items = self._ew(o, lambda a, b: a * b).items
        return self

    def __iadd__(self, o):
        self.items = self._ew(o, lambda a, b: a + b).items
        return self

    def __pow__(self, p):
        return Sm([a ** p for a in self.items], self.col)

    def __abs__(self):
        return Sm([abs(a) for a in self.items])

    def __neg__(self):
        return Sm([-a for a in self.items], self.col)

    def _cmp(self, o, f):
        oi = o.items if _ISI(o, Sm) else [o] * len(self.items)
        return SmB([f(a, b) for a, b in zip(self.items, oi)])

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    __hash__ = object.__hash__

    def sum(self, axis=None):
        t = 0.0
        for a in self.items:
            t = t + a
        return t

    def mean(self, axis=None):
        return self.sum() / len(self.items)

    def copy(self):
        return Sm(self.items, self.col)

    def astype(self, *a, **k):
        return self.copy()

    def ravel(self):
        return self

    def max(self):
        r = self.items[0]
        for a in self.items[1:]:
            r = smax(r, a)
        return r

    @property
    def T(self):
        return self

    def __matmul__(self, o):
        if _ISI(o, Sm):
            return (self * o).sum()
        raise Unsupported('small matmul')

    def __repr__(self):
        return 'Sm%r' % (self.items,)


class SmB:
    def __init__(self, items):
        self.items = items

    def any(self):
        return SB(z3.Or(*[zb(i) for i in self.items]))

    def all(self):
        return SB(z3.And(*[zb(i) for i in self.items]))

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        r = self.items[i]
        return SmB(r) if _ISI(r, list) else r

    def __setitem__(self, i, v):
        if not _ISI(i, _INT) or not _ISI(v, (SB, _BOOL)):
            raise Unsupported('store into a boolean array')
        self.items[i] = v


class SmM:
    """small matrix of scalars"""

    def __init__(self, rows):
        self.rows_ = rows

    def _map(self, f):
        return SmM([[f(a) for a in r] for r in self.rows_])

    def __add__(self, o):
        if _ISI(o, SmM):
            return SmM([[a + b for a, b in zip(r, q)] for r, q in zip(self.rows_, o.rows_)])
        return self._map(lambda a: a + o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._map(lambda a: a * o)

    __rmul__ = __mul__

    def __matmul__(self, o):
        if _ISI(o, Sm):
            out = []
            for r in self.rows_:
                t = 0.0
                for a, b in zip(r, o.items):
                    t = t + a * b
                out.append(t)
            return Sm(out)
        raise Unsupported('small matrix product')


# ------------------------------------------------------------------- reductions
def vdot(a, b):
    if _ISI(a, Sm) and _ISI(b, Sm):
        return (a * b).sum()
    if not _ISI(a, V) or not _ISI(b, V):
        return a * b
    if len(a.bufs) != len(b.bufs):
        raise Unsupported('dot of different blocks')
    t = S(z3.RealVal(0))
    for x, y in zip(a.vals, b.vals):
        t = t + inner(x, y)
    return t


def vsum(v, axis=None, keepdims=False):
    if _ISI(v, (S, SB)) or is_num(v):
        return v
    if _ISI(v, BV):
        v = v.num()
    if _ISI(v, Sm):
        return v.sum()
    if v.rows and axis == 0:
        out = v.vals[0]
        for w in v.vals[1:]:
            out = out.add(w)
        r = V.of(out)
        return V(r.bufs, None, True) if keepdims else r
    if axis is not None and v.ndim > 1:
        raise Unsupported('sum over axis %r' % (axis,))
    t = S(z3.RealVal(0))
    for w in v.vals:
        t = t + inner(w, vatom(ones_atom(w.size)))
    return Sm([t]) if keepdims else t


def ball(m):
    """for all elements"""
    if _ISI(m, (SB, _BOOL)):
        return m
    if _ISI(m, SmB):
        return m.all()
    c = ctx()
    parts = []
    for f, v in zip(m.fns, m.like.vals if m.like is not None else m.fns):
        e = z3.simplify(f(c.I))
        if z3.is_true(e):
            continue
        if not _mentions(e, 'i!', c):
            parts.append(e)
            continue
        c.keep.append(e)
        # cons modulo negation
        k = ('all', e.get_id())
        if k not in c.cache:
            n = c.name('all')
            c.quants[n] = f
            c.cache[k] = z3.Bool(n)
        parts.append(c.cache[k])
    return SB(z3.And(*parts) if len(parts) > 1 else (parts[0] if parts else z3.BoolVal(True)))


def bany(m):
    if _ISI(m, (SB, _BOOL)):
        return m
    if _ISI(m, SmB):
        return m.any()
    return SB(z3.simplify(z3.Not(ball(~m).e)))


def vmax(v):
    if _ISI(v, Sm):
        return v.max()
    c = ctx()
    r = None
    for w in v.vals:
        e = z3.simplify(w.at(c.I), som=True)
        if not _mentions(e, 'i!', c):
            m = S(e)
        else:
            c.keep.append(e)
            k = ('max', e.get_id())
            if k not in c.cache:
                # semantic consing
                from . import prover
                hit = None
                for n2, w2 in c.maxes.items():
                    if prover.implied(c, w2.at(c.I) == w.at(c.I)):
                        hit = z3.Real(n2)
                        break
                if hit is None:
                    n = c.name('max')
                    c.maxes[n] = w
                    hit = z3.Real(n)
                    c.axioms.setdefault(n, [])
                c.cache[k] = hit
            m = S(c.cache[k])
        r = m if r is None else smax(r, m)
    return r


def vnorm2(v):
    """squared euclidean norm"""
    if _ISI(v, Sm):
        return (v * v).sum()
    if _ISI(v, S) or is_num(v):
        return v * v
    return vdot(v, v)


def veq_struct(a, b):
    return len(a.bufs) == len(b.bufs) and all(x.key() == y.key() for x, y in zip(a.vals, b.vals))
