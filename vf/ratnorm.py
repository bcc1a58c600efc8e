"""Exact normal form of rational expressions (no conditionals), used before the SMT solvers.

e = 0 is decided by arithmetic in a field of fractions over Q; e >= 0 by factoring: every factor of odd
multiplicity must have a sign the solver confirms.  Denominators must be provably non-zero."""
from __future__ import annotations

from fractions import Fraction

import z3

_FIELDS = {}


class NotRational(Exception):
    pass


def _consts(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > 4000:
            raise NotRational
        if z3.is_rational_value(x):
            continue
        k = x.decl().kind()
        if z3.is_const(x) and k == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            st.extend(x.children())
        else:
            raise NotRational
    return sorted(out, key=lambda c: c.decl().name())


def normal(e):
    """(element of the field, names->const, denominators)"""
    from sympy import QQ
    from sympy.polys.fields import field
    cs = _consts(e)
    if len(cs) > 24:
        raise NotRational
    names = tuple(c.decl().name() for c in cs)
    key = len(names)
    if key not in _FIELDS:
        if key == 0:
            _FIELDS[key] = None
        else:
            _FIELDS[key] = field(['v%d' % i for i in range(key)], QQ)
    K = _FIELDS[key]
    if K is None:
        gens = {}
        conv = lambda q: q
    else:
        gens = dict(zip(names, K[1:]))
        conv = lambda q: K[0](QQ(q.numerator, q.denominator))
    dens = []
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_rational_value(x):
            r = conv(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        elif z3.is_const(x):
            r = gens[x.decl().name()]
        else:
            k = x.decl().kind()
            ch = [go(c) for c in x.children()]
            if k == z3.Z3_OP_ADD:
                r = ch[0]
                for c in ch[1:]:
                    r = r + c
            elif k == z3.Z3_OP_MUL:
                r = ch[0]
                for c in ch[1:]:
                    r = r * c
            elif k == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = r - c
            elif k == z3.Z3_OP_UMINUS:
                r = -ch[0]
            elif k == z3.Z3_OP_DIV:
                if ch[1] == 0:
                    raise NotRational
                if not z3.is_rational_value(x.children()[1]):
                    dens.append(x.children()[1])
                r = ch[0] / ch[1]
            elif k == z3.Z3_OP_POWER:
                p = x.children()[1]
                if not z3.is_rational_value(p):
                    raise NotRational
                q = Fraction(p.numerator_as_long(), p.denominator_as_long())
                if q.denominator != 1:
                    raise NotRational
                if q < 0:
                    dens.append(x.children()[0])
                r = ch[0] ** int(q)
            else:
                raise NotRational
        if hasattr(r, 'numer') and not isinstance(r, (int, Fraction)) and len(r.numer) > 4000:
            raise NotRational
        memo[i] = r
        return r
    return go(e), cs, dens


def is_zero(e, nonzero):
    """nonzero: z3 expr -> bool, decides that a denominator never vanishes"""
    try:
        f, cs, dens = normal(e)
    except (NotRational, ImportError, ZeroDivisionError):
        return False
    if f != 0:
        return False
    return all(nonzero(d) for d in dens)


def sign_factors(e):
    """numerator and denominator as (coefficient, [(z3 factor, multiplicity)]) or None"""
    try:
        f, cs, dens = normal(e)
    except (NotRational, ImportError, ZeroDivisionError):
        return None
    if not hasattr(f, 'numer') or isinstance(f, Fraction):
        return Fraction(f), [], dens
    coef = Fraction(1)
    facs = []
    for poly, sgn in ((f.numer, 1), (f.denom, -1)):
        try:
            c, fl = poly.factor_list()
        except Exception:
            return None
        coef = coef * (Fraction(int(c.numerator), int(c.denominator)) ** sgn)
        for p, m in fl:
            facs.append((_toz3(p, cs), m))
    return coef, facs, dens


def _toz3(p, cs):
    t = z3.RealVal(0)
    for mon, cf in p.terms():
        x = z3.RealVal('%d/%d' % (int(cf.numerator), int(cf.denominator)))
        for c, k in zip(cs, mon):
            for _ in range(k):
                x = x * c
        t = t + x
    return z3.simplify(t)
