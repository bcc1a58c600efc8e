"""Fallback for  e >= 0  /  e == 0 : split on the conditionals, clear denominators, rewrite squared norms, ask again."""
from __future__ import annotations

import z3

from . import core, ratnorm


def conds_of(es, lim=6):
    seen, out, st = set(), [], list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.children()[0]
            if all(not c.eq(d) for d in out):
                out.append(c)
        st.extend(x.children())
    # innermost first
    out.sort(key=lambda c: len(c.sexpr()))
    return out if len(out) <= lim else None


def assignments(ctx, e, implied_fn, sat_fn):
    """yield (literals, e without conditionals)"""
    work = [([], z3.simplify(e))]
    n = 0
    while work:
        lits, x = work.pop()
        n += 1
        if n > 80:
            yield None
            return
        cs = conds_of([x], 20)
        if cs is None:
            yield None
            return
        if not cs:
            yield lits, x
            continue
        c = cs[0]
        for val in (True, False):
            lit = c if val else z3.simplify(z3.Not(c))
            if sat_fn(lits + [lit]) == z3.unsat:
                continue
            y = z3.simplify(z3.substitute(x, (c, z3.BoolVal(val))))
            work.append((lits + [lit], y))


def reduce_norms(ctx, e, names):
    """rewrite the last squared component of every small norm s^2 = sum a_i^2, and dot products into fresh reals"""
    sv = [(n, ctx.sqvec[n]) for n in sorted(names) if n in ctx.sqvec]
    sv = [(n, v) for n, v in sv if all(z3.is_const(a) and core.num_of(a) is None for a in v)]
    if not sv:
        return e, []
    try:
        from sympy.polys.rings import ring
        from sympy import QQ
        f, cs, dens = ratnorm.normal(e)
    except Exception:
        return e, []
    if not hasattr(f, 'numer') or f.denom != 1:
        return e, []
    cn = [c.decl().name() for c in cs]
    extra, facts = [], []
    rules = []
    for i, (n, v) in enumerate(sv):
        s = z3.Real(n)
        rules.append((v[-1], v[-1], s * s - sum((a * a for a in v[:-1]), z3.RealVal(0))))
        for (n2, v2) in sv[:i]:
            if len(v2) != len(v):
                continue
            t = z3.Real('dot<%s,%s>' % (n, n2))
            rules.append((v[-1], v2[-1], t - sum((a * b for a, b in zip(v[:-1], v2[:-1])), z3.RealVal(0))))
            facts.append(z3.And(t <= s * z3.Real(n2), -t <= s * z3.Real(n2)))
    # apply by monomial rewriting
    terms = {}
    poly = f.numer
    todo = [(dict((cn[i], k) for i, k in enumerate(mon) if k), cf) for mon, cf in poly.terms()]
    out = z3.RealVal(0)
    steps = 0
    rl = [(a.decl().name(), b.decl().name(), ratnorm.normal(r)) for a, b, r in rules]
    while todo:
        mon, cf = todo.pop()
        steps += 1
        if steps > 20000:
            return e, []
        for a, b, (rf, rcs, _) in rl:
            if a == b and mon.get(a, 0) >= 2 or a != b and mon.get(a, 0) >= 1 and mon.get(b, 0) >= 1:
                m2 = dict(mon)
                for q in (a, b):
                    m2[q] -= 1
                    if not m2[q]:
                        del m2[q]
                for rm, rc in rf.numer.terms():
                    m3 = dict(m2)
                    for i, k in enumerate(rm):
                        if k:
                            nm = rcs[i].decl().name()
                            m3[nm] = m3.get(nm, 0) + k
                    todo.append((m3, cf * rc))
                break
        else:
            key = tuple(sorted(mon.items()))
            terms[key] = terms.get(key, 0) + cf
    for key, cf in terms.items():
        if cf == 0:
            continue
        x = z3.RealVal('%d/%d' % (int(cf.numerator), int(cf.denominator)))
        for nm, k in key:
            for _ in range(k):
                x = x * z3.Real(nm)
        out = out + x
    return z3.simplify(out), facts


def prove_ge(ctx, e, extra_idx=(), timeout=8000):
    """e >= 0 under ctx.pc: True / False(unknown)"""
    from . import prover

    def sat(lits):
        return prover.quick_sat(ctx, z3.And(*lits), 1500)
    any_case = False
    # facts about the constants of e are found by the closure of its atoms
    for a in assignments(ctx, e, None, sat):
        if a is None:
            return False
        lits, x = a
        any_case = True
        npc = len(ctx.pc)
        ctx.pc.extend(lits)
        try:
            if not _case(ctx, x, extra_idx, timeout):
                return False
        finally:
            del ctx.pc[npc:]
    return any_case


def _case(ctx, x, extra_idx, timeout):
    from . import prover
    sf = ratnorm.sign_factors(x)
    if sf is None:
        return prover.prove(ctx, x >= 0, timeout, extra_idx=extra_idx, want_model=False).status == 'proved'
    coef, facs, dens = sf
    if coef == 0:
        return all(prover.implied(ctx, d != 0, 2000) for d in dens)
    if not all(prover.implied(ctx, d != 0, 2000) for d in dens):
        return False
    sg = 1 if coef > 0 else -1
    hard = []
    for f, m in facs:
        if m % 2 == 0:
            continue
        if prover.implied(ctx, f >= 0, 1000):
            continue
        if prover.implied(ctx, f <= 0, 1000):
            sg = -sg
            continue
        hard.append(f)
    if not hard:
        return sg > 0
    if len(hard) > 1:
        return False
    h = hard[0] if sg > 0 else z3.simplify(-hard[0])
    names = prover.consts_of([h] + list(ctx.pc))
    r, facts = reduce_norms(ctx, h, set(names))
    if facts or not r.eq(h):
        cl = prover.closure(ctx, [r], extra_idx=())
        base = [z3.Real(n) >= 0 for n in prover.consts_of([r]) if n in ctx.sqvec]
        pcs = list(ctx.pc)
        # small first: only what mentions the remaining constants
        keep = set(prover.consts_of([r]))
        small = [p for p in pcs if set(prover.consts_of([p])) <= keep]
        for n in keep:
            for ax in ctx.axioms.get(n, ()):
                if set(prover.consts_of([ax])) <= keep:
                    small.append(ax)
        st, _, _ = prover._check(small + base + facts + [r < 0], timeout, False)
        if st == 'unsat':
            return True
    return prover.prove(ctx, h >= 0, timeout, extra_idx=extra_idx, want_model=False).status == 'proved'
