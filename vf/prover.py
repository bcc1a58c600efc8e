"""Discharges obligations: closes a goal over the axioms of its constants and asks z3, then cvc5."""
from __future__ import annotations

import time
from fractions import Fraction

import z3

from . import cases, core, ratnorm

STATS = {'z3': 0, 'cvc5': 0, 'syntactic': 0, 'queries': 0, 'time': 0.0, 'branch_queries': 0, 'branch_time': 0.0}


def consts_of(es, memo=None):
    seen, out, st = set(), {}, list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        else:
            st.extend(x.children())
    return out


def _idxof(name):
    return name.split('@', 1)[1] if '@' in name else None


def closure(ctx, forms, extra_idx=(), gram_cs=True, budget=400):
    """forms + every axiom reachable from their constants"""
    forms = list(forms)
    done = set()
    idx = {}
    for e in extra_idx:
        idx[e.sexpr()] = e
    inst = set()
    rounds = 0
    frontier = forms
    allc = {}
    while rounds < 8:
        rounds += 1
        new = []
        cs = consts_of(frontier)
        for n, c in cs.items():
            if n in done:
                continue
            done.add(n)
            allc[n] = c
            for a in ctx.axioms.get(n, ()):
                new.append(a)
            if '@' in n:
                k = _idxof(n)
                if k not in idx:
                    t = ctx.idxterms.get(k)
                    if t is not None:
                        idx[k] = t
        # quantifiers
        for n in list(allc):
            if n in ctx.quants:
                f = ctx.quants[n]
                for k, t in list(idx.items()):
                    if ('q', n, k) not in inst:
                        inst.add(('q', n, k))
                        new.append(z3.Implies(allc[n], f(t)))
                if ('qs', n) not in inst:
                    inst.add(('qs', n))
                    sk = z3.Real('sk:' + n)
                    ctx.idxterms['sk:' + n] = sk
                    new.append(z3.Implies(z3.Not(allc[n]), z3.Not(f(sk))))
            if n in ctx.maxes:
                w = ctx.maxes[n]
                for k, t in list(idx.items()):
                    if ('m', n, k) not in inst:
                        inst.add(('m', n, k))
                        new.append(allc[n] >= w.at(t))
                if ('ms', n) not in inst:
                    inst.add(('ms', n))
                    sk = z3.Real('sk:' + n)
                    ctx.idxterms['sk:' + n] = sk
                    new.append(allc[n] == w.at(sk))
        # elementwise facts
        for j, f in enumerate(ctx.elem_facts):
            for k, t in list(idx.items()):
                if ('e', j, k) not in inst:
                    inst.add(('e', j, k))
                    q = ('fact', id(f), k)
                    if q not in ctx.cache:
                        # a fact is not used in the queries its own statement raises
                        ctx.cache[q] = None
                        try:
                            ctx.cache[q] = (f(t), f)
                        finally:
                            if ctx.cache[q] is None:
                                del ctx.cache[q]
                    if ctx.cache.get(q) is not None:
                        new.append(ctx.cache[q][0])
        # gram facts
        if gram_cs:
            gs = [n for n in allc if n in ctx.gram_info]
            for n in gs:
                if ('g', n) in inst:
                    continue
                inst.add(('g', n))
                a, b = ctx.gram_info[n]
                if a is b:
                    new.append(z3.Real(n) >= 0)
                else:
                    naa, nbb = core.gram(a, a).e, core.gram(b, b).e
                    g = z3.Real(n)
                    new.append(g * g <= naa * nbb)
                    new.append(naa + nbb - 2 * g >= 0)
                    new.append(naa + nbb + 2 * g >= 0)
        # Cauchy-Schwarz for norms of small vectors
        sv = [n for n in allc if n in ctx.sqvec]
        for i, n in enumerate(sv):
            for n2 in sv[:i]:
                va, vb = ctx.sqvec[n], ctx.sqvec[n2]
                if ('cs', n, n2) in inst or len(va) != len(vb):
                    continue
                inst.add(('cs', n, n2))
                d = va[0] * vb[0]
                for p, q in zip(va[1:], vb[1:]):
                    d = d + p * q
                new.append(d <= allc[n] * allc[n2])
                new.append(-d <= allc[n] * allc[n2])
        # congruence of equal indices of one atom
        if len(idx) > 1:
            for aid, d in ctx.atomidx.items():
                items = [(k, v) for k, v in d.items() if ('%s' % v[1]) in allc]
                for i in range(len(items)):
                    for j in range(i):
                        kk = ('c', aid, items[i][0], items[j][0])
                        if kk in inst:
                            continue
                        inst.add(kk)
                        new.append(z3.Implies(items[i][1][0] == items[j][1][0], items[i][1][1] == items[j][1][1]))
        new = [a for a in new if not z3.is_true(a)]
        if not new:
            break
        forms.extend(new)
        frontier = new
        if len(forms) > budget:
            break
    return forms


_T = {}


def _solver(kind, timeout):
    if kind == 'smt':
        s = z3.Solver()
    else:
        s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'elim-term-ite', 'solve-eqs', 'tseitin-cnf', 'nlsat').solver() \
            if kind == 'nlsat2' else z3.Tactic('qfnra-nlsat').solver()
    s.set('timeout', int(timeout))
    return s


def _check(forms, timeout, want_model=False, deep=True):
    """returns (status, model, backend)"""
    t0 = time.time()
    STATS['queries'] += 1
    try:
        plan = [('smt', min(timeout, 2000))]
        if deep:
            plan += [('nlsat', timeout), ('smt', timeout)]
        for kind, tmo in plan:
            s = _solver(kind, tmo)
            for f in forms:
                s.add(f)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return 'unsat', None, 'z3'
            if r == z3.sat:
                return 'sat', s.model() if want_model else None, 'z3'
        if deep:
            r = _cvc5(forms, timeout)
            if r is not None:
                return r, None, 'cvc5'
        return 'unknown', None, 'z3+cvc5'
    finally:
        STATS['time'] += time.time() - t0


def _cvc5(forms, timeout):
    """the cvc5 binary, ended when it overruns"""
    import subprocess
    try:
        s0 = z3.Solver()
        for f in forms:
            s0.add(f)
        txt = '(set-logic QF_NRA)\n' + s0.to_smt2()
        r = subprocess.run(['cvc5', '--lang=smt2', '--nl-cov', '--tlimit=%d' % int(timeout), '-'], input=txt, capture_output=True, text=True,
                           timeout=timeout / 1000.0 + 2)
        if r.stdout.strip().split('\n')[0] == 'unsat':
            return 'unsat'
    except Exception:
        return None
    return None


_cmemo = {}


def _names(ctx, f):
    k = f.get_id()
    if k not in _cmemo or _cmemo[k][0] is not f:
        _cmemo[k] = (f, frozenset(consts_of([f])))
    return _cmemo[k][1]


def light_unsat(ctx, cond, timeout=250):
    """cond contradicts the hypotheses that speak about its own constants only"""
    names = set(consts_of([cond]))
    if len(names) > 12:
        return False
    forms, seen = [cond], set()
    for _ in range(2):
        for n in list(names - seen):
            seen.add(n)
            for a in ctx.axioms.get(n, ()):
                ns = _names(ctx, a)
                if len(ns) <= 4:
                    forms.append(a)
                    names |= ns
    for p in ctx.pc:
        if _names(ctx, p) <= names:
            forms.append(p)
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in forms:
        s.add(f)
    try:
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def quick_sat(ctx, cond, timeout=1500):
    STATS['branch_queries'] += 1
    t0 = time.time()
    if light_unsat(ctx, cond):
        STATS['branch_time'] += time.time() - t0
        return z3.unsat
    forms = closure(ctx, list(ctx.pc) + [cond], extra_idx=(), budget=250)
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for f in forms:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    if r == z3.unknown:
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', int(timeout))
        for f in forms:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    STATS['branch_time'] += time.time() - t0
    return r


def identical(a, b, timeout=300):
    """a = b without any hypothesis"""
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(a != b)
    STATS['branch_queries'] += 1
    try:
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def implied(ctx, goal, timeout=1500):
    """sound but incomplete"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    k = ('implied', g.get_id(), len(ctx.pc))
    if k in ctx.cache:
        return ctx.cache[k]
    ctx.keep.append(g)
    # cheap: refute by pc-free random? just ask
    d = getattr(ctx, 'depth', 0)
    ctx.depth = d + 1
    try:
        r = quick_sat(ctx, z3.Not(g), timeout) == z3.unsat
    finally:
        ctx.depth = d
    ctx.cache[k] = r
    return r


def implied_idx(ctx, fn, timeout=1500):
    return implied(ctx, fn(ctx.I), timeout)


class Result:
    __slots__ = ('status', 'model', 'backend', 'note')

    def __init__(self, status, model=None, backend='', note=''):
        self.status, self.model, self.backend, self.note = status, model, backend, note

    def __repr__(self):
        return '%s(%s)' % (self.status, self.backend)


def _relevant(ctx, forms, g):
    """the goal follows from the few hypotheses about its own constants"""
    names = set(_names(ctx, g))
    ng = z3.Not(g)
    last = 0
    for hop in range(3):
        sel = [f for f in forms if f is not ng and _names(ctx, f) <= names]
        if len(sel) > last:
            last = len(sel)
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(ng)
            for f in sel:
                s.add(f)
            STATS['queries'] += 1
            try:
                if s.check() == z3.unsat:
                    return True
            except z3.Z3Exception:
                pass
        for f in forms:
            ns = _names(ctx, f)
            if len(ns) <= 6 and ns & names and len(ns - names) <= 2:
                names |= ns
    return False


def prove(ctx, goal, timeout=8000, extra_idx=(), want_model=True, goals_hint=(), deep=True):
    """goal: z3 Bool, under ctx.pc"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        STATS['syntactic'] += 1
        return Result('proved', None, 'simplifier')
    if light_unsat(ctx, z3.Not(g)):
        return Result('proved', None, 'z3')
    if extra_idx and z3.is_and(g):
        for q in g.children():
            r = prove(ctx, q, timeout, extra_idx, want_model, goals_hint, deep)
            if r.status != 'proved':
                return r
        return r
    # negation may expose quantifier consts: closure handles both polarities
    forms = closure(ctx, list(ctx.pc) + [z3.Not(g)] + list(goals_hint), extra_idx=extra_idx)
    if extra_idx and _relevant(ctx, forms, g):
        return Result('proved', None, 'z3')
    r, m, be = _check(forms, timeout, want_model, deep)
    if r == 'unsat':
        return Result('proved', None, be)
    if r == 'sat':
        # the model may be spurious only because lemmas about sums are incomplete
        return Result('refuted', m, be)
    return Result('unknown', None, be)


def is_linear_in(e, names):
    """decompose polynomial e (som form) as c0 + sum c_n * n for n in names; None if not linear"""
    e = z3.simplify(e, som=True, mul_to_power=False)
    terms = e.children() if z3.is_add(e) else [e]
    c0, co = z3.RealVal(0), {}
    for t in terms:
        fs = []
        st = [t]
        while st:
            x = st.pop()
            if z3.is_mul(x):
                st.extend(x.children())
            else:
                fs.append(x)
        hit, rest = None, []
        for f in fs:
            if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name() in names:
                if hit is not None:
                    return None
                hit = f.decl().name()
            else:
                if any(n in names for n in consts_of([f])):
                    return None
                rest.append(f)
        c = z3.RealVal(1)
        for f in rest:
            c = c * f
        if hit is None:
            c0 = c0 + c
        else:
            co[hit] = co.get(hit, z3.RealVal(0)) + c
    return z3.simplify(c0), co


def rat_zero(ctx, e):
    r = ratnorm.is_zero(e, lambda d: implied(ctx, d != 0, 3000))
    if r:
        STATS['ratnorm'] = STATS.get('ratnorm', 0) + 1
    return r


def rat_simplify(ctx, e):
    """drop the inner products whose coefficient is identically zero"""
    names = {n for n in consts_of([e]) if n in ctx.gram_info}
    if not names:
        return e
    r = is_linear_in(e, names)
    if r is None:
        return e
    c0, co = r
    out = c0 if not rat_zero(ctx, c0) else z3.RealVal(0)
    for n, cf in co.items():
        if num(cf) is None and rat_zero(ctx, cf):
            continue
        out = out + cf * z3.Real(n)
    return z3.simplify(out, som=True)


def rat_nonneg(ctx, e):
    """e >= 0 by factoring"""
    sf = ratnorm.sign_factors(e)
    if sf is None:
        return False
    coef, facs, dens = sf
    if not all(implied(ctx, d != 0, 2000) for d in dens):
        return False
    sg = 1 if coef >= 0 else -1
    if coef == 0:
        return True
    for f, m in facs:
        if m % 2 == 0:
            continue
        if implied(ctx, f >= 0, 2000):
            continue
        if implied(ctx, f <= 0, 2000):
            sg = -sg
            continue
        return False
    if sg > 0:
        STATS['ratnorm'] = STATS.get('ratnorm', 0) + 1
    return sg > 0


def _monomials(e):
    """e as a linear combination of opaque monomials: (constant, {key: (term, coefficient)})"""
    e = z3.simplify(e, som=True)
    c0, out = Fraction(0), {}
    for t in (e.children() if z3.is_add(e) else [e]):
        cf, fs, st = Fraction(1), [], [t]
        while st:
            x = st.pop()
            if z3.is_mul(x):
                st.extend(x.children())
            elif z3.is_rational_value(x):
                cf *= Fraction(x.numerator_as_long(), x.denominator_as_long())
            else:
                fs.append(x)
        if not fs:
            c0 += cf
        else:
            k = tuple(sorted(f.get_id() for f in fs))
            out[k] = (fs, out.get(k, (None, Fraction(0)))[1] + cf)
    return c0, out


def from_facts(ctx, h, idx, timeout=2000):
    """h >= 0 follows linearly from the elementwise facts at idx, every product being opaque"""
    keep, var = [], {}

    def lin(e):
        c0, ms = _monomials(e)
        keep.append(ms)
        r = z3.RealVal(str(c0))
        for k, (fs, cf) in ms.items():
            if cf:
                r = r + z3.RealVal(str(cf)) * var.setdefault(k, z3.Real('mono%d' % len(var)))
        return r
    s = z3.Solver()
    s.set('timeout', timeout)
    todo, n = [], 0
    for f in ctx.elem_facts[-40:]:
        try:
            todo.append(z3.simplify(f(idx)))
        except Exception:
            return False
    while todo:
        q = todo.pop()
        if z3.is_and(q):
            todo.extend(q.children())
            continue
        neg = z3.is_not(q)
        r = q.arg(0) if neg else q
        if r.num_args() != 2 or not z3.is_real(r.arg(0)):
            continue
        d = lin(r.arg(0) - r.arg(1))
        c = d <= 0 if z3.is_le(r) else d >= 0 if z3.is_ge(r) else d < 0 if z3.is_lt(r) else d > 0 if z3.is_gt(r) else d == 0 if z3.is_eq(r) else None
        if c is not None:
            s.add(z3.Not(c) if neg else c)
            n += 1
    if not n:
        return False
    s.add(lin(h) < 0)
    STATS['queries'] += 1
    return s.check() == z3.unsat


def nonneg_sum(ctx, e, timeout=8000):
    """prove e >= 0 where e is linear in inner products: enough that the summand is >= 0 at
    every index (per block length)."""
    e = z3.simplify(e, som=True)
    names = {n for n in consts_of([e]) if n in ctx.gram_info}
    sizes = {}
    for n in names:
        a, _ = ctx.gram_info[n]
        sizes[z3.simplify(core.z(a.size)).sexpr()] = a.size
    szn = {}
    for s, sz in sizes.items():
        zz = z3.simplify(core.z(sz))
        if z3.is_const(zz) and num(zz) is None:
            szn[zz.decl().name()] = s
    r = is_linear_in(e, names | set(szn))
    if r is None:
        return None
    c0, co = r
    if num(c0) != 0:
        # constant leftover must be nonneg on its own
        pr = prove(ctx, c0 >= 0, timeout)
        if pr.status != 'proved':
            return None
    groups = {}
    for n, cf in co.items():
        if n in ctx.gram_info:
            a, b = ctx.gram_info[n]
            key = z3.simplify(core.z(a.size)).sexpr()
            groups.setdefault(key, []).append(cf * a.at(ctx.I) * b.at(ctx.I))
        else:
            groups.setdefault(szn[n], []).append(cf)
    worst = Result('proved', None, 'z3')
    for key, ts in groups.items():
        h = ts[0]
        for t in ts[1:]:
            h = h + t
        if rat_zero(ctx, h):
            continue
        if ctx.elem_facts and from_facts(ctx, h, ctx.I):
            worst = Result('proved', None, 'z3')
            continue
        pr = prove(ctx, h >= 0, min(timeout, 2000), extra_idx=(ctx.I,), deep=False)
        if pr.status == 'unknown' and rat_nonneg(ctx, h):
            worst = Result('proved', None, 'factoring+z3', 'localised')
            continue
        if pr.status == 'unknown' and cases.prove_ge(ctx, h, (ctx.I,), min(timeout, 4000)):
            worst = Result('proved', None, 'case split+z3', 'localised')
            continue
        if pr.status == 'unknown':
            pr = prove(ctx, h >= 0, timeout, extra_idx=(ctx.I,))
        if pr.status != 'proved':
            # a pointwise failure does not refute the sum, except through its model
            return Result('pointwise-' + pr.status, pr.model, pr.backend)
        worst = pr
    worst.note = 'localised'
    return worst


def num(e):
    return core.num_of(z3.simplify(e))


def prove_le(ctx, a, b, timeout=8000):
    """a <= b for reals built from sums"""
    e = z3.simplify(core.z(b) - core.z(a), som=True)
    g = z3.simplify(e >= 0)
    if z3.is_true(g):
        STATS['syntactic'] += 1
        return Result('proved', None, 'simplifier')
    e = rat_simplify(ctx, e)
    names = [n for n in consts_of([e]) if n in ctx.gram_info]
    loc = None
    if names:
        loc = nonneg_sum(ctx, e, timeout)
        if loc is not None and loc.status == 'proved':
            return loc
    pr = prove(ctx, e >= 0, timeout)
    if pr.status == 'refuted' and names:
        # sums are only axiomatised: a counter-model is conclusive only pointwise
        if loc is not None and loc.status == 'pointwise-refuted':
            return Result('refuted', loc.model, loc.backend, 'pointwise')
        return Result('unknown', pr.model, pr.backend, 'refuted over incomplete axioms of sums')
    return pr


def prove_eq(ctx, a, b, timeout=8000):
    """scalar equality"""
    e = z3.simplify(core.z(a) - core.z(b), som=True)
    if num(e) == 0:
        STATS['syntactic'] += 1
        return Result('proved', None, 'simplifier')
    if rat_zero(ctx, e):
        return Result('proved', None, 'field-normaliser')
    pr = prove(ctx, e == 0, timeout)
    if pr.status == 'proved':
        return pr
    names = [n for n in consts_of([e]) if n in ctx.gram_info]
    if names:
        p1 = nonneg_sum(ctx, e, timeout)
        if p1 is not None and p1.status == 'proved':
            p2 = nonneg_sum(ctx, -e, timeout)
            if p2 is not None and p2.status == 'proved':
                return p2
    if pr.status == 'refuted' and any(n.startswith(('sqrt', 'exp', 'log', 'g<')) for n in consts_of([e])):
        return Result('refuted' if not names else 'unknown', pr.model, pr.backend, 'refuted over axiomatised functions')
    return pr


def _isometries(ctx, d):
    """drop  sum c_i L a_i  for a linear L with  sum c_i a_i = 0; None when nothing is left"""
    groups = {}
    for at, cf in d.lin.items():
        if at.tag and at.tag[0] == 'lin' and at.tag[2] == 'mat' and getattr(at.tag[1], 'isometry', False):
            groups.setdefault(id(at.tag[1]), []).append((at, cf))
    if not groups:
        return d
    for g in groups.values():
        inner = core.Val({}, g[0][0].tag[3].size)
        for at, cf in g:
            inner = inner.add(core.Val({at.tag[3]: cf}, inner.size))
        if not inner.lin or prove(ctx, inner.at(ctx.I) == 0, 8000, extra_idx=(ctx.I,)).status == 'proved':
            d = core.Val({at: cf for at, cf in d.lin.items() if all(at is not x for x, _ in g)}, d.size)
    return d if d.lin else None


def prove_veq(ctx, a, b, timeout=8000):
    """array equality"""
    if len(a.bufs) != len(b.bufs):
        return Result('unknown', None, '', 'block structure differs')
    last = Result('proved', None, 'simplifier')
    for x, y in zip(a.vals, b.vals):
        d = x.add(y, -1)
        if not d.lin:
            STATS['syntactic'] += 1
            continue
        # coefficients
        ok = True
        for at, cf in d.lin.items():
            if not rat_zero(ctx, cf) and not implied(ctx, cf == 0):
                ok = False
                break
        if ok:
            last = Result('proved', None, 'z3')
            continue
        d = _isometries(ctx, d)
        if d is None:
            last = Result('proved', None, 'z3')
            continue
        pr = prove(ctx, d.at(ctx.I) == 0, timeout, extra_idx=(ctx.I,))
        if pr.status != 'proved':
            return pr
        last = pr
    return last
