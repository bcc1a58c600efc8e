"""Loops: the real loop simulates a documented recursion, proved by induction on the loop head.

A contract gives the recursion as init / step over a specification state.  Symbolic reading:
  base       the real code runs from its real initial state for p0..K iterations (every path, symbolic
             iteration count); at every loop head the locals are compared with the specification state and
             the relations that hold on every path are kept as the candidate invariant
  induction  the code is run again; at its loop head every local is replaced by the value the invariant
             gives it for an arbitrary specification state and an arbitrary iteration number (locals without
             a relation become unusable), the body runs once, and the callback, the stopping decision, the
             returned value and the invariant itself are obligations.  Relations that are not preserved are
             dropped and the induction starts again, until a set is preserved (Houdini).
Concrete reading: the recursion is run beside the real solver and compared iterate by iterate."""
from __future__ import annotations

import contextlib
import io

import numpy as np
import z3

from . import core, prover, stubs
from .core import Atom, Buf, PathDone, S, SB, Sm, Unsupported, V, Val, is_num, vatom, z, zb


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


class Junk:
    """a local the invariant says nothing about"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _u(self, *a, **k):
        raise Unsupported('loop-carried local %s is not determined by the specification state' % (object.__getattribute__(self, '_n'),))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._u()


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv mod pow rpow neg pos abs lt le gt ge eq ne bool float int index len iter getitem '
           'setitem call matmul rmatmul iadd isub imul itruediv contains copy deepcopy format').split():
    setattr(Junk, '__%s__' % _n, Junk._u)
Junk.__hash__ = object.__hash__


def leaves(name, v, out):
    if isinstance(v, (list, tuple)) and not isinstance(v, str):
        out[(name, 'len')] = len(v)
        for i, x in enumerate(v):
            leaves((name, i), x, out)
    else:
        out[name] = v
    return out


def snapval(v):
    if isinstance(v, V):
        return ('V', tuple(v.vals), tuple(x.key() for x in v.vals), v)
    if isinstance(v, Sm):
        return ('Sm', tuple(v.items), None, v)
    return ('o', v, None, v)


def share(v):
    """arrays with the same key share all their memory"""
    return tuple(id(b) for b in v.bufs) if isinstance(v, V) else id(v)


def veq(C, xs, ys, deep=False):
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        d = x.add(y, -1)
        if not d.lin:
            continue
        if all(prover.num(cf) == 0 or (prover.num(cf) is None and (prover.rat_zero(C, cf) or prover.implied(C, cf == 0, 600))) for cf in d.lin.values()):
            continue
        if all(at.defn is None and at.tag is None for at in d.lin):
            return False
        if not deep:
            names = [at for at in d.lin if at.defn is not None]
            if not names:
                return False
        r = prover.prove(C, d.at(C.I) == 0, 2500 if deep else 700, extra_idx=(C.I,), want_model=False, deep=False)
        if r.status != 'proved':
            return False
    return True


def seq(C, a, b, quick=False):
    d = z3.simplify(z(a) - z(b), som=True)
    q = core.num_of(d)
    if q is not None:
        return q == 0
    if prover.rat_zero(C, d):
        return True
    if quick and sum(n.startswith(('sqrt!', 'max!')) for n in prover.consts_of([d])) < 2 and stubs._random_nonzero(d):
        return False
    return bool(prover.implied(C, d == 0, 1500))


def isreal(v):
    return isinstance(v, (S, int, float, np.integer, np.floating)) and not isinstance(v, bool) and not core.isinf(v)


def flat_state(s):
    out = {}
    for k, v in s.__dict__.items():
        leaves(k, v, out)
    return out


class Machine:
    def __init__(self, B, run, N, init, step, cb, out, stop, inv, aux, cells, p0, K, main, prop, iterate):
        self.B, self.C, self.run, self.N = B, B.C, run, N
        self.step, self.cbf, self.outf, self.stopf, self.invf, self.auxf = step, cb, out, stop, inv, aux
        self.cells, self.p0, self.K, self.main, self.prop, self.iterate = cells or [], p0, K, main, prop, iterate
        self.init = init
        self.sess = B.C.opts['session']
        self.phase = self.sess.setdefault('phase', 'A')
        self.states = [NS(init() if callable(init) else init)]
        self.base = 0                  # iteration number of states[0]
        self.seen = None               # the loop under the invariant
        self.running = False
        self.head0 = None
        self.started = False           # phase B: the state has been made arbitrary
        self.heads = 0
        self.cbs = []

    # ---- specification
    def k(self):
        """iteration whose body is running"""
        return self.kcur

    def state_after(self, j):
        """state after j steps (relative to states[0])"""
        while len(self.states) <= j:
            i = len(self.states) - 1
            ki = self.base + i
            st = self.step(self.states[-1], ki)
            self.states.append(NS(st))
        return self.states[j]

    # ---- hook
    def hook(self, lid, it, names, is_for):
        from . import loader
        if self.seen is not None:
            return None if lid != self.seen else self._bad(lid)
        if is_for:
            if not isinstance(it, loader.SymRange):
                return None
            d = z3.simplify(z(it.stop) - z(self.N) - z(it.start))
            if core.num_of(d) != 0:
                return None
            self.off = it.start
        else:
            if self.main != 'while':
                return None
            self.off = 0
        self.seen = lid
        return Ctl(self, names, is_for)

    def _bad(self, lid):
        raise Unsupported('the solver loop is entered twice')

    # ---- events
    def at_head(self, names, loc):
        """the body of iteration number self.idx (relative) is about to start"""
        C, B = self.C, self.B
        if self.phase == 'A':
            k = self.idx
            st = self.state_after(k)
            self.new_iteration()
            snap = self.snapshot(names, loc)
            if k == 0:
                self.head0 = snap
            if k >= self.p0:
                self.learn(k, st, snap, loc)
                if self.invf is not None:
                    for nm, c in self.invf(st, k):
                        self.ob('invariant: ' + nm, c, self.prop)
            if k == self.K:
                B.covers['base: head %d' % k] = True
                raise PathDone()
            return tuple(loc.get(n, core_undef()) for n in names)
        if not self.started:
            self.started = True
            self.head0 = self.snapshot(names, loc)
            B.obls.clear()             # what precedes the loop has been counted in the base case
            return self.havoc(names, loc)
        st = self.state_after(1)
        self.check_preserved(names, loc, st)
        if self.invf is not None:
            for nm, c in self.invf(st, self.kcur + 1):
                self.ob('invariant: ' + nm, c, self.prop)
        B.frames()
        B.covers['induction step'] = True
        raise PathDone()

    def new_iteration(self):
        self.cbs = []

    def snapshot(self, names, loc):
        out = {}
        U = core_undef()
        for n in names:
            if n in loc and loc[n] is not U:
                leaves(n, loc[n], out)
        for i, (o, a) in enumerate(self.cells):
            leaves(('cell', i), getattr(o, a), out)
        return {k: snapval(v) for k, v in out.items()}

    def auxs(self, st):
        d = {}
        if self.auxf is not None:
            for nm, v in self.auxf(st).items():
                leaves(nm, v, d)
        return d

    def candidates(self, name, sv, st, k):
        fl = flat_state(st)
        ax = self.auxs(st)
        kind = sv[0]
        cs = [('same',)]
        if kind == 'V':
            vs = [p for p, v in fl.items() if isinstance(v, V)]
            cs += [('st', p) for p in vs] + [('ax', p) for p, v in ax.items() if isinstance(v, V)] + [('neg', p) for p in vs]
            cs += [('lc', a, p, b, q) for i, p in enumerate(vs) for q in vs[:i] for a, b in ((1, 1), (1, -1), (-1, 1))]
        elif kind == 'Sm':
            cs += [('st', p) for p, v in fl.items() if isinstance(v, Sm)]
        elif isreal(sv[1]):
            if is_num(sv[1]):
                cs += [('const', float(sv[1]) if isinstance(sv[1], float) else sv[1])]
            cs += [('k', int(sv[1]) - k)] if is_num(sv[1]) and float(sv[1]) == int(sv[1]) else []
            cs += [('st', p) for p, v in fl.items() if isreal(v)] + [('ax', p) for p, v in ax.items() if isreal(v)]
        else:
            if sv[1] is None or isinstance(sv[1], (bool, str)):
                cs += [('const', sv[1])]
        return cs

    def value(self, cand, st, kabs, old):
        """the value a relation gives; old: value before the loop (for 'same')"""
        t = cand[0]
        if t == 'same':
            return old
        if t == 'const':
            return cand[1]
        if t == 'k':
            return kabs + cand[1]
        fl = flat_state(st)
        if t == 'st':
            return fl.get(cand[1])
        if t == 'ax':
            return self.auxs(st).get(cand[1])
        if t == 'neg':
            return -fl[cand[1]]
        if t == 'lc':
            _, a, p, b, q = cand
            x, y = fl[p], fl[q]
            if not isinstance(x, V) or not isinstance(y, V) or len(x.bufs) != len(y.bufs):
                return None
            return x._new([u.scale(S(z(a))).add(w, b) for u, w in zip(x.vals, y.vals)])
        raise AssertionError(cand)

    def holds(self, cand, sv, st, k, old, deep=False):
        if cand[0] == 'same':
            if old is None:
                return False
            if sv[0] == 'V':
                return old[0] == 'V' and sv[3] is old[3] and sv[2] == old[2]
            if sv[0] == 'Sm':
                return old[0] == 'Sm' and sv[3] is old[3] and all(seq(self.C, a, b) for a, b in zip(sv[1], old[1]))
            a, b = sv[1], old[1]
            if a is b:
                return True
            if isreal(a) and isreal(b):
                return seq(self.C, a, b)
            return type(a) is type(b) and isinstance(a, (str, bool)) and a == b
        try:
            w = self.value(cand, st, k, None)
        except (KeyError, AttributeError, Unsupported):
            return False
        if sv[0] == 'V':
            return isinstance(w, V) and w.rows == sv[3].rows and veq(self.C, list(sv[1]), w.vals, deep)
        if sv[0] == 'Sm':
            return isinstance(w, Sm) and len(w.items) == len(sv[1]) and all(seq(self.C, a, b) for a, b in zip(sv[1], w.items))
        v = sv[1]
        if isreal(v) and isreal(w):
            return seq(self.C, v, w, not deep and not any(stubs._has_eq(p) for p in self.C.pc))
        return v is w or (type(v) is type(w) and isinstance(v, (str, bool, int)) and v == w)

    def learn(self, k, st, snap, loc):
        C, cands = self.C, self.sess.setdefault('cands', None)
        first = cands is None
        if first:
            cands = self.sess['cands'] = {}
        self.sess.setdefault('headcount', 0)
        self.sess['headcount'] += 1
        for name, sv in snap.items():
            old = self.head0.get(name)
            if first:
                cs = self.candidates(name, sv, st, k)
            else:
                cs = cands.get(name, [])
            keep = [c for c in cs if self.holds(c, sv, st, k, old)]
            cands[name] = keep
        for name in list(cands):
            if name not in snap:
                del cands[name]
        # sharing between locals
        groups = {}
        for name, sv in snap.items():
            if sv[0] in ('V', 'Sm'):
                groups.setdefault(share(sv[3]), []).append(name)
        al = frozenset(frozenset(map(repr, g)) for g in groups.values() if len(g) > 1)
        if self.sess.setdefault('alias', al) != al:
            self.sess['nowrite'] = 'locals share an array on some iterations only'
        bufs = {}
        for name, sv in snap.items():
            if sv[0] == 'V':
                for b in sv[3].bufs:
                    bufs.setdefault(id(b), set()).add(share(sv[3]))
        if any(len(s) > 1 for s in bufs.values()):
            self.sess['nowrite'] = 'locals are views of one another'
        own = {id(b): nm for nm, v in self.B.owned if isinstance(v, V) for b in v.bufs}
        for name, sv in snap.items():
            if sv[0] == 'V' and any(id(b) in own for b in sv[3].bufs):
                cands[name] = [c for c in cands.get(name, []) if c[0] == 'same']

    def fresh_like(self, v, nm):
        C = self.C
        if isinstance(v, V):
            bufs = [Buf(vatom(Atom(C.name('any_' + nm), x.size))) for x in v.vals]
            return V(bufs, v._shape, v.rows)
        if isinstance(v, Sm):
            return Sm([self.fresh_like(i, nm) for i in v.items], v.col)
        if isinstance(v, (list, tuple)):
            return type(v)(self.fresh_like(x, nm) for x in v)
        if isinstance(v, SB):
            return SB(z3.Bool(C.name('any_' + nm)))
        if isreal(v):
            return core.fresh('any_' + nm)
        if v is None or isinstance(v, (str, bool)):
            return v
        if core.isinf(v):
            return v
        raise Unsupported('specification state of type %r' % type(v))

    def havoc(self, names, loc):
        C, B = self.C, self.B
        cands = self.sess.get('cands')
        if cands is None:
            raise Unsupported('the base case never reached loop head %d' % self.p0)
        # a representative state to know the shapes
        tmpl = self.state_after(max(self.p0, 1))
        kc = z3.Real('iter_k')
        C.axioms['iter_k'] = [kc >= self.p0]
        k = S(kc, True)
        B.names.add('iter_k')
        C.assume(k < self.N)
        self.base, self.kcur = k, k
        self.states = [NS({n: self.fresh_like(v, n) for n, v in tmpl.__dict__.items()})]
        st = self.states[0]
        if self.invf is not None:
            for nm, c in self.invf(st, k):
                C.assume(SB(zb(c)))
        if self.stopf is not None and self.is_for:
            C.assume(SB(z3.Not(zb(self.stopf(st, k)))))
        self.new_iteration()
        C.known.clear()
        objs = {}
        grp = {}
        for g in self.sess.get('alias', ()) if not self.sess.get('nowrite') else ():
            for n in g:
                grp[n] = g
        dropped = self.sess.setdefault('dropped', set())
        used = self.used = {}

        def build(name, cur):
            key = (name, 'len')
            if key in cands:
                if isinstance(cur, (list, tuple)):
                    n = None
                    for c in cands[key]:
                        if c[0] in ('const', 'same'):
                            n = c[1] if c[0] == 'const' else self.head0[key][1]
                            break
                    if n is None:
                        return Junk(name)
                    items = [build((name, i), cur[i] if i < len(cur) else None) for i in range(n)]
                    if isinstance(cur, list):
                        # an in-place list keeps its identity
                        if all(isinstance(c, tuple) and c[0] == 'same' for i in range(n) for c in cands.get((name, i), [('x',)])[:1]) and n == len(cur):
                            pass
                        return list(items)
                    return tuple(items)
                n = [c[1] for c in cands[key] if c[0] == 'const']
                if not n:
                    return Junk(name)
                items = [build((name, i), None) for i in range(n[0])]
                return items
            cs = [c for c in cands.get(name, []) if (name, c) not in dropped]
            if not cs:
                return Junk(name)
            c = cs[0]
            g = grp.get(repr(name))
            if g is not None and (g, c) in objs:
                used[name] = c
                return objs[(g, c)]
            if c[0] == 'same':
                if name not in self.head0:
                    return Junk(name)
                v = self.head0[name][3]
            else:
                v = self.value(c, st, k, None)
                if isinstance(v, V):
                    v = v.copy()
                elif isinstance(v, Sm):
                    v = Sm(list(v.items), v.col)
            used[name] = c
            if g is not None:
                objs[(g, c)] = v
            return v
        out = []
        for n in names:
            if n not in cands and (n, 'len') not in cands:
                out.append(core_undef() if n not in loc else Junk(n))
                continue
            out.append(build(n, loc.get(n)))
        for i, (o, a) in enumerate(self.cells):
            setattr(o, a, build(('cell', i), None))
        self.before = {}
        for n, v in zip(names, out):
            leaves(n, v, self.before)
        for i, (o, a) in enumerate(self.cells):
            leaves(('cell', i), getattr(o, a), self.before)
        self.before = {kk: snapval(v) for kk, v in self.before.items()}
        if self.sess.get('nowrite'):
            # sharing does not matter as long as none of these arrays is written to
            self.frozen = [(b, b.val) for sv in self.before.values() if sv[0] == 'V' for b in sv[3].bufs]
            self.frozen_sm = [(sv[3], sv[1]) for sv in self.before.values() if sv[0] == 'Sm']
        return tuple(out)

    def not_written(self):
        if self.phase == 'B' and self.started and self.sess.get('nowrite'):
            if any(b.val is not v for b, v in self.frozen) or any(len(s.items) != len(t) or any(x is not y for x, y in zip(s.items, t)) for s, t in self.frozen_sm):
                raise Unsupported(self.sess['nowrite'])

    def check_preserved(self, names, loc, st):
        now = self.snapshot(names, loc)
        for name, c in self.used.items():
            sv = now.get(name)
            ok = sv is not None and self.holds(c, sv, st, self.kcur + 1, self.before.get(name), deep=True)
            if not ok:
                self.sess['dropped'].add((name, c))
                self.sess['retry'] = True
            else:
                self.B._add('loop invariant: %s' % (nice(name, c),), self.prop, prover.Result('proved', None, 'z3', 'preserved'))
        for name, cs in self.sess['cands'].items():
            if isinstance(name, tuple) and name[1] == 'len' and name in self.before:
                if name not in now or now[name][1] != self.before[name][1]:
                    raise Unsupported('a list changes its length in the loop')
        # sharing
        if self.sess.get('nowrite'):
            return self.not_written()
        groups = {}
        for name, sv in now.items():
            if sv[0] in ('V', 'Sm'):
                groups.setdefault(share(sv[3]), []).append(name)
        al = frozenset(frozenset(map(repr, g)) for g in groups.values() if len(g) > 1)
        base = self.sess.get('alias', frozenset())
        if not all(any(g <= h for h in base) for g in al):
            bad = [g for g in al if not any(g <= h for h in base)]
            live = {repr(n) for n in self.used}
            if any(len(g & live) > 1 for g in bad):
                raise Unsupported('sharing between locals is not preserved')

    def ob(self, label, cond, prop):
        self.B.true(label, cond, prop)

    # ---- callback and exits
    def callback(self, *args):
        if self.phase == 'B' and not self.started:
            raise Unsupported('callback before the loop')
        B = self.B
        self.cbs.append(args)
        if not self.running:
            B.same('callback runs inside an iteration', False, True, 'P16')
            return
        B.same('one callback per iteration', len(self.cbs), 1, 'P16')
        st = self.state_after(self.rel() + 1)
        exp = self.cbf(st)
        B.same('number of callback arguments', len(args), len(exp), 'P16')
        for i, (a, b) in enumerate(zip(args, exp)):
            B.eq('iterate after every iteration (callback argument %d)' % (i + 1), a, b, self.prop)
        self.lastcb = [a.copy() if isinstance(a, V) else a for a in args]

    def rel(self):
        return self.idx

    def body_done(self):
        """end of an iteration that went through"""
        self.running = False
        if self.cbf is not None and self.want_cb:
            self.B.same('one callback per iteration', len(self.cbs), 1, 'P16')
        if self.stopf is not None:
            st = self.state_after(self.rel() + 1)
            if not self.main:
                c = self.stopf(st, self.kabs() + 1)
                self.ob('continues only while the stopping measure is not met', SB(z3.Not(zb(c))), 'P16')

    def kabs(self):
        return self.base + self.idx if self.phase == 'A' else self.kcur

    def finish(self, ret):
        B = self.B
        if self.seen is None:
            raise Unsupported('the solver loop was not found')
        if self.phase == 'B' and not self.started:
            raise PathDone()         # no iteration at all: base case
        self.not_written()
        if self.running:
            # left by break or return inside the body
            j = self.rel() + 1
            self.running = False
            if self.cbf is not None and self.want_cb:
                B.same('one callback per iteration', len(self.cbs), 1, 'P16')
            st = self.state_after(j)
            lim = self.kabs() + 1 >= self.N
            c = zb(self.stopf(st, self.kabs() + 1)) if self.stopf is not None else z3.BoolVal(False)
            self.ob('stops only at the limit or when the stopping measure is met', SB(z3.Or(zb(lim), c)), 'P16')
        else:
            j = self.idx
            st = self.state_after(j)
        B.eq('returned value', ret, self.outf(st), self.prop)
        it = self.iterate(ret) if self.iterate is not None else (ret[0] if isinstance(ret, (tuple, list)) else ret)
        if self.want_cb and self.cbf is not None and j > 0 and getattr(self, 'lastcb', None) is not None:
            B.eq('the returned iterate is the last one computed', it, self.lastcb[0], 'P16')
        B.covers['loop exit'] = True


def nice(name, c):
    return '%s ~ %s' % (name if isinstance(name, str) else '.'.join(map(str, name)), ' '.join(map(str, c)))


def core_undef():
    from . import loader
    return loader.UNDEF


class Ctl:
    sym = True

    def __init__(self, m, names, is_for):
        self.m, self.names, self.is_for = m, names, is_for
        m.is_for = is_for
        m.idx = 0
        self.n = 0

    def __iter__(self):
        m = self.m
        if m.phase == 'A':
            k = 0
            while True:
                if k > 0:
                    m.body_done()
                m.idx = k
                if not (S(z(k)) < m.N):
                    return
                yield m.off + k if not (isinstance(m.off, int) and m.off == 0) else k
                k += 1
        else:
            kc = z3.Real('iter_k')
            k = S(kc, True)
            yield k if (isinstance(m.off, int) and m.off == 0) else m.off + k
            m.body_done()
            m.idx = 1
            if not (m.kcur + 1 < m.N):
                return
            yield k + 1

    def head(self, loc):
        r = self.m.at_head(self.names, loc)
        self.m.running = True
        return r

    def exit(self, loc):
        from .loader import UNDEF
        self.m.running = False
        return tuple(loc.get(n, UNDEF) for n in self.names)

    # while
    def tick(self):
        m = self.m
        if self.n > 0:
            m.body_done()
        m.idx = self.n
        if m.phase == 'B' and m.started:
            m.idx = 1
        self.n += 1
        return True

    def cond(self, c):
        m, B = self.m, self.m.B
        val = bool(c)
        k = m.idx if m.phase == 'A' else m.kcur
        st = m.state_after(0 if m.phase == 'B' else m.idx)
        more = zb(k < m.N) if isinstance(k, S) else zb(S(z(k)) < m.N)
        stop = zb(m.stopf(st, k)) if m.stopf is not None and not (m.phase == 'A' and m.idx == 0) else z3.BoolVal(False)
        if val:
            B.true('continues only below the limit and while the stopping measure is not met', SB(z3.And(more, z3.Not(stop))), 'P16')
        else:
            B.true('stops only at the limit or when the stopping measure is met', SB(z3.Or(z3.Not(more), stop)), 'P16')
            m.running = False
            if m.phase == 'B':
                m.idx = 0
        return val


def _prop(B, prop):
    """with the display on, the iterates are part of P16 (reporting does not change them)"""
    return 'P16' if B.cfg.get('show') and B.only == {'P16'} else prop or B.defprop


def machine_sym(B, run, N, init, step, cb=None, out=None, stop=None, inv=None, aux=None, cells=None, p0=1, K=3, main=None, prop=None, iterate=None,
                callback=True, tol=None):
    m = Machine(B, run, N, init, step, cb, out, stop, inv, aux, cells, p0, K, main, _prop(B, prop), iterate)
    m.want_cb = callback
    C = B.C
    B.C.opts['session']['machine'] = True
    C.loop_hook = m.hook
    try:
        ret = run(m.callback if callback else None, N)
    finally:
        C.loop_hook = None
    m.finish(ret)
    return m


# ---------------------------------------------------------------- concrete reading
def cp(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(cp(i) for i in v)
    return v


def machine_num(B, run, N, init, step, cb=None, out=None, stop=None, inv=None, aux=None, cells=None, p0=1, K=3, main=None, prop=None, iterate=None,
                callback=True, tol=1e-7):
    prop = _prop(B, prop)
    states = [NS(init() if callable(init) else init)]
    for k in range(N):
        states.append(NS(step(states[-1], k)))
        if stop is not None and bool(stop(states[-1], k + 1)):
            break
    calls, refs = [], []

    def record(*a):
        calls.append(cp(a))
        refs.append(a)
    with contextlib.redirect_stdout(io.StringIO()):
        ret = run(record if callback else None, N)
    if callback:
        for i, (a, s) in enumerate(zip(calls, states[1:])):
            e = cb(s)
            B.same('number of callback arguments', len(a), len(e), 'P16')
            for q, (x, y) in enumerate(zip(a, e)):
                B.eq('iterate after every iteration (callback argument %d)' % (q + 1), x, y, prop, tol=tol)
        if prop in (B.only or [prop]) and 'P16' not in (B.only or ['P16']):
            pass
        if stop is None:
            B.same('one callback per iteration', len(calls), N, 'P16')
        else:
            B.same('stops at the first iteration that meets the stopping measure', len(calls), len(states) - 1, 'P16')
        for a, r in zip(calls, refs):
            B.eq('iterates handed to the callback stay intact', list(r), list(a), 'P16', tol=0.0)
    B.eq('returned value', ret, out(states[-1]), prop, tol=tol)
    it = iterate or (lambda r: r[0] if isinstance(r, (tuple, list)) else r)
    if callback and calls:
        B.eq('the returned iterate is the last one computed', it(ret), calls[-1][0], 'P16', tol=0.0)
    if callback and getattr(B, 'nth', 0) < 2:
        with contextlib.redirect_stdout(io.StringIO()):
            ret2 = run(None, N)
        B.eq('the same result without a callback', it(ret2), it(ret), 'P16', tol=1e-9)
    return ret
