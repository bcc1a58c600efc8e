"""Products of unknown real matrices (symbolic reading).

A matrix is a flattened sequence with a shape; a product of matrices is a linear combination of *words*, a word being a list of letters
(sequence, shape, transposed?).  Transposing a word reverses it, and the inner product of two words is the trace of a word, which is equal to the trace
of its rotations and of its transpose: both are canonicalised, so that e.g. <R Y^T, H> and <R, H Y> are the same term.  Only bilinearity,
associativity, (XY)^T = Y^T X^T and the trace rules are used.  Arrays are real here: conj() is the identity (complex matrices: concrete runs)."""
from __future__ import annotations

import z3

from . import core
from .core import Atom, Buf, S, Unsupported, V, Val, ctx, vatom, z


class Letter:
    """one matrix of a word"""
    __slots__ = ('a', 'shape', 't', 'key')

    def __init__(self, a, shape, t):
        self.a, self.shape, self.t = a, shape, t
        self.key = (a.id, _key(shape), t)

    def flip(self):
        return Letter(self.a, self.shape, not self.t)

    @property
    def dims(self):
        return self.shape[::-1] if self.t else self.shape


def _key(shape):
    return tuple(z3.simplify(z(d)).sexpr() for d in shape)


def _same(p, q):
    from . import prover
    return _key([p]) == _key([q]) or prover.implied(ctx(), z(p) == z(q))


def transpose(w):
    return tuple(x.flip() for x in reversed(w))


def letters(a, shape):
    """the word of one sequence read as a matrix of this shape"""
    if a.tag and a.tag[0] == 'word':
        w = a.tag[1]
        if _same(w[0].dims[0], shape[0]) and _same(w[-1].dims[1], shape[1]):
            return w
    return (Letter(a, shape, False),)


def atom(w):
    """the sequence of a word"""
    if len(w) == 1 and not w[0].t:
        return w[0].a
    c = ctx()
    k = ('word',) + tuple(x.key for x in w)
    if k not in c.cache:
        size = S(z3.simplify(z(w[0].dims[0]) * z(w[-1].dims[1])), True)
        c.cache[k] = Atom('[%s]' % ' '.join(x.a.name + ("'" if x.t else '') for x in w), size, tag=('word', w))
    return c.cache[k]


def matval(val, shape, t):
    """the sequence of a matrix or of its transpose"""
    if not t:
        return val
    out = Val({}, val.size)
    for a, cf in val.lin.items():
        out = out.add(Val({atom(transpose(letters(a, shape))): cf}, val.size))
    return out


def product(p, sp, tp, q, sq, tq):
    """value of the product of two matrices and its shape; sp, sq are the shapes before transposition"""
    dp, dq = (sp[::-1] if tp else sp), (sq[::-1] if tq else sq)
    if not _same(dp[1], dq[0]):
        raise Unsupported('product of matrices of different inner dimensions')
    size = S(z3.simplify(z(dp[0]) * z(dq[1])), True)
    out = Val({}, size)
    for a, ca in p.lin.items():
        wa = letters(a, sp)
        wa = transpose(wa) if tp else wa
        for b, cb in q.lin.items():
            wb = letters(b, sq)
            wb = transpose(wb) if tq else wb
            out = out.add(Val({atom(wa + wb): z3.simplify(ca * cb)}, size))
    return out, (dp[0], dq[1])


def is_word(a):
    return bool(a.tag) and a.tag[0] == 'word'


def trace(a, b):
    """<a, b> where one of the two is a word"""
    c = ctx()
    w0 = a if is_word(a) else b
    o = b if w0 is a else a
    w = w0.tag[1]
    shape = (w[0].dims[0], w[-1].dims[1])
    v = w + transpose(letters(o, shape))
    # the image of an adjoint inside: <A^H u, W> = <u, A W>
    for i, x in enumerate(v):
        if x.a.tag and x.a.tag[0] == 'lin' and x.a.tag[2] == 'adj' and not getattr(x.a.tag[1], 'isometry', False):
            rest = v[i + 1:] + v[:i]                     # trace(x rest) = <x, rest^T> = <x^T, rest>
            other = atom(rest if x.t else transpose(rest))
            return core.inner(vatom(x.a.tag[3]), x.a.tag[1].base_matvec(vatom(other)))
    if len(v) == 2 and v[0].t != v[1].t:
        return core.gram(v[0].a, v[1].a)
    best = None
    for u in (v, transpose(v)):
        for i in range(len(u)):
            r = u[i:] + u[:i]
            if best is None or [x.key for x in r] < [x.key for x in best]:
                best = r
    k = ('trace',) + tuple(x.key for x in best)
    if k not in c.cache:
        c.cache[k] = 'tr%d[%s]' % (len(c.cache), ' '.join(x.a.name + ("'" if x.t else '') for x in best))
    n = c.cache[k]
    if n not in c.gram_info:
        c.gram_info[n] = (a, b)
        c.axioms[n] = []
    if a is b and not c.axioms[n]:
        c.axioms[n] = [z3.Real(n) >= 0]
    return S(z3.Real(n))
