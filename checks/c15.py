"""C15: free / fixed flattening and reshaping."""
import itertools

import numpy as np

import maxlike
from vlib.engine import Case
from vlib.sym import Unsupported
from checks.c14 import masks_for, vec

BOUNDS = {'quick': 'up to 8 parameters of shapes (), (2), (3), (2,2), (1,3), (2,1,2); every mask of up to 6 entries in all (a '
                   'spread of ten masks above), given as arrays or lists; every real value of the parameters, of the free vector, of the fill values and '
                   'of the flat matrix (symmetric or not), or whole numbers',
          'thorough': 'every mask of up to 9 entries'}


class M(maxlike.maxlike_base.MaxLike):
    def __init__(self):
        maxlike.maxlike_base.MaxLike.__init__(self)

    def like(self, params, y):
        raise NotImplementedError

    grad_like = hess_like = like


def cat(env, xs):
    xs = [np.asarray(x).reshape(-1) for x in xs]
    return np.concatenate(xs) if xs else env.exact([])


def vals(p):
    return np.asarray(p.values)


def vector(env, shapes, every, half):
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    mle = None
    for k, masks in enumerate(masks_for(shapes, every)):
        if k % 2 != half:
            continue
        t = 'm%d ' % k
        if mle is None or k % 3 == 0:
            mle = M()
        else:
            # the object served other parameters before
            mle.reset_params()
        how = k % 4
        for p, m in zip(ps, masks):
            if how == 3:
                mle.add_param(np.asarray(p).tolist(), m.tolist())
                continue
            # a parameter without fixed entries may be added without a mask
            fixed = m if m.any() or how == 0 else (None if how == 1 else False)
            mle.add_param(np.array(p, copy=True), fixed)
        env.true(t + 'shapes', all(q.shape == s and q.mask.shape == s for q, s in zip(mle.params, shapes)))
        for q, p, m in zip(mle.params, ps, masks):
            env.eq(t + 'values', vals(q), np.asarray(p))
            env.true(t + 'mask', bool(np.array_equal(q.mask, m)))
            env.true(t + 'count', int(q.count()) == int((~m).sum()))
            env.eq(t + 'compressed', q.compressed(), np.asarray(p)[~m])
        for g, p, m in zip(mle.get_params(), ps, masks):
            env.eq(t + 'masked', np.asarray(g.data), np.asarray(p))
            env.true(t + 'masked.mask', bool(np.array_equal(np.ma.getmaskarray(g), m)))
        flat = cat(env, [q.compressed() for q in mle.params])
        back = mle._reshape_params(flat)
        env.true(t + 'count', len(back) == len(ps))
        for a, p, m in zip(back, ps, masks):
            env.eq(t + 'round trip', vals(a), np.asarray(p))
            env.true(t + 'round trip mask', bool(np.array_equal(a.mask, m)))
        n = len(flat)
        x = env.arr('x', (n,)) if n else env.exact([])
        # a new vector: free entries in order, fixed entries kept
        want, q = [], 0
        for p, m in zip(ps, masks):
            w = np.array(p, copy=True)
            for e in np.ndindex(*w.shape):
                if not m[e]:
                    w[e] = x[q]
                    q += 1
            want.append(w)
        got = mle._reshape_params(x)
        for a, w in zip(got, want):
            env.eq(t + 'new', vals(a), w)
        env.eq(t + 'flatten', cat(env, [a.compressed() for a in got]), x)
        # the model's own parameters are unchanged
        for q_, p in zip(mle.params, ps):
            env.eq(t + 'kept', vals(q_), np.asarray(p))
        # with fill values
        for fill in (0, -1.5):
            for a, w, m in zip(mle._reshape_array(x, fill), want, masks):
                e = np.array(w, copy=True)
                e[m] = env.exact(fill)[()]
                env.eq(t + 'fill', vals(a), e)
                env.true(t + 'fill mask', bool(np.array_equal(a.mask, m)))
        # default fill is nan in the fixed entries
        for a, w, m in zip(mle._reshape_array(x), want, masks):
            v = vals(a)
            env.eq(t + 'default free', v[~m], w[~m])
            env.true(t + 'default fixed', all(isinstance(c, float) and c != c for c in v[m]))
        f = int(sum(m.sum() for m in masks))
        fv = env.arr('f', (f,)) if f else env.exact([])
        q = 0
        for a, w, m in zip(mle._reshape_array(x, fv), want, masks):
            e = np.array(w, copy=True)
            for i in np.ndindex(*e.shape):
                if m[i]:
                    e[i] = fv[q]
                    q += 1
            env.eq(t + 'fill array', vals(a), e)


def matrix(env, shapes, every, sym, half):
    N = sum(int(np.prod(s)) for s in shapes)
    A = env.arr('A', (N, N))
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    mle = None
    for k, masks in enumerate(masks_for(shapes, every)):
        if k % 2 != half:
            continue
        t = 'm%d ' % k
        if mle is None or k % 3 == 0:
            mle = M()
        else:
            mle.reset_params()
        for p, m in zip(ps, masks):
            mle.add_param(np.array(p, copy=True), m)
        n = sum(int((~m).sum()) for m in masks)
        a = A[:n, :n]
        if sym:
            a = np.array([[a[max(i, j), min(i, j)] for j in range(n)] for i in range(n)],
                         dtype=A.dtype).reshape(n, n)
        pos, q = [], 0
        for m in masks:
            w = np.full(m.shape, -1)
            for e in np.ndindex(*m.shape):
                if not m[e]:
                    w[e] = q
                    q += 1
            pos.append(w)

        def want(fill):
            out = []
            for i in range(len(ps)):
                row = []
                for j in range(len(ps)):
                    b = np.empty(shapes[i] + shapes[j], dtype=A.dtype)
                    for e in np.ndindex(*b.shape):
                        x, y = pos[i][e[:len(shapes[i])]], pos[j][e[len(shapes[i]):]]
                        b[e] = a[x, y] if x >= 0 and y >= 0 else fill
                    row.append(b)
                out.append(row)
            return out
        calls = [('fill', mle._reshape_matrix(a, 0), want(env.exact(0)[()])),
                 ('fill 7', mle._reshape_matrix(a, 7), want(env.exact(7)[()]))]
        mle.flat_hess_ = a
        calls.append(('fisher', mle.fisher_matrix(), want(env.exact(0)[()])))
        for name, got, w in calls:
            env.true(t + name + ' blocks', len(got) == len(ps) and all(len(r) == len(ps) for r in got))
            for i in range(len(ps)):
                for j in range(len(ps)):
                    env.eq(t + '%s %d%d' % (name, i, j), got[i][j], w[i][j])
    if half == 0:
        mle = M()
        mle.add_param(np.zeros(2))
        env.raises('not a matrix', ValueError, mle._reshape_matrix, env.arr('x', (2,)))
        env.raises('not square', ValueError, mle._reshape_matrix, env.arr('y', (2, 3)))


def integers(env, shapes, every):
    """a free vector or matrix of whole numbers: fixed entries and fill values are not rounded"""
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    for k, masks in enumerate(masks_for(shapes, every)):
        t = 'm%d ' % k
        mle = M()
        for p, m in zip(ps, masks):
            mle.add_param(np.array(p, copy=True), m)
        n = sum(int((~m).sum()) for m in masks)
        x = np.arange(n) * 3 - 2
        try:
            got = mle._reshape_params(x)
        except (Unsupported, TypeError, ValueError):
            if not env.sym:
                raise
            # the replay tells if the values are rounded
            env.true(t + 'kept', False)
            return
        q, want = 0, []
        for p, m in zip(ps, masks):
            w = np.array(p, copy=True)
            for e in np.ndindex(*w.shape):
                if not m[e]:
                    w[e] = env.exact(x[q])[()]
                    q += 1
            want.append(w)
        env.true(t + 'kept', env.sym or all(np.allclose(vals(a).astype(float), w) for a, w in zip(got, want)))
        for a, w in zip(got, want):
            env.eq(t + 'new', env.exact(vals(a)), w)
        for a, w, m in zip(mle._reshape_array(x, -1.5), want, masks):
            e = np.array(w, copy=True)
            e[m] = env.exact(-1.5)[()]
            env.eq(t + 'fill', env.exact(vals(a)), e)
        for a, m in zip(mle._reshape_array(x), masks):
            env.true(t + 'default fixed', all(c != c for c in vals(a)[m]))
        f = mle._reshape_matrix(np.multiply.outer(x, x), .5)
        for i, mi in enumerate(masks):
            for j, mj in enumerate(masks):
                b = np.asarray(f[i][j], dtype=float)
                free = np.multiply.outer(~mi, ~mj)
                env.true(t + 'matrix fill', bool((b[~free] == .5).all()))


def cases(tier):
    T = tier == 'thorough'
    every = 9 if T else 6
    r = []
    S = [[()], [(2,)], [(3,)], [(2, 2)], [(1, 3)], [(), ()], [(2,), ()], [(2,), (3,)], [(), (2, 2)], [(2, 1, 2)],
         [(2,), (), (3,)], [(2, 2), (2,), ()], [(3,), (2, 2)], [(2,), (), (2,), (2,)], [(), (2,), (), (1,), (3,)], [(2, 3), (2,)],
         [(2,), (), (1,), (2,), (), (2,), (1, 2), ()], [(3, 4), (13,)]]
    if T:
        S += [[(2, 3), (3,)], [(2,), (2,), (2,), (2,)], [(2, 2), (2, 2), ()], [(3, 3)]]
    for shapes in S:
        nm = '+'.join('x'.join(map(str, s)) or '0d' for s in shapes)
        r.append(Case('integers-' + nm, integers, shapes=shapes, every=min(every, 4)))
        for half in (0, 1):
            r.append(Case('vector-%s-%d' % (nm, half), vector, shapes=shapes, every=every, half=half))
            for sym in (False, True):
                r.append(Case('matrix-%s-%d-%s' % (nm, half, 'symmetric' if sym else 'any'), matrix, shapes=shapes,
                              every=min(every, 6), sym=sym, half=half))
    return r
