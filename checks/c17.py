"""C17: error matrix, standard errors, Fisher matrix, AIC, BIC."""
import numpy as np

import maxlike
from maxlike.tensor import Tensor
from vlib import sym as S
from vlib.engine import Case
from vlib.patch import sym_inv
from checks.c14 import masks_for, vec
from checks.smath import log
from checks.expr import u

BOUNDS = {'quick': 'every invertible symmetric flat Hessian of order up to 5 (free entries + constraints), 0-2 constraints, 1-3 '
                   'parameters of shapes (), (2), (3), (2,2) with every mask of up to 4 entries; standard errors for every '
                   'Hessian with positive variances of order up to 5; AIC/BIC for every objective value, every sample weight '
                   'of up to 6 cells (with and without category axes), 0-3 constraints and 0-3 extra parameters',
          'thorough': 'order up to 5'}


class Model(object):
    def __call__(self, params):
        return None

    def grad(self, params, i=None):
        return [None] * len(params) if i is None else None

    def hess(self, params, i=None, j=None):
        return [[None] * (k + 1) for k in range(len(params))] if i is None or j is None else None

    def eval(self, params):
        return self(params), self.grad(params), self.hess(params)


class M(maxlike.maxlike_base.MaxLike):
    def __init__(self, l=None):
        maxlike.maxlike_base.MaxLike.__init__(self)
        self.l = l
        self.model = Model()

    def like(self, params, y):
        return Tensor(self.l)

    grad_like = hess_like = like


def hessian(env, n, c, factor):
    """bordered symmetric matrix"""
    dt = object if env.sym else float
    H = np.full((n + c, n + c), env.exact(0)[()], dtype=dt)
    if factor:
        L = np.full((n, n), env.exact(0)[()], dtype=dt)
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = env.var('L%d%d' % (i, j), 'pos' if i == j else 'real')
        H[:n, :n] = -(L.dot(L.T))
    for i in range(n + c):
        for j in range(i + 1):
            if i < n and factor or j >= n:
                continue
            H[i, j] = H[j, i] = env.var('H%d%d' % (i, j))
    return H


def inverse(env, A):
    if env.sym:
        return sym_inv(A)
    return np.linalg.inv(A)


def scatter(env, a, masks, fill):
    """(i, j) -> block of the flat matrix a"""
    pos, q = [], 0
    for m in masks:
        w = np.full(m.shape, -1)
        for e in np.ndindex(*m.shape):
            if not m[e]:
                w[e] = q
                q += 1
        pos.append(w)

    def block(i, j):
        b = np.empty(masks[i].shape + masks[j].shape, dtype=object if env.sym else float)
        for e in np.ndindex(*b.shape):
            x, y = pos[i][e[:masks[i].ndim]], pos[j][e[masks[i].ndim:]]
            b[e] = a[x, y] if x >= 0 and y >= 0 else fill
        return b
    return block


def errors(env, shapes, c, every, nmax, what):
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    mle = None
    for k, masks in enumerate(masks_for(shapes, every)):
        n = sum(int((~m).sum()) for m in masks)
        if n == 0 or n + c > nmax or c >= n:
            continue
        t = 'm%d ' % k
        H = hessian(env, n, c, what == 'std')
        if mle is None or k % 3 == 0:
            mle = M()
        else:
            # the object served another fit before
            mle.reset_params()
            mle.constraint = []
        for p, m in zip(ps, masks):
            mle.add_param(np.array(p, copy=True), m)
        for i in range(c):
            mle.add_constraint(0, u(env, 'c%d' % i, [shapes[0]], ()).func)
        # the errors at another point were asked for before
        mle.flat_hess_ = -2. * np.eye(n + c)
        mle.fisher_matrix()
        mle.error_matrix()
        mle.std_error()
        mle.flat_hess_ = np.array(H, copy=True)
        if what == 'error':
            V = inverse(env, -H)
            b = scatter(env, V, masks, None)
            got = mle.error_matrix()
            env.true(t + 'blocks', len(got) == len(shapes) and all(len(r) == len(shapes) for r in got))
            for i in range(len(shapes)):
                for j in range(len(shapes)):
                    w = b(i, j)
                    g = np.asarray(got[i][j])
                    free = np.multiply.outer(~masks[i], ~masks[j])
                    env.true(t + 'shape', g.shape == w.shape)
                    if g.shape != w.shape:
                        continue
                    env.eq(t + 'error %d%d' % (i, j), g[free], w[free] if env.sym else w[free].astype(g.dtype))
            b = scatter(env, H, masks, env.exact(0)[()])
            got = mle.fisher_matrix()
            for i in range(len(shapes)):
                for j in range(len(shapes)):
                    env.eq(t + 'fisher %d%d' % (i, j), got[i][j], b(i, j))
        else:
            V = inverse(env, -H)
            d = [V[i, i] for i in range(n)]
            if env.sym:
                for x in d:
                    env.assume(x > 0)
            got = mle.std_error()
            env.true(t + 'count', len(got) == len(shapes))
            q = 0
            for g, m in zip(got, masks):
                f = int((~m).sum())
                env.true(t + 'mask', g.shape == m.shape and bool(np.array_equal(np.ma.getmaskarray(g), m)))
                env.eq(t + 'std', np.asarray(g.data)[~m], vec(env, [S.sqrt(S.to_sym(x)) if env.sym else x ** .5
                                                                     for x in d[q:q + f]]))
                q += f
        env.eq(t + 'hessian kept', mle.flat_hess_, H)


def criteria(env, shapes, masks, c, extra, nshape, dim, reg):
    mle = M(env.var('like'))
    for k, (s, m) in enumerate(zip(shapes, masks)):
        mle.add_param(env.arr('p%d' % k, s), m)
    for i in range(c):
        mle.add_constraint(0, u(env, 'c%d' % i, [shapes[0]], ()).func)
    N = env.arr('N', nshape, ('open', 2, 9))
    mle.N = Tensor(N, dim=dim)
    n = sum(np.asarray(N).ravel())
    total = sum(int(np.prod(s)) for s in shapes)
    fixed = sum(int(m.sum()) for m in masks if m is not None)
    # the value of the objective
    h = env.exact(0)[()]
    for i in reg:
        e = u(env, 'h%d' % i, [shapes[i]], ())
        mle.add_regularization(i, e.func)
        h = h + e.spec([np.asarray(mle.params[i])])[()] if env.sym else 0
    # asked before, with other data
    mle.N, kept = Tensor(np.full((2,) * len(nshape), 50.), dim=dim), mle.N
    mle.akaine_information_criterion()
    mle.bayesian_information_criterion()
    mle.N = kept
    l = mle.g(mle.params)
    env.eq('objective', l, env.exact((env.var('like') - h) / n) if env.sym else None)

    def aic(k):
        return env.exact(2 * k / (n - k - 1) - 2 * l)

    def bic(k):
        return env.exact(k * log(n) / n - 2 * l)
    one = env.exact(1)[()]
    k = one * (total - fixed - c + extra)
    kall = one * (total - c + extra)
    kn = (lambda f: ('fixed-counted', f(kall))) if fixed else (lambda f: None)
    args = (extra,) if extra else ()
    env.eq('aic', mle.akaine_information_criterion(*args), aic(k), known=kn(aic))
    env.eq('bic', mle.bayesian_information_criterion(*args), bic(k), known=kn(bic))


def cases(tier):
    T = tier == 'thorough'
    r = []
    S_ = [[()], [(2,)], [(3,)], [(2, 2)], [(2,), ()], [(2,), (2,)], [(), (3,)], [(2,), (), ()], [(2, 1), (2,)]]
    if T:
        S_ += [[(2,), (3,)], [(2, 2), (2,)]]
    for shapes in S_:
        nm = '+'.join('x'.join(map(str, s)) or '0d' for s in shapes)
        for c in (0, 1, 2):
            if c >= sum(int(np.prod(s)) for s in shapes):
                continue
            r.append(Case('error-%s-c%d' % (nm, c), errors, shapes=shapes, c=c, every=4, nmax=max(5 if T else 4, c + 3), what='error'))
            r.append(Case('std-%s-c%d' % (nm, c), errors, shapes=shapes, c=c, every=4, nmax=max(4 if T else 3, c + 3), what='std'))
    k = 0
    none = [None, None, None]
    for shapes, masks in [([(2,)], none), ([(2,), (3,)], none), ([(2, 2), ()], none), ([(3,), (), (2,)], none),
                          ([(3,)], [np.array([True, False, False])]),
                          ([(2,), (2, 2)], [np.array([False, True]), np.array([[False, True], [False, False]])])]:
        for c, extra in ((0, 0), (1, 0), (2, 1), (1, 3), (3, 0)):
            for nshape, dim in (((2, 3), 0), ((), 0), ((2, 2), 1), ((1, 2, 3), 2)):
                r.append(Case('criteria-%d' % k, criteria, shapes=shapes, masks=masks, c=c, extra=extra, nshape=nshape,
                              dim=dim, reg=[range(0), range(1), range(len(shapes))][k % 3]))
                k += 1
    return r
