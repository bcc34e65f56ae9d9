"""C13: gradient and Hessian of the log-likelihood."""
import numpy as np

import maxlike
from vlib.engine import Case
from maxlike.tensor import Tensor
from checks.expr import u, ul, sum_, prod_, wrap, comp
from checks.flib import dense, d1, d2, shp
from checks.smath import exp, log

BOUNDS = {'quick': 'the model classes of C12 with arbitrary twice differentiable models of up to 4 parameters (8 for four of the classes) (scalar, vector, '
                   'matrix), feature shapes up to (2,3) (one of rank 3), up to 3 categories (6 for three models) on one or two axes; dense, diagonal, mixed, '
                   'broadcast and absent derivative blocks; every data value, sample weight, scale and zero-inflation weight',
          'thorough': 'as quick with larger feature axes and rank-3 features'}
ASSUMPTIONS = ['values of the probability models are positive']

V, W = (2,), (3,)


def models(env, name, ds):
    return {
        'full': lambda: u(env, 'f', [V, ()], (2, 3), ds),
        'diag': lambda: u(env, 'f', [V, W, ()], (2, 3), ds, pmaps=[(0,), (1,), None]),
        'matrix': lambda: u(env, 'f', [(2, 3), V], (2, 3), ds, pmaps=[(0, 1), (0,)]),
        'scalar': lambda: u(env, 'f', [()], (), ds),
        'scalar2': lambda: u(env, 'f', [(), ()], (), ds),
        'scalars': lambda: u(env, 'f', [(), ()], V, ds),
        'swap': lambda: u(env, 'f', [(3, 2)], (2, 3), ds, pmaps=[(1, 0)]),
        'partdiag': lambda: u(env, 'f', [(2, 2)], (2,), ds, pmaps=[(0, -1)]),
        'two-sides': lambda: u(env, 'f', [V, V], (2, 2), ds, pmaps=[(0,), (1,)]),
        'linear': lambda: ul(env, 'f', [V, ()], (2, 3), ds, pmaps=[(0,), None]),
        'rank3': lambda: u(env, 'f', [V, (2, 2), ()], (2, 2, 2), ds, pmaps=[(1,), (0, 2), None]),
        'wide': lambda: u(env, 'f', [(4,), (3,), (4, 3)], (4, 3), ds, pmaps=[(0,), (1,), (0, 1)]),
    }[name]()


def sums(env, name, ds):
    D = len(ds)

    def S_(terms, N, shapes):
        ts = []
        for e, pm, fm in terms:
            ts.append((e, pm, fm, list(range(e.nd))) if ds else (e, pm, fm))
        return sum_(ts, N, shapes, D)
    return {
        'add': lambda: S_([(u(env, 'f', [V], V, ds, pmaps=[(0,)]), 0, 0),
                           (u(env, 'g', [W], W, ds, pmaps=[(0,)]), 1, 1)], 2, [V, W]),
        'cross': lambda: S_([(u(env, 'f', [V], V, ds, pmaps=[(0,)]), 0, 0),
                             (u(env, 'g', [V], V, ds, pmaps=[(0,)]), 0, 1)], 2, [V]),
        'broadcast': lambda: S_([(u(env, 'f', [V], V, ds, pmaps=[(0,)]), 0, 0)], 2, [V]),
        'absent': lambda: S_([(u(env, 'f', [V], V, ds, pmaps=[(0,)]), 2, 0), (u(env, 'g', [()], (), ds), 0, None)],
                             2, [(), W, V]),
        'mixed': lambda: S_([(u(env, 'f', [V, ()], V, ds, pmaps=[(0,), None]), [0, 1], 0),
                             (u(env, 'g', [V], W, ds), 0, 1)], 2, [V, ()]),
        'four': lambda: S_([(u(env, 'f', [V], V, ds, pmaps=[(0,)]), 3, 0),
                            (u(env, 'g', [W, ()], W, ds, pmaps=[(0,), None]), [1, 2], 1),
                            (u(env, 'h', [()], (), ds), 0, None)], 2, [(), W, (), V]),
        'eight': lambda: S_([(u(env, 'f%d' % k, [V], V, ds, pmaps=[(0,)]), 7 - k, k % 2) for k in range(8)], 2, [V] * 8),
        'reversed': lambda: S_([(u(env, 'f', [(), W], W, ds, pmaps=[None, (0,)]), [1, 0], 1)], 2, [W, ()]),
    }[name]()


def prods(env, name, ds):
    D = len(ds)
    dm = list(range(D)) if ds else None
    f = u(env, 'f', [V], V, ds, pmaps=[(0,)])
    return {
        'product': lambda: prod_([(f, 0, 0) + ((dm,) if ds else ()),
                                  (u(env, 'g', [W], W, ds, pmaps=[(0,)]), 1, 1) + ((dm,) if ds else ())],
                                 2, [V, W], D),
        'wrapped': lambda: wrap(u(env, 'f', [V, ()], (2, 3), ds, pmaps=[(0,), None]), [1, 0], [1, 0], 2,
                                [(), V], dm, D),
    }[name]()


def build(env, kind, dims, shape):
    if kind == 'poisson':
        mle = maxlike.Poisson()
    elif kind == 'zip':
        mle = maxlike.ZeroInflatedPoisson(env.arr('s', (), 'pos'))
        mle.Z = Tensor(env.arr('Z', shape, 'nonneg'))
    elif kind == 'truncated':
        # no observations at zero
        mle = maxlike.ZeroInflatedPoisson(NONE)
        mle.Z = Tensor(np.zeros(shape))
    elif kind == 'logistic':
        mle = maxlike.Logistic()
    elif kind == 'negbin':
        mle = maxlike.NegativeBinomial(env.arr('r', (), 'pos'))
    else:
        mle = {'finite': maxlike.Finite, 'normalized': maxlike.NormalizedFinite}[kind](len(dims))
    mle.N = Tensor(env.arr('N', shape + dims, 'nonneg'), dim=len(dims))
    if not dims:
        mle.X = Tensor(env.arr('X', shape, 'nonneg'))
    return mle


def formula(env, kind, y, N, X, s, dims):
    """the log-likelihood of the documented distribution up to data-only terms;
    y, N, X dense arrays over feature axes (then category axes)"""
    t = 0
    if kind in ('finite', 'normalized'):
        nd = len(dims)
        for i in np.ndindex(*y.shape[:y.ndim - nd]):
            z = sum(np.asarray(y[i]).ravel())
            for k in np.ndindex(*dims):
                t = t + N[i + k] * log(y[i + k])
                if kind == 'finite':
                    t = t - N[i + k] * log(z)
        return t
    for i in np.ndindex(*y.shape):
        v, n, x = y[i], N[i], X[i]
        m = exp(v)
        if kind == 'poisson':
            t = t + x * v - n * m
        elif kind in ('zip', 'truncated'):
            t = t + x * v - n * log(exp(m) + s - 1)
        elif kind == 'logistic':
            t = t + x * log(1 / (1 + exp(-v))) + (n - x) * log(1 / (1 + exp(v)))
        else:
            t = t + x * v - (x + s * n) * log(s + m)
    return t


# no zeros at all
NONE = 0
# likelihoods tried with eight parameters
EIGHT = ('poisson', 'logistic', 'negbin', 'normalized')


def elsewhere(env, mle, ps, dim):
    """the object is used with other parameters and data before"""
    keep = {k: getattr(mle, k) for k in ('N', 'X', 'Z') if hasattr(mle, k)}
    given = {'N': 7., 'X': 3., 'Z': 0. if getattr(mle, 's', None) is NONE else 2.}
    for k, t in keep.items():
        setattr(mle, k, Tensor(np.full(t.toarray().shape, given[k]), dim=dim))
    qs = [maxlike.Param(np.full(shp(p), .25)) for p in ps]
    with env.once():
        y, der, hess = mle.model.eval(qs)
        y = Tensor(np.full(y.toarray().shape, .5), dim=dim)
        mle.like(qs, y)
        mle.grad_like(qs, y, der)
        mle.hess_like(qs, y, der, hess)
    mle.__dict__.update(keep)


def like(env, kind, model, shape, dims, which):
    e = which(env, model, dims)
    mle = build(env, kind, dims, shape)
    mle.model = e.func
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(e.pshapes)]
    params = [maxlike.Param(p) for p in ps]
    yv = np.broadcast_to(np.asarray(e.spec([np.asarray(p) for p in ps])), shape + dims)
    if dims:
        for x in yv.ravel():
            env.assume(x > 0)
    v = env.exact(formula(env, kind, yv, np.asarray(mle.N.values), None if dims else np.asarray(mle.X.values),
                          {'zip': lambda: mle.s, 'negbin': lambda: mle.scale}.get(kind, lambda: 0)(), dims))
    elsewhere(env, mle, ps, len(dims))
    y, der, hess = mle.model.eval(params)
    grad = mle.grad_like(params, y, der)
    H = mle.hess_like(params, y, der, hess)
    n = len(ps)
    env.true('lengths', len(grad) == n and len(H) == n and all(len(H[i]) >= i + 1 for i in range(n)))
    D1 = [d1(env, v, p) for p in ps]
    for i in range(n):
        env.eq('grad%d' % i, dense(grad[i], (shp(ps[i]), (), (), ())), D1[i])
        for j in range(i + 1):
            env.eq('hess%d%d' % (i, j), dense(H[i][j], (shp(ps[i]), shp(ps[j]), (), ())),
                   d2(env, v, ps[i], ps[j]))
    # separate evaluation of the model gives the same gradient
    g2 = mle.grad_like(params, mle.model(params), mle.model.grad(params))
    for i in range(n):
        env.eq('grad%d-separate' % i, dense(g2[i], (shp(ps[i]), (), (), ())), D1[i])


SHAPE = {'scalar': (), 'scalar2': (), 'scalars': V, 'partdiag': V, 'two-sides': (2, 2), 'cross': (2, 2), 'wrapped': (3, 2),
         'eight': (2, 2), 'rank3': (2, 2, 2), 'wide': (4, 3)}


def cases(tier):
    r = []
    T = tier == 'thorough'
    for kind in ('poisson', 'zip', 'truncated', 'logistic', 'negbin', 'finite', 'normalized'):
        dd = [(2,), (2, 2)] if kind in ('finite', 'normalized') else [()]
        if T and dd[0]:
            dd.append((3,))
        if dd[0] and not T:
            for m, w in (('scalar', models), ('add', sums), ('two-sides', models)):
                r.append(Case('%s-%s-6' % (kind, m), like, kind=kind, model=m, shape=SHAPE.get(m, (2, 3)), dims=(6,), which=w,
                              paths=120))
        for dims in dd:
            for which, names in ((models, ['full', 'diag', 'matrix', 'scalar', 'scalars', 'swap', 'partdiag', 'two-sides',
                                           'linear'] + (['rank3'] if not T and dims in ((), (2,)) else []) + (['rank3', 'wide', 'scalar2'] if T else [])),
                                 (sums, ['add', 'cross', 'broadcast', 'absent', 'mixed', 'reversed', 'four'] + (['eight'] if kind in EIGHT else [])),
                                 (prods, ['product', 'wrapped'])):
                for m in names:
                    if dims == (2, 2) and not T and m not in ('full', 'add', 'scalar', 'mixed', 'diag'):
                        continue
                    if m == 'linear' and dims:
                        continue
                    if kind == 'truncated' and not T and m not in ('full', 'diag', 'scalar', 'cross', 'mixed', 'product'):
                        continue
                    sh = SHAPE.get(m, (2, 3))
                    r.append(Case('%s-%s%s' % (kind, m, ''.join('-%d' % d for d in dims)), like, kind=kind, model=m,
                                  shape=sh, dims=dims, which=which, paths=2000 if T else 120))
    return r
