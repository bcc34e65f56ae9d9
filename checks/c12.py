"""C12: log-likelihood values against the documented distributions."""
import numpy as np

import maxlike
from vlib.engine import Case
from maxlike.func.func_base import Func
from maxlike.tensor import Tensor
from checks.expr import u
from vlib.sym import Unsupported
from checks.smath import exp, log, gammaln

BOUNDS = {'quick': 'feature shapes (), (1), (2), (3), (2,2), (2,3), (2,2,2); model values of full size or constant along an axis; '
                   'up to 3 observations per cell, the same number in every cell or differing, none too (every real count >= 0), up to 3 categories, 1 or 2 category axes; up to '
                   '7 regularization terms (arbitrary functions of up to 3 parameters); every model value, scale and weight, no zero inflation (s = 0) when there are no zeros; '
                   'data given as attributes or to fit (arrays, lists, integers)',
          'thorough': 'feature shapes up to (3,4), rank 3, 4 observations per cell, 4 categories'}
ASSUMPTIONS = ['for aggregated cells (more than one observation) the comparison is of log-likelihood differences between two '
               'model values: terms that depend on the data alone are not part of the property']


class Given(Func):
    """a model that takes the given values"""

    def __init__(self, val, dim=0):
        self.val, self.dim = val, dim

    def __call__(self, params):
        return Tensor(self.val, dim=self.dim)

    def grad(self, params, i):
        return Tensor(0)

    def hess(self, params, i, j):
        return Tensor(0)


# log-probability of one observation given the model value y
def poisson(y, x):
    return x * y - exp(y) - gammaln(x + 1)


def zip_(y, x, s, zero):
    m = exp(y)
    if zero:
        return log(s) - log(exp(m) + s - 1)
    return x * y - gammaln(x + 1) - log(exp(m) + s - 1)


def logistic(y, x):
    # x is 0 or 1 (fractions interpolate)
    p = 1 / (1 + exp(-y))
    return x * log(p) + (1 - x) * log(1 / (1 + exp(y)))


def negbin(y, x, r):
    m = exp(y)
    return (gammaln(x + r) - gammaln(x + 1) - gammaln(r) + r * log(r) - r * log(r + m) +
            x * y - x * log(r + m))


def vals(env, name, shape, yshape, dom='real'):
    y = env.arr(name, yshape, dom)
    return y, np.broadcast_to(np.asarray(y), shape)


# a number of observations per cell, or the same one for all
RAGGED = [2, 0, 1, 3, 0, 2, 1]


def sizes(shape, nobs):
    if nobs == 'ragged':
        return {i: RAGGED[k % 7] for k, i in enumerate(np.ndindex(*shape))}
    return {i: nobs for i in np.ndindex(*shape)}


def total(env, shape, nobs, term):
    t = 0
    for i, n in sizes(shape, nobs).items():
        for o in range(n):
            t = t + term(i, o)
    return t


def prepare(env, kind, shape, nobs, zeros, default=False, scale=None):
    """(mle, observations, term(y) -> total log-probability)"""
    count = sizes(shape, nobs)
    x = env.arr('x', shape + (max(count.values()),), 'cunit' if kind == 'logistic' else 'nonneg')
    xs = np.asarray(x)
    if kind == 'zip':
        # by default no inflation and a scale of one
        s = env.exact(1)[()] if default else env.arr('s', (), 'pos') if scale is None else scale
        mle = maxlike.ZeroInflatedPoisson(*[] if default else [s])
        z = {}
        k = 0
        for i in np.ndindex(*shape):
            for o in range(count[i]):
                z[i, o] = bool((zeros >> k) & 1)
                k = (k + 1) % 5
                if z[i, o]:
                    xs[i + (o,)] = env.exact(0)[()] if not env.sym else 0
        mle.Z = Tensor(env.exact([sum(z[i, o] for o in range(count[i]))
                                  for i in np.ndindex(*shape)]).reshape(shape))

        def f(y):
            return total(env, shape, nobs, lambda i, o: zip_(y[i], xs[i + (o,)], s, z[i, o]))
    elif kind == 'negbin':
        r = env.exact(1)[()] if default else env.arr('r', (), 'pos')
        mle = maxlike.NegativeBinomial(*[] if default else [r])

        def f(y):
            return total(env, shape, nobs, lambda i, o: negbin(y[i], xs[i + (o,)], r))
    elif kind == 'poisson':
        mle = maxlike.Poisson()

        def f(y):
            return total(env, shape, nobs, lambda i, o: poisson(y[i], xs[i + (o,)]))
    else:
        mle = maxlike.Logistic()

        def f(y):
            return total(env, shape, nobs, lambda i, o: logistic(y[i], xs[i + (o,)]))
    X = np.empty(shape, dtype=xs.dtype)
    for i in np.ndindex(*shape):
        X[i] = sum(xs[i][:count[i]])
    mle.X = Tensor(X)
    mle.N = Tensor(env.exact([count[i] for i in np.ndindex(*shape)]).reshape(shape))
    return mle, f


def elsewhere(env, mle, ps=(), dim=0, zero=False):
    """the object is used with other data, parameters and models before"""
    keep = {k: getattr(mle, k) for k in ('N', 'X', 'Z') if hasattr(mle, k)}
    model = mle.model
    for shape in ((1, 2), (3,)):
        mle.N = Tensor(np.full(shape + (2,) * dim, 7.), dim=dim)
        if not dim:
            mle.X = Tensor(np.full(shape, 3.))
            mle.Z = Tensor(np.full(shape, 2.))
        mle.model = Given(np.full(shape + (2,) * dim, .5), dim)
        with env.once():
            mle.g([np.full(np.shape(np.asarray(p)), .25) for p in ps])
    mle.__dict__.update(keep)
    mle.model = model


def counts(env, kind, shape, yshape, nobs, zeros=0, default=False, scale=None):
    mle, f = prepare(env, kind, shape, nobs, zeros, default, scale)
    if scale != 0:
        elsewhere(env, mle)
    y, yf = vals(env, 'y', shape, yshape)
    y2, yf2 = vals(env, 'v', shape, yshape)
    n = sum(sizes(shape, nobs).values())
    mle.model = Given(y)
    if scale == 0:
        # finite in every case (the replay tells if the encoding stops at an infinite constant)
        try:
            g = mle.g(())
        except Unsupported:
            env.true('finite', False)
            return
        env.true('finite', env.sym or bool(np.isfinite(float(g))))
    g = mle.g(())
    if nobs == 1:
        env.eq('loglik', g, env.exact(f(yf) / n))
    mle.model = Given(y2)
    g2 = mle.g(())
    env.eq('difference', g - g2, env.exact((f(yf) - f(yf2)) / n))
    # g with an explicit model value is the same
    env.eq('explicit', mle.g((), Tensor(y)), env.exact(g))


def finite(env, kind, shape, yshape, dims, dim):
    cls = {'finite': maxlike.Finite, 'normalized': maxlike.NormalizedFinite}[kind]
    mle = cls() if dim == 1 else cls(dim)
    N = env.arr('N', shape + dims, 'nonneg')
    env.assume(sum(np.asarray(N).ravel()) > 0)
    y, yf = vals(env, 'y', shape + dims, yshape + dims, 'pos')
    elsewhere(env, mle, dim=dim)
    mle.N = Tensor(N, dim=dim)
    mle.model = Given(y, dim)
    Nf = np.asarray(N)
    t = 0
    for i in np.ndindex(*shape):
        z = sum(yf[i].ravel())
        for k in np.ndindex(*dims):
            p = yf[i + k] / z if kind == 'finite' else yf[i + k]
            t = t + Nf[i + k] * log(p)
    env.eq('loglik', mle.g(()), env.exact(t / sum(Nf.ravel())))


def penalized(env, kind, regs):
    """g subtracts the penalties, divided by the sample size"""
    shape = (2,)
    shapes = [(), (2,), (2, 2)]
    ps = [maxlike.Param(env.arr('p%d' % k, s)) for k, s in enumerate(shapes)]
    if kind in ('finite', 'normalized'):
        mle = {'finite': maxlike.Finite, 'normalized': maxlike.NormalizedFinite}[kind]()
        mle.N = Tensor(env.arr('N', (2, 2), 'pos'), dim=1)
        mle.model = Given(env.arr('y', (2, 2), 'pos'), 1)
    else:
        mle, f = prepare(env, kind, shape, 1, 0)
        mle.N = Tensor(env.arr('N', shape, 'pos'))
        mle.model = Given(env.arr('y', shape))
    base = mle.g(ps)
    n = sum(np.asarray(mle.N.toarray()).ravel())
    pen = 0
    for k, pm in enumerate(regs):
        e = u(env, 'h%d' % k, [shapes[i] for i in ([pm] if isinstance(pm, int) else pm)], ())
        mle.add_regularization(pm, e.func)
        pen = pen + e.spec([np.asarray(ps[i]) for i in ([pm] if isinstance(pm, int) else pm)])[()]
    elsewhere(env, mle, ps, int(kind in ('finite', 'normalized')))
    env.eq('penalized', mle.g(ps), env.exact(base - pen / n))


def fitted(env, kind, shape, dims, form):
    """the data handed to fit is the data of the objective, also of a second fit"""
    s = env.arr('s', (), 'pos') if kind in ('zip', 'negbin') else None
    if kind in ('finite', 'normalized'):
        cls = {'finite': maxlike.Finite, 'normalized': maxlike.NormalizedFinite}[kind]
        mle = cls() if len(dims) == 1 else cls(len(dims))
    else:
        cls = {'poisson': maxlike.Poisson, 'zip': maxlike.ZeroInflatedPoisson, 'logistic': maxlike.Logistic,
               'negbin': maxlike.NegativeBinomial}[kind]
        mle = cls() if s is None else cls(s)
    mle.add_param(np.array([1.5]))
    names = ['N'] + ([] if dims else ['X']) + (['Z'] if kind == 'zip' else [])

    def stop(data, **kw):
        # no step: the data is set and the fit gives up
        try:
            mle.fit(max_steps=0, **data, **kw)
        except maxlike.maxlike_base.ConvergenceError:
            return
        env.true('no step, no convergence', False)

    stop({k: np.full((2,) + dims, 3.) for k in names})
    stop({k: np.full(shape + dims, 12.) for k in names})
    # the number of zeros is at most the number of observations
    data = {k: env.arr(k, shape + dims, 'pos') for k in names}
    if form == 'list':
        stop({k: v.tolist() for k, v in data.items()})
    elif form == 'integers':
        g = np.random.RandomState(3)
        data = {k: g.randint(1, 9, shape + dims) for k in names}
        data['N'] = data['N'] + 8
        stop(dict(data))
        data = {k: env.exact(v) for k, v in data.items()}
    else:
        stop({k: v.copy() for k, v in data.items()})
    N = np.asarray(data['N'])
    n = sum(N.ravel())
    val = []
    for name in 'yv':
        y = env.arr(name, shape + dims, ('open', 0, 3))
        mle.model = Given(y, len(dims))
        t = 0
        for i in np.ndindex(*shape):
            if dims:
                z = sum(y[i].ravel())
                for k in np.ndindex(*dims):
                    t = t + N[i + k] * log(y[i + k] / z if kind == 'finite' else y[i + k])
                continue
            v, m, x = y[i], N[i], np.asarray(data['X'])[i]
            if kind == 'poisson':
                t = t + x * v - m * exp(v)
            elif kind == 'logistic':
                t = t + x * v - m * log(1 + exp(v))
            elif kind == 'negbin':
                t = t + x * v - (x + s * m) * log(s + exp(v))
            else:
                t = t + x * v - m * log(exp(exp(v)) + s - 1)
        val.append((mle.g(()), env.exact(t / n)))
    env.eq('difference', val[0][0] - val[1][0], val[0][1] - val[1][1])
    if dims:
        env.eq('loglik', val[0][0], val[0][1])


def cases(tier):
    T = tier == 'thorough'
    r = []

    def nm(s):
        return 'x'.join(map(str, s)) or '0d'
    shapes = [((), ()), ((1,), (1,)), ((2,), (2,)), ((2,), (1,)), ((3,), ()), ((2, 2), (2, 2)), ((2, 3), (2, 1)),
              ((2, 3), (1, 3)), ((2, 3), (2, 3)), ((2, 2, 2), (2, 2, 2)), ((2, 2, 2), (1, 2, 1))]
    if T:
        shapes += [((3, 4), (3, 4))]
    for sh, ys in shapes:
        ragged = ('ragged',) if sh else ()
        for kind in ('poisson', 'logistic', 'negbin'):
            for nobs in ((1, 2, 3, 4) if T else (1, 2, 3)) + ragged:
                if nobs != 'ragged' and np.prod(sh) * nobs > 12 and not T:
                    continue
                r.append(Case('%s-%s-%s-%s' % (kind, nm(sh), nm(ys), nobs), counts, kind=kind, shape=sh,
                              yshape=ys, nobs=nobs))
        for zeros in (0, 1, 6, 31):
            for nobs in (1, 3) + ragged:
                if nobs == 'ragged' and zeros in (0, 1):
                    continue
                if nobs != 'ragged' and np.prod(sh) * nobs > 12 and not T:
                    continue
                r.append(Case('zip-%s-%s-%s-%d' % (nm(sh), nm(ys), nobs, zeros), counts, kind='zip', shape=sh,
                              yshape=ys, nobs=nobs, zeros=zeros))
        for kind in ('finite', 'normalized'):
            for dims, dim in [((2,), 1), ((3,), 1), ((2, 2), 2)] + ([((4,), 1), ((3, 2), 2)] if T else []):
                if len(ys) != len(sh):
                    continue
                r.append(Case('%s-%s-%s-%s' % (kind, nm(sh), nm(ys), nm(dims)), finite, kind=kind, shape=sh,
                              yshape=ys, dims=dims, dim=dim))
    for kind in ('negbin', 'zip'):
        for sh in ((), (2,), (2, 3)):
            r.append(Case('default-%s-%s' % (kind, nm(sh)), counts, kind=kind, shape=sh, yshape=sh, nobs=1, default=True))
    for sh in ((), (2,), (2, 3)):
        for nobs in (1, 2):
            # no zeros at all: the distribution conditional to positive counts
            r.append(Case('truncated-%s-%d' % (nm(sh), nobs), counts, kind='zip', shape=sh, yshape=sh, nobs=nobs, scale=0))
    for kind in ('poisson', 'logistic', 'negbin', 'zip', 'finite', 'normalized'):
        for sh in ((3,), (2, 3)):
            for dims in (((2,), (3, 2)) if kind in ('finite', 'normalized') else ((),)):
                for form in ('array', 'list', 'integers'):
                    r.append(Case('fitted-%s-%s-%s-%s' % (kind, nm(sh), nm(dims), form), fitted, kind=kind, shape=sh,
                                  dims=dims, form=form))
    for kind in ('poisson', 'logistic', 'negbin', 'zip', 'finite', 'normalized'):
        for k, regs in enumerate([[0], [[1]], [[2, 0]], [[0, 1], [1]], [[1, 2], 0, 1], [0, 1, [0, 1], 2, [2, 1, 0], 1, [1, 1]]]):
            r.append(Case('reg-%s-%d' % (kind, k), penalized, kind=kind, regs=regs))
    return r
