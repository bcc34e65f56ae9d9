"""C08: one-pass evaluation."""
import numpy as np

from maxlike.func import (Linear, Quadratic, X, Constant, Scalar, Vector, Exp, Log, Logistic, ArcTan, Sum, Product,
                          Compose, Affine, Poisson, NegativeBinomial, LogNegativeBinomial, MarkovMatrix, MarkovVector,
                          CollapseMatrix)
from maxlike.func.sigmoid import Sigmoid
from maxlike.func.tennis import Game, TieBreak, Set
from maxlike.maxlike_base import Param
from maxlike.tensor import Tensor
from vlib.engine import Case
from checks.exprs import catalogue
from checks.flib import dense, one_pass

BOUNDS = {'quick': 'the expressions of C06 (but for the composition over three scalar functions); every built-in function with parameters up to 2x2 given as arrays, Param, Tensor or '
                   'without a list (expressions of one parameter too), distribution sizes up to 5 with every positive dispersion, Markov sizes up to 3 and 3 '
                   'steps with every skew; compositions, sums, products and affine transforms of them',
          'thorough': 'as quick with 24 generated nestings, sizes up to 8'}


def onepass(env, build, dom):
    e = build(env)
    ps = [env.arr('p%d' % k, s, dom) for k, s in enumerate(e.pshapes)]
    spec = np.asarray(e.spec(ps))
    if len(ps) == 1:
        one_pass(env, Bare(e.func), ps, spec.shape[:e.nf], spec.shape[e.nf:], 'bare ')
    one_pass(env, e.func, ps, spec.shape[:e.nf], spec.shape[e.nf:])


class Bare(object):
    """the single parameter given without a list"""

    def __init__(self, foo):
        self.foo = foo

    def __call__(self, ps):
        return self.foo(ps[0])

    def grad(self, ps):
        return self.foo.grad(ps[0])

    def hess(self, ps):
        return self.foo.hess(ps[0])

    def eval(self, ps):
        return self.foo.eval(ps[0])


def builtin(env, make, shapes, dom, kind, dims):
    ps = [env.arr('p%d' % k, s, dom) for k, s in enumerate(shapes)]
    if kind == 'param':
        ps = [Param(env.exact(np.asarray(p))) for p in ps]
    elif kind == 'tensor':
        ps = [Tensor(np.asarray(p)) for p in ps]
    foo = make(env)
    v = foo(ps)
    d = np.asarray(v.toarray() if hasattr(v, 'toarray') else v)
    nn = d.ndim - dims
    one_pass(env, Bare(foo) if kind == 'bare' else foo, ps, d.shape[:nn], d.shape[nn:])


def builtins(T):
    V, W = (2,), (3,)
    c = lambda f: lambda env: f()
    shapes = [(), V, (2, 2)]
    r = []
    for n, f, dom in (('exp', Exp, 'real'), ('log', Log, 'pos'), ('x', X, 'real'), ('logistic', Logistic, 'real'),
                      ('arctan', ArcTan, 'real'), ('sigmoid-l', lambda: Sigmoid('logistic'), 'real'),
                      ('sigmoid-a', lambda: Sigmoid('arctan'), 'real'), ('quadratic', lambda: Quadratic(1, 2), 'real')):
        r += [('%s-%d' % (n, len(s)), c(f), [s], dom, 0) for s in shapes if s or n != 'x']
    r.append(('scalar', c(Scalar), [()], 'real', 0))
    r.append(('constant', lambda env: Constant(env.arr('v', V)), [()], 'real', 0))
    r.append(('vector', lambda env: Vector(env.arr('v', W)), [()], 'real', 0))
    r.append(('linear', lambda env: Linear([env.arr('v', V), env.var('w')]), [V, ()], 'real', 0))
    r.append(('quadratic-two', lambda env: Quadratic(env.var('u'), env.var('s', 'pos')), [V, ()], 'real', 0))
    for s in ((), V, (2, 2)):
        for k in (1, 2, 5) + ((8,) if T else ()):
            t = '%d-%d' % (len(s), k)
            r.append(('poisson-' + t, lambda env, k=k: Poisson(k), [s], 'pos', 1))
            for q in (None, 1, 2, .5):
                R = lambda env, q=q: env.var('r', 'pos') if q is None else q
                r.append(('lognb-%s-%s' % (t, q), lambda env, k=k, R=R: LogNegativeBinomial(k, R(env)), [s], 'pos', 1))
                if s != (2, 2):
                    r.append(('nb-%s-%s' % (t, q), lambda env, k=k, R=R: NegativeBinomial(k, R(env)), [s], 'pos', 1))
    for s in ((), V):
        t = str(len(s))
        r.append(('game-' + t, c(Game), [s], 'unit', 1))
        r.append(('tiebreak-' + t, c(TieBreak), [s], 'unit', 1))
        r.append(('set-' + t, c(Set), [s, s], ('closed', .001, .999), 1))
    for n, k in ((1, 2), (2, 3), (3, 2)):
        for s in ((), V)[:1 if n == 3 else 2]:
            t = '%d-%d-%d' % (n, k, len(s))
            r.append(('markov-matrix-' + t, lambda env, n=n, k=k: MarkovMatrix(n, k, env.arr('f', (n, n))), [s, s],
                      ('open', 0, .5), 2))
            r.append(('markov-vector-' + t, lambda env, n=n, k=k: MarkovVector(n, k, env.arr('f', (2 * n - 1,))), [s, s],
                      ('open', 0, .5), 1))
    for cond in (None, (1, -1, 0, 1), [(1, 1, -2, 1), (1, -1, 1, 0), (0, 1, -1, 0)]):
        for s in ((3, 3), (2, 3), (2, 3, 2)):
            r.append(('collapse-%s-%s' % ('default' if cond is None else len(cond), 'x'.join(map(str, s))),
                      lambda env, cond=cond: CollapseMatrix(cond), [s], 'real', 1))
    # expressions over the distributions
    def chain(env):
        s = Sum(1)
        s.add(X(), 0, 0)
        s.add(Scalar(), 1, None)
        return s
    r.append(('poisson-of-exp', lambda env: Compose(Poisson(3), [Compose(Exp(), [chain(env)])]), [V, ()], 'real', 1))
    r.append(('lognb-of-exp', lambda env: Compose(LogNegativeBinomial(3, env.var('r', 'pos')), [Compose(Exp(), [chain(env)])]),
              [V, ()], 'real', 1))
    r.append(('game-of-logistic', lambda env: Compose(Game(), [Compose(Logistic(), [chain(env)])]), [V, ()], 'real', 1))

    def joint(env):
        p = Product(1, 2)
        p.add(Poisson(3), 0, 0, 0)
        p.add(Poisson(2), 1, 0, 1)
        return p
    r.append(('joint', joint, [V, V], 'pos', 2))
    r.append(('collapse-of-joint', lambda env: Compose(CollapseMatrix(), [joint(env)]), [V, V], 'pos', 1))
    r.append(('markov-of-exp', lambda env: Compose(MarkovVector(2, 2), [
        Sum(1).add(Affine(Logistic(), env.var('a', ('open', .1, .9)), 0), 0, 0),
        Sum(1).add(Affine(Logistic(), env.var('b', ('open', .1, .9)), 0), 1, 0)]), [V, V], 'real', 1))
    r.append(('affine-of-poisson', lambda env: 3 - env.var('a') * Poisson(3), [V], 'pos', 1))
    r.append(('sum-of-dists', lambda env: Sum(1, 1).add(Poisson(3), 0, 0, 0, weight=env.var('w')).add(
        NegativeBinomial(3, 2), 1, 0, 0), [V, V], 'pos', 1))
    return r


def cases(tier):
    r = [Case(n, onepass, build=b, dom=d) for n, (b, d) in catalogue(tier).items()
         if n != 'comp-three' or tier == 'thorough']
    for n, mk, shapes, dom, nd in builtins(tier == 'thorough'):
        for kind in ('array', 'param', 'tensor', 'bare'):
            if kind == 'bare' and len(shapes) > 1 or kind == 'tensor' and n.startswith(('linear', 'quad', 'set')) or \
                    kind in ('param', 'tensor') and (n.startswith(('scalar', 'vector', 'constant')) or '-of-' in n or
                                                     n == 'joint'):
                continue
            if kind != 'array' and n.startswith(('lognb', 'nb', 'poisson')) and '-5' not in n:
                continue
            r.append(Case('builtin-%s-%s' % (n, kind), builtin, make=mk, shapes=shapes, dom=dom, kind=kind, dims=nd))
    return r
