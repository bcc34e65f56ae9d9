"""C04: elementary functions: value, gradient and Hessian."""
import numpy as np

from vlib.engine import Case
from maxlike.maxlike_base import Param
from maxlike.tensor import Tensor
from maxlike.func import (Linear, Quadratic, X, Constant, Scalar, Vector, Exp, Log,
                          Logistic, ArcTan, Sigmoid)
from maxlike.func.func_base import grad_tensor, hess_tensor
from checks.flib import against
from checks.tlib import L, densify, eq_t, layouts
from checks.smath import exp, log, atan, expit, PI

BOUNDS = {'quick': 'parameter arrays of rank 0..2 with axes up to 3, up to 3 parameters; '
                   'every real value of every entry (positive for Log), given as arrays, parameters or tensors; the '
                   'builders of derivative tensors for every layout of up to two axes each (sizes 2, 3), an extra axis and all diagonal maps',
          'thorough': 'as quick, rank up to 3, axes up to 4'}


class Of(object):
    """the function at a parameter of another kind"""

    def __init__(self, foo, make):
        self.foo, self.make = foo, make

    def __call__(self, params):
        return self.foo(self.make(params))

    def grad(self, params, i):
        return self.foo.grad(self.make(params), i)

    def hess(self, params, i, j):
        return self.foo.hess(self.make(params), i, j)


KINDS = {'array': lambda ps: list(ps), 'param': lambda ps: [Param(np.array(p)) for p in ps],
         'tuple': tuple,
         'tensor': lambda ps: [Tensor(np.array(p)) for p in ps]}


def unary(env, f, g, dom, shape, kind='array'):
    x = env.arr('x', shape, dom)
    xs = np.asarray(x)
    if kind != 'array':
        spec = np.empty(xs.shape, dtype=object if env.sym else float)
        for i in np.ndindex(*xs.shape):
            spec[i] = g(xs[i])
        against(env, Of(f(), KINDS[kind]), [x], spec)
        return
    spec = np.empty(xs.shape, dtype=object if env.sym else float)
    for i in np.ndindex(*xs.shape):
        spec[i] = g(xs[i])
    against(env, f(), [x], spec)


def linear(env, shapes, wshapes, kind='array'):
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    ws = [env.arr('w%d' % k, s) for k, s in enumerate(wshapes)]
    spec = 0
    for p, w in zip(ps, ws):
        pa, wa = np.asarray(p), np.asarray(w)
        for i in np.ndindex(*pa.shape):
            spec = spec + pa[i] * (wa[i] if wa.ndim else wa[()])
    against(env, Of(Linear(ws), KINDS[kind]), ps, env.exact(spec))


def quadratic(env, shapes, us, kind='array', default=''):
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    # by default centered at 0, with a scale of 1
    u = env.exact(0) if 'u' in default else env.arr('u', us)
    s = env.exact(1) if 's' in default else env.arr('s', us, 'pos')
    ua, sa = np.asarray(u), np.asarray(s)
    spec = 0
    for p in ps:
        pa = np.asarray(p)
        for i in np.ndindex(*pa.shape):
            uu = ua[i] if ua.ndim else ua[()]
            ss = sa[i] if sa.ndim else sa[()]
            spec = spec + ((pa[i] - uu) / ss) ** 2
    foo = {'': lambda: Quadratic(u, s), 's': lambda: Quadratic(u), 'u': lambda: Quadratic(s=s), 'us': Quadratic}[default]()
    against(env, Of(foo, KINDS[kind]), ps, env.exact(spec))


def constant(env, shape, np_):
    v = env.arr('v', shape)
    ps = [env.arr('p%d' % k, (2,)) for k in range(np_)]
    against(env, Constant(v), ps, np.asarray(v))


def scalar(env):
    x = env.arr('x', ())
    against(env, Scalar(), [x], env.exact(x))


def vector(env, shape):
    x = env.arr('x', ())
    v = env.arr('v', shape)
    spec = np.empty(shape, dtype=object if env.sym else float)
    for i in np.ndindex(*shape):
        spec[i] = x * v[i]
    against(env, Vector(v), [x], spec)


def builders(env, lays):
    """what functions build their derivative tensors with: the given array, on the diagonal of the mapped axes"""
    for lay in lays:
        v = env.arr('v', lay.shape())
        arr = np.asarray(v)
        # the array is given without the mapped axes
        for k in reversed(range(len(lay.xm) + (len(lay.ym) and len(lay.x) + len(lay.ym) - len(lay.xm)))):
            m = lay.xm if k < len(lay.x) else lay.ym
            if m:
                arr = arr[(slice(None),) * k + (0,)]
        want = densify(env, v, lay)
        d = (len(lay.x), len(lay.y), len(lay.n), len(lay.d))
        extra = {'dim': len(lay.d)} if lay.d else {}

        def forms(m):
            if not m:
                return [None]
            return [list(m), tuple(m)] + ([True] if tuple(m) == tuple(range(len(m))) else [])
        px, py = env.arr('p', lay.x), env.arr('q', lay.y)
        for i, params in ((0, [px, py]), (1, [py, px])):
            for make in (KINDS['array'], KINDS['tensor']):
                for xm in forms(lay.xm):
                    if not lay.y:
                        kw = {} if i == 0 else {'i': i}
                        if xm is not None:
                            kw['x_map'] = xm
                        t = grad_tensor(arr, make(params), **kw, **extra)
                        eq_t(env, 'gradient %r %r' % (lay, xm), t, want, d)
                    for ym in forms(lay.ym):
                        t = hess_tensor(arr, make(params), i, 1 - i, xm, ym, **extra)
                        eq_t(env, 'Hessian %r %r %r' % (lay, xm, ym), t, want, d)
    env.raises('unknown map', ValueError, grad_tensor, 1., [env.arr('p', (2,))], 0, 'diagonal')
    env.raises('unknown map', ValueError, hess_tensor, 1., [env.arr('p', (2,))], 0, 0, 'diagonal')
    env.raises('unknown map', ValueError, hess_tensor, 1., [env.arr('p', (2,))], 0, 0, True, 'diagonal')


def cases(tier):
    shapes = [(), (1,), (2,), (3,), (2, 2), (1, 3), (3, 2)]
    if tier == 'thorough':
        shapes += [(4,), (2, 1, 3), (2, 2, 2), (4, 3)]
    r = []
    for s in shapes:
        t = 'x'.join(map(str, s)) or '0d'
        for nm, f, g, dom in [('exp', Exp, exp, 'real'), ('log', Log, log, 'pos'), ('x', X, lambda v: v, 'real'),
                              ('logistic', Logistic, expit, 'real'), ('arctan', ArcTan, atan, 'real'),
                              ('sigmoid-logistic', lambda: Sigmoid('logistic'), expit, 'real'),
                              ('sigmoid-arctan', lambda: Sigmoid('ArcTan'),
                               lambda v: atan(v) * (1 / PI) + 0.5, 'real')]:
            r.append(Case('%s-%s' % (nm, t), unary, f=f, g=g, dom=dom, shape=s))
            for kind in ('param', 'tensor', 'tuple'):
                if s in ((), (2,), (3, 2)):
                    r.append(Case('%s-%s-%s' % (nm, t, kind), unary, f=f, g=g, dom=dom, shape=s, kind=kind))
        r.append(Case('constant-%s' % t, constant, shape=s, np_=len(s)))
        if s:
            r.append(Case('vector-%s' % t, vector, shape=s))
        r.append(Case('linear-%s' % t, linear, shapes=[s], wshapes=[()]))
        r.append(Case('linear-w-%s' % t, linear, shapes=[s], wshapes=[s]))
        r.append(Case('quadratic-%s' % t, quadratic, shapes=[s], us=()))
    for d in ('u', 's', 'us'):
        r.append(Case('quadratic-default-%s' % d, quadratic, shapes=[(2,), ()], us=(), default=d))
    r.append(Case('quadratic-vec', quadratic, shapes=[(2,)], us=(2,)))
    r.append(Case('quadratic-two', quadratic, shapes=[(2,), ()], us=()))
    r.append(Case('quadratic-three', quadratic, shapes=[(2,), (2, 2), (3,)], us=()))
    r.append(Case('linear-two', linear, shapes=[(2,), (3, 2)], wshapes=[(), (3, 2)]))
    r.append(Case('linear-three', linear, shapes=[(2,), (), (2, 2)], wshapes=[(), (), ()]))
    for kind in ('param', 'tensor', 'tuple'):
        r.append(Case('linear-two-%s' % kind, linear, shapes=[(2,), (3, 2)], wshapes=[(), (3, 2)], kind=kind))
        r.append(Case('quadratic-two-%s' % kind, quadratic, shapes=[(2,), ()], us=(), kind=kind))
    for k, (ns, ds) in enumerate([([(), (2,), (3,)], [(), (2,)]), ([(2, 3), (3, 2)], [()]), ([(2, 2)], [(), (3,)])]):
        for x in [(), (2,), (3,), (2, 3)]:
            lays = [l for l in layouts([x], [(), (2,), (3, 2)], ns, ds)
                    if -1 not in l.xm + l.ym]
            r.append(Case('builders-%d-%s' % (k, 'x'.join(map(str, x)) or '0d'), builders, lays=lays))
    r.append(Case('scalar', scalar))
    r.append(Case('scalar-param', unary, f=Scalar, g=lambda v: v, dom='real', shape=(), kind='param'))
    return r
