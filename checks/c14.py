"""C14: flat gradient and Hessian: masks, constraints, regularization."""
import itertools

import numpy as np

import maxlike
from maxlike.tensor import Tensor
from vlib.engine import Case
from checks import c13
from checks.expr import aff, coll, comp, linear, prod_, quadratic, sum_, u, ul, wrap
from checks.flib import d1, d2

BOUNDS = {'quick': 'up to 4 (6) parameters of shapes (), (2), (3), (2,2), (1,2); arbitrary likelihood derivative blocks (symmetric '
                   'diagonal blocks, absent blocks) or the real Poisson / finite likelihood over the model catalogue of C13; '
                   'every mask of up to 4 entries (a spread of masks above); up to 5 constraints with any multiplier and up to 6 penalties, arbitrary twice differentiable functions of up to 2 parameters (6 with repetitions) given in any order or '
                   'repeated, and 19 functions written with the library (Linear, Quadratic, affine, sums, products, '
                   'wraps, compositions, collapses)',
          'thorough': 'every mask of up to 6 entries and all maps of up to 3 parameters'}
ASSUMPTIONS = ['constraint and penalty functions take each listed parameter as an argument of that parameter\'s shape']


class Blocks(maxlike.maxlike_base.MaxLike):
    """a likelihood with given derivative blocks"""

    def __init__(self, env, shapes, absent):
        maxlike.maxlike_base.MaxLike.__init__(self)
        self.env, self.shapes, self.absent = env, shapes, absent

    def like(self, params, y):
        raise NotImplementedError

    def block(self, i, j=None):
        env, sh = self.env, self.shapes
        if i in self.absent or j in self.absent:
            return None
        if j is None:
            return np.asarray(env.arr('G%d' % i, sh[i]))
        a = np.empty(sh[i] + sh[j], dtype=object if env.sym else float)
        for e in np.ndindex(*a.shape):
            x, y = e[:len(sh[i])], e[len(sh[i]):]
            if i == j and x < y:
                x, y = y, x
            a[e] = env.var('H%d%d_%s_%s' % (i, j, x, y))
        return a

    def grad_like(self, params, *args):
        return [Tensor(self.block(i), x_dim=len(s)) if i not in self.absent else Tensor(0)
                for i, s in enumerate(self.shapes)]

    def hess_like(self, params, *args):
        return [[Tensor(0) if i in self.absent or j in self.absent else
                 Tensor(self.block(i, j), x_dim=len(self.shapes[i]), y_dim=len(self.shapes[j]))
                 for j in range(i + 1)] for i in range(len(self.shapes))]

    # dense full gradient / Hessian
    def full(self):
        n = [int(np.prod(s)) for s in self.shapes]
        o = np.concatenate([[0], np.cumsum(n)]).astype(int)
        z = self.env.exact(0)[()]
        G = np.full(o[-1], z, dtype=object if self.env.sym else float)
        H = np.full((o[-1], o[-1]), z, dtype=G.dtype)
        for i in range(len(n)):
            b = self.block(i)
            if b is not None:
                G[o[i]:o[i + 1]] = b.ravel()
            for j in range(i + 1):
                b = self.block(i, j)
                if b is not None:
                    H[o[i]:o[i + 1], o[j]:o[j + 1]] = b.reshape(n[i], n[j])
                    H[o[j]:o[j + 1], o[i]:o[i + 1]] = b.reshape(n[i], n[j]).T
        return G, H


def flat(ps):
    return np.concatenate([np.asarray(p).reshape(-1) for p in ps])


# constraints and penalties written with the library: name -> (env, name, shapes) -> E
LIBRARY = {
    'linear': linear,
    'quadratic': quadratic,
    'linear-b': lambda env, n, sh: aff(linear(env, n, sh), 'f-b', b=env.var(n + 'b')),
    'b-linear': lambda env, n, sh: aff(linear(env, n, sh), 'b-f', b=env.var(n + 'b')),
    'a*linear+b': lambda env, n, sh: aff(aff(linear(env, n, sh), 'a*f', a=env.var(n + 'a')), 'f+b', b=2),
    'quadratic-b': lambda env, n, sh: aff(quadratic(env, n, sh), 'f-b', b=env.var(n + 'b')),
    'A-quadratic': lambda env, n, sh: aff(quadratic(env, n, sh), 'A', a=env.var(n + 'a'), b=env.var(n + 'b')),
    '-u': lambda env, n, sh: aff(u(env, n, sh, ()), '-f'),
    'sum': lambda env, n, sh: sum_([(linear(env, n + 'l', sh), list(range(len(sh))), []),
                                    (quadratic(env, n + 'q', sh[:1]), 0, [])], 0, sh),
    'sum-each': lambda env, n, sh: sum_([(quadratic(env, n + 'q%d' % k, [sh[k]]), k, [], [], k + 2)
                                         for k in range(len(sh))], 0, sh),
    'product': lambda env, n, sh: prod_([(linear(env, n + 'l', sh[-1:]), len(sh) - 1, []),
                                         (aff(u(env, n + 'u', sh[:1], ()), 'f-b', b=1), 0, [])], 0, sh),
    'wrap': lambda env, n, sh: wrap(u(env, n, sh[::-1], ()), list(range(len(sh)))[::-1], [], 0, sh),
    'wrap-linear': lambda env, n, sh: wrap(linear(env, n, sh[::-1]), list(range(len(sh)))[::-1], [], 0, sh),
    'square': lambda env, n, sh: prod_([(linear(env, n + 'a', sh), list(range(len(sh))), []),
                                        (linear(env, n + 'b', sh), list(range(len(sh))), [])], 0, sh),
    'comp': lambda env, n, sh: comp(u(env, n, [()], ()), [linear(env, n + 'l', sh)]),
    'comp-two': lambda env, n, sh: comp(u(env, n, [(), ()], ()), [linear(env, n + 'l', sh), quadratic(env, n + 'q', sh)]),
    'linear-comp': lambda env, n, sh: comp(linear(env, n, [(2,)]), [u(env, n + 'u', sh, (2,))]),
    'collapse': lambda env, n, sh: coll(u(env, n, sh, (2,))),
    'collapse-b': lambda env, n, sh: aff(coll(u(env, n, sh, (2,))), 'f-b', b=1),
}


def make(env, name, pm, ps):
    """pm is a parameter index, a list of them, or (list, name of a library function)"""
    lib = None
    if isinstance(pm, tuple):
        pm, lib = pm
    l = [pm] if isinstance(pm, int) else pm
    sh = [np.shape(np.asarray(ps[i])) for i in l]
    e = u(env, name, sh, ()) if lib is None else LIBRARY[lib](env, name, sh)
    return pm, l, e


def functions(env, mle, cons, regs, ps):
    """adds them to the model; (list of (multiplier, value), list of values)"""
    cv, rv = [], []
    mle.constraint = []
    for k, pm in enumerate(cons):
        pm, l, e = make(env, 'c%d' % k, pm, ps)
        mle.add_constraint(pm, e.func)
        g = env.var('gamma%d' % k)
        mp, _, f = mle.constraint[-1]
        mle.constraint[-1] = (mp, g, f)
        cv.append((g, e.spec([np.asarray(ps[i]) for i in l])[()]))
    for k, pm in enumerate(regs):
        pm, l, e = make(env, 'h%d' % k, pm, ps)
        mle.add_regularization(pm, e.func)
        rv.append(e.spec([np.asarray(ps[i]) for i in l])[()])
    return cv, rv


def masks_for(shapes, every):
    n = sum(int(np.prod(s)) for s in shapes)
    if n <= every:
        ms = list(itertools.product((False, True), repeat=n))
    else:
        ms = [[False] * n, [k == 0 for k in range(n)], [k == n - 1 for k in range(n)],
              [k % 2 == 0 for k in range(n)], [k % 2 == 1 for k in range(n)], [k % 3 == 1 for k in range(n)],
              [k < n // 2 for k in range(n)], [k != n // 2 for k in range(n)],
              [k == n // 2 for k in range(n)], [True] * n]
    for m in ms:
        out, p = [], 0
        for s in shapes:
            k = int(np.prod(s))
            out.append(np.array(m[p:p + k], dtype=bool).reshape(s))
            p += k
        yield out


def vec(env, xs):
    out = np.empty(len(xs), dtype=object if env.sym else float)
    for k, x in enumerate(xs):
        out[k] = x
    return out


def compare(env, tag, mle, ps, masks, G, H, C, J, args=(), hargs=()):
    """G, H: derivatives of the Lagrangian in all entries; C: constraint values;
    J: their derivatives in all entries"""
    params = tuple(maxlike.Param(np.array(p, copy=True), m) for p, m in zip(ps, masks))
    mle.params = params
    free = np.concatenate([~m.ravel() for m in masks])
    c = len(C)
    n = int(free.sum())
    if n + c == 0:
        return
    if not args:
        # other parameters in between
        other = tuple(maxlike.Param(np.full(np.shape(np.asarray(p)), .25), m) for p, m in zip(ps, masks))
        mle.flat_grad(other)
        mle.flat_hess(other)
    g = mle.flat_grad(params, *args)
    if env.sym:
        eg = np.concatenate([G[free], vec(env, C)]) if c else G[free]
        eh = np.empty((n + c, n + c), dtype=object)
        eh[:n, :n] = H[free][:, free]
        for k in range(c):
            eh[n + k, :n] = J[k][free]
            eh[:n, n + k] = J[k][free]
        eh[n:, n:] = env.exact(0)[()]
    else:
        eg = eh = None
    env.eq(tag + 'grad', g, eg)
    h = mle.flat_hess(params, *hargs)
    env.eq(tag + 'hess', h, eh)
    env.eq(tag + 'symmetric', h, np.asarray(h).T)


def lagrange(env, ps, cv, rv):
    """derivatives of  sum multiplier * constraint - penalty  over all entries"""
    L = env.exact(0)[()]
    for g, v in cv:
        L = L + g * v
    for v in rv:
        L = L - v
    x = flat(ps)
    L = env.exact(L)
    if not env.sym:
        return None, None, [v for _, v in cv], None
    return d1(env, L, x), d2(env, L, x, x), [v for _, v in cv], [d1(env, env.exact(v), x) for _, v in cv]


def blocks(env, shapes, absent, cons, regs, every, few=()):
    mle = Blocks(env, shapes, absent)
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    cv, rv = functions(env, mle, cons, regs, ps)
    G, H, C, J = lagrange(env, ps, cv, rv)
    G0, H0 = mle.full()
    if env.sym:
        G, H = G + G0, H + H0
    for k, masks in enumerate(masks_for(shapes, every)):
        if not few or k in few:
            compare(env, 'm%d ' % k, mle, ps, masks, G, H, C, J)


def whole(env, kind, which, model, shape, dims, cons, regs):
    e = which(env, model, dims)
    mle = c13.build(env, kind, dims, shape)
    mle.model = e.func
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(e.pshapes)]
    yv = np.broadcast_to(np.asarray(e.spec([np.asarray(p) for p in ps])), shape + dims)
    v = c13.formula(env, kind, yv, np.asarray(mle.N.values), None if dims else np.asarray(mle.X.values), 0, dims)
    cv, rv = functions(env, mle, cons, regs, ps)
    G, H, C, J = lagrange(env, ps, cv, rv)
    if env.sym:
        x = flat(ps)
        G = G + d1(env, env.exact(v), x)
        H = H + d2(env, env.exact(v), x, x)
    for k, masks in enumerate(masks_for(e.pshapes, 1)):
        if k not in (0, 3, 5, 6):
            continue
        params = [maxlike.Param(np.array(p, copy=True)) for p in ps]
        y, der, hess = mle.model.eval(params)
        compare(env, 'm%d ' % k, mle, ps, masks, G, H, C, J, (y, der), (y, der, hess))


def integer(env, vals, cons):
    """integer parameters; the constraint is an arbitrary affine function"""
    shapes = [np.shape(v) for v in vals]
    mle = Blocks(env, shapes, ())
    ps = [np.array(v) for v in vals]
    x = flat(ps)
    coef, C = [], []
    for k, pm in enumerate(cons):
        e = ul(env, 'c%d' % k, [shapes[i] for i in pm], ())
        mle.add_constraint(pm, e.func)
        C.append(e.spec([ps[i] for i in pm])[()])
        row = []
        for i, s in enumerate(shapes):
            for en in np.ndindex(*s):
                row.append(e.func.coef((), (pm.index(i), en)) if i in pm else env.exact(0)[()])
        coef.append(vec(env, row))
    G, H = mle.full()
    for k, masks in enumerate(masks_for(shapes, 3)):
        params = tuple(maxlike.Param(np.array(p, copy=True), m) for p, m in zip(ps, masks))
        free = np.concatenate([~m.ravel() for m in masks])
        n = int(free.sum())
        env.eq('m%d grad' % k, mle.flat_grad(params), np.concatenate([G[free], vec(env, C)]))
        h = mle.flat_hess(params)
        z = env.exact(np.zeros((len(C), len(C))))
        j = np.array([r[free] for r in coef]).reshape(len(C), n)
        env.eq('m%d hess' % k, h, np.vstack([np.hstack([H[free][:, free], j.T]), np.hstack([j, z])]))


def cases(tier):
    T = tier == 'thorough'
    every = 6 if T else 4
    r = []
    S1 = [[()], [(2,)], [(), ()], [(2,), (2,)], [(2,), (3,)], [(2, 2), (2,)], [(), (2,), (2,)], [(3,), (), (2, 2)]]
    if T:
        S1 += [[(2, 3)], [(2, 2), (2, 2)], [(), (), (2,), (3,)]]
    for shapes in S1:
        n = len(shapes)
        conf = [((), [], []), ((), [0], []), ((), [], [0])]
        if n >= 2:
            conf += [((), [[0, 1]], [[1, 0]]), ((), [[1, 0]], [[0, 1]]), ((1,), [[1, 0], 0], [1]),
                     ((0,), [0], [[1]]), ((), [[0, 0]], [[1, 1]]), ((), [1, 0], [1, 0]), ((0,), [], [])]
        if n >= 3:
            conf += [((), [[2, 0], [1, 2]], [[1, 2]]), ((1,), [[2, 1, 0]], [[0, 2], 1]),
                     ((0, 2), [], [[2, 2]]), ((2,), [[0, 2]], [[1]])]
        for k, (ab, cons, regs) in enumerate(conf):
            if (any(s == (2, 2) for s in shapes) or n > 2) and not T and len(cons) + len(regs) == 2 and k in (4, 8):
                continue
            if shapes == [(), ()] and k not in (0, 3, 6) and not T:
                continue
            r.append(Case('blocks-%s-%d' % ('+'.join('x'.join(map(str, s)) or '0d' for s in shapes), k), blocks,
                          shapes=shapes, absent=ab, cons=cons, regs=regs, every=every, paths=400 if T else 24))
    for k, (shapes, cons, regs) in enumerate([
            ([(), (2,), (2,), (3,)], [[3, 0], [1, 2]], [[2, 3]]), ([(2,), (3,)], [[0], [1, 0], [1]], [[0], [1], [0, 1]]),
            ([(2,), (), (2,), ()], [[0, 1, 2, 3]], [[3, 1, 0, 2]]), ([(), (), ()], [[0], [1], [2]], [[2, 2, 0]]),
            ([(1, 2), (2,)], [[1, 0]], [[0, 1]]),
            ([(), ()], [[0]], [[k % 2] if k != 3 else [1, 0] for k in range(6)]),
            ([(), (), (2,)], [[0], [1], [2], [1, 0], [2, 1]], [[0]]),
            ([(), (2,)], [[0, 1, 0, 1, 0]], [[1, 1, 0, 0, 1, 0]]),
            ([(), (2,), (), (2,), (), ()], [[5, 0]], [[4, 5], [2]])]):
        r.append(Case('more-%d' % k, blocks, shapes=shapes, absent=(), cons=cons, regs=regs, every=3, paths=400 if T else 24))
    for m, which in [('add', c13.sums), ('cross', c13.sums), ('absent', c13.sums), ('mixed', c13.sums),
                     ('reversed', c13.sums), ('broadcast', c13.sums), ('partdiag', c13.models),
                     ('diag', c13.models), ('matrix', c13.models), ('two-sides', c13.models), ('product', c13.prods)]:
        one = m in ('cross', 'broadcast', 'partdiag')
        for k, (cons, regs) in enumerate([([], []), ([0], [0]) if one else ([[0, 1]], [[1, 0]])]):
            r.append(Case('poisson-%s-%d' % (m, k), whole, kind='poisson', which=which, model=m,
                          shape=c13.SHAPE.get(m, (2, 3)), dims=(), cons=cons, regs=regs, paths=400 if T else 24))
            if m in ('add', 'mixed', 'diag', 'cross', 'absent') or T:
                r.append(Case('normalized-%s-%d' % (m, k), whole, kind='normalized', which=which, model=m,
                              shape=c13.SHAPE.get(m, (2, 3)), dims=(2,), cons=cons, regs=regs, paths=400 if T else 24))
    for n in LIBRARY:
        for k, (shapes, l) in enumerate([([(2,)], 0), ([(2,), (2,)], [1, 0]), ([(), (2,), (2, 2)], [2, 0])]):
            if isinstance(l, int) and n in ('linear-comp', 'wrap', 'sum-each') and not T:
                continue
            r.append(Case('library-%s-%d' % (n, k), blocks, shapes=shapes, absent=(0,), cons=[([0], n) if l == 0 else (l, n)],
                          regs=[(l, n)], every=2, few=() if T or len(shapes) == 1 else (0, 5),
                          paths=400 if T else 9 if len(shapes) < 3 else 6))
    r.append(Case('library-mix', blocks, shapes=[(2,), (3,)], absent=(), cons=[([0], 'linear'), ([1, 0], 'b-linear')],
                  regs=[([0], 'quadratic'), ([1], 'A-quadratic')], every=2, paths=9))
    for k, (vals, cons) in enumerate([([[1, 2]], [[0]]), ([[1, 2], [3, -1, 2]], [[0, 1]]), ([[0, 2], 3], [[1, 0], [0]]),
                                      ([[[1, 2], [3, 4]], 1], [[0]])]):
        r.append(Case('integer-%d' % k, integer, vals=vals, cons=cons))
    return r
