"""C16: the fit loops, for every objective and every derivative."""
import contextlib
import io

import numpy as np

import maxlike
from maxlike.maxlike_base import ConvergenceError
from maxlike.tensor import Tensor
from vlib.engine import Case, Infeasible
from vlib import sym as S
from checks.expr import u
from checks.flib import d1

BOUNDS = {'quick': 'Newton: up to 2 steps for 1 free entry, 1 for 2-4 free entries, with every accept/halve/fail/converge '
                   'history, 3 steps with up to 2 trials each and 9 steps with one each; Broyden: up to 6 steps for 1 free entry, 4 for 2, '
                   '1 for 3-4; up to 3 parameters of shapes (), (2), (2,2); fixed entries, 0-2 constraints; the objective, gradient and Hessian blocks are free values at every '
                   'point the fit visits; every tolerance and total weight; starting both converged and not converged; '
                   'verbosity 0-2; a second fit of the same object after a first one; an error of the likelihood at any one evaluation '
                   '(of two steps with up to 2 trials)',
          'thorough': 'one more step'}
ASSUMPTIONS = ['the objective is nonzero at every visited point and the flat Hessian is nonsingular',
               'the relative change of the objective is |previous / new - 1|']


def key(vals):
    return tuple(x.id if isinstance(x, S.Sym) else x for v in vals for x in
                 ([S.to_sym(y) for y in v.ravel()] if v.dtype == object else [float(y) for y in v.ravel()]))


def vals(params):
    return [np.asarray(p.values) for p in params]


class Token(object):
    def __init__(self, kind, k, *ij):
        self.kind, self.k, self.ij = kind, k, ij


def flatten(t):
    return [x for y in t for x in flatten(y)] if isinstance(t, (list, tuple)) else [t]


class Model(object):
    """the model: what the likelihood hooks receive must come from it, at their
    own parameters"""

    def __init__(self, mle):
        self.mle = mle

    def __call__(self, params):
        return Token('y', key(vals(params)))

    def grad(self, params, i=None):
        k = key(vals(params))
        return Token('der', k, i) if i is not None else [Token('der', k, i) for i in range(len(params))]

    def hess(self, params, i=None, j=None):
        k = key(vals(params))
        if i is not None and j is not None:
            return Token('hess', k, i, j)
        return [[Token('hess', k, i, j) for j in range(i + 1)] for i in range(len(params))]

    def eval(self, params):
        return self(params), self.grad(params), self.hess(params)


class M(maxlike.maxlike_base.MaxLike):
    """every likelihood value and derivative is arbitrary, but a function of
    the parameters"""

    def __init__(self, env):
        maxlike.maxlike_base.MaxLike.__init__(self)
        self.env = env
        self.points = {}
        self.trace = []
        self.gen = ''
        self.trials = None
        self.model = Model(self)

    def at(self, params, toks):
        v = vals(params)
        k = key(v)
        self.env.true('model value at the same parameters',
                      all(isinstance(t, Token) and t.k == k for t in flatten(toks)) and
                      [[(t.kind,) + t.ij for t in flatten(x)] for x in toks] ==
                      [[('y',)], [('der', i) for i in range(len(params))],
                       [('hess', i, j) for i in range(len(params)) for j in range(i + 1)]][:len(toks)])
        if k not in self.points:
            self.points[k] = (len(self.points), v)
        return k, self.points[k][0]

    def like(self, params, y):
        k, n = self.at(params, [y])
        self.trace.append(('like', n))
        if self.trials is not None:
            # only histories with that many trials in a step
            h = [i for i, e in enumerate(self.trace) if e[0] == 'hess']
            if h and len(set(e[1] for e in self.trace[h[-1]:])) - 1 > self.trials:
                raise Infeasible()
        return Tensor(self.L(n))

    def L(self, n):
        if self.gen == 'a':
            # an earlier fit with known values
            return self.env.exact(-2 + n / 4.)[()]
        # 'nonzero' is imposed once per point
        x = self.env.var('%sL%d' % (self.gen, n))
        if self.env.sym and (self.gen, n) not in self.__dict__.setdefault('seen', set()):
            self.seen.add((self.gen, n))
            self.env.assume(x != 0)
        return x

    def grad_like(self, params, y, der):
        k, n = self.at(params, [y, der])
        self.trace.append(('grad', n))
        return [Tensor(g, x_dim=g.ndim) for g in self.G(n, params)]

    def G(self, n, params):
        if self.gen == 'a':
            return [self.env.exact(np.full(p.shape, .5)) for p in params]
        return [np.asarray(self.env.arr('%sG%d_%d' % (self.gen, n, i), p.shape)) for i, p in enumerate(params)]

    def H(self, n, params):
        env = self.env
        r = []
        for i, p in enumerate(params):
            row = []
            for j, q in enumerate(params[:i + 1]):
                if self.gen == 'a':
                    n_ = int(np.prod(p.shape))
                    row.append(env.exact((-3 * np.eye(n_) if i == j else
                                          np.zeros((n_, int(np.prod(q.shape))))).reshape(p.shape + q.shape)))
                    continue
                a = np.empty(p.shape + q.shape, dtype=object if env.sym else float)
                for e in np.ndindex(*a.shape):
                    x, y = e[:len(p.shape)], e[len(p.shape):]
                    if i == j and x < y:
                        x, y = y, x
                    a[e] = env.var('%sH%d_%d%d_%s_%s' % (self.gen, n, i, j, x, y))
                row.append(a)
            r.append(row)
        return r

    def hess_like(self, params, y, der, hess):
        k, n = self.at(params, [y, der, hess])
        self.trace.append(('hess', n))
        return [[Tensor(b, x_dim=len(params[i].shape), y_dim=len(params[j].shape))
                 for j, b in enumerate(row)] for i, row in enumerate(self.H(n, params))]


def flat(mle, n):
    """free entries of point n, flat gradient and Hessian there (from the harness)"""
    env = mle.env
    v = [p for k, p in mle.points.values() if k == n][0]
    params = [maxlike.Param(np.array(x, copy=True), m) for x, m in zip(v, mle.masks)]
    free = [~m.ravel() for m in mle.masks]
    x = np.concatenate([np.asarray(a).reshape(-1)[f] for a, f in zip(v, free)])
    g = np.concatenate([np.asarray(a).reshape(-1)[f] for a, f in zip(mle.G(n, params), free)])
    B = mle.H(n, params)
    rows = []
    for i in range(len(params)):
        row = []
        for j in range(len(params)):
            b = B[i][j] if j <= i else B[j][i]
            b = b.reshape(mle.masks[max(i, j)].size, mle.masks[min(i, j)].size)
            if j > i:
                b = b.T
            row.append(b[free[i]][:, free[j]])
        rows.append(np.hstack(row))
    H = np.vstack(rows)
    c = len(mle.cons)
    if c:
        w = [f([np.asarray(v[i]) for i in pm])[()] for pm, f in mle.cons]
        J = np.array([jac(v) for jac in mle.jac]).reshape(c, -1)[:, np.concatenate(free)]
        H = np.vstack([np.hstack([H, J.T]), np.hstack([J, env.exact(np.zeros((c, c)))])])
        g = np.concatenate([g, env.exact(w)])
    return x, g, H


def build(env, shapes, masks, cons, cls=M):
    mle = cls(env)
    mle.masks = [np.zeros(s, dtype=bool) if m is None else np.array(m).reshape(s) for s, m in zip(shapes, masks)]
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    for p, m in zip(ps, mle.masks):
        mle.add_param(np.array(p, copy=True), m)
    mle.cons, mle.jac = [], []
    for k, pm in enumerate(cons):
        # a linear constraint with arbitrary coefficients
        f = Lin(env, 'c%d' % k, [shapes[i] for i in pm])
        mle.add_constraint(list(pm), f)
        mle.cons.append((pm, lambda a, f=f: env.exact(f.value(a))))

        def jac(v, f=f, pm=pm):
            out = []
            for i, s in enumerate(shapes):
                z = env.exact(np.zeros(s))
                for j, q in enumerate(pm):
                    if q == i:
                        z = z + np.asarray(f.a[j])
                out.append(np.asarray(z).reshape(-1))
            return np.concatenate(out)
        mle.jac.append(jac)
    return mle, ps


class Lin(object):
    """a constraint: arbitrary linear function minus a constant"""

    def __init__(self, env, name, shapes):
        self.env = env
        self.b = env.var(name + 'b')
        self.a = [env.arr('%sa%d' % (name, i), s) for i, s in enumerate(shapes)]
        self.shapes = shapes

    def value(self, args):
        r = self.b
        for a, x in zip(self.a, args):
            r = r + (np.asarray(a) * np.asarray(x)).sum()
        return r

    def __call__(self, args):
        return Tensor(self.value([np.asarray(x) for x in args]))

    def grad(self, args, i=None):
        r = [Tensor(np.asarray(a), x_dim=len(s)) for a, s in zip(self.a, self.shapes)]
        return r if i is None else r[i]

    def hess(self, args, i=None, j=None):
        if i is not None and j is not None:
            return Tensor(0)
        return [[Tensor(0) for _ in range(i + 1)] for i in range(len(self.shapes))]

    def eval(self, args):
        return self(args), self.grad(args), self.hess(args)


def run(env, mle, weight='pos', **kw):
    out = io.StringIO()
    N = env.var('N', weight) if weight else 1.
    try:
        with contextlib.redirect_stdout(out):
            r = mle.fit(N=N, **kw)
        return r, None
    except ConvergenceError as e:
        return None, e


def rel(env, mle, a, b):
    """|L(a)/L(b) - 1|, squared"""
    d = mle.L(a) / mle.L(b) - 1
    return d * d


def order(mle, kinds):
    out = []
    for k, n in mle.trace:
        if k in kinds and (not out or out[-1] != n):
            out.append(n)
    return out


def point(mle, n):
    return [p for k, p in mle.points.values() if k == n][0]


def newton(env, shapes, masks, cons, steps, verbose=0, converged=False, weight=('open', 1, 99), earlier=None, trials=None):
    mle, ps = build(env, shapes, masks, cons)
    mle.trials = trials
    tol = env.var('tol', 'pos')
    mle.converged = converged
    if converged:
        mle.flat_hess_ = np.eye(1)
    if earlier:
        # an earlier fit, with other data
        mle.gen = 'a'
        done, _ = run(env, mle, None, tol=.5, max_steps=1, method=earlier)
        env.true('earlier fit', done is True)
        mle.gen, mle.points, mle.trace = '', {}, []
        ps = [np.asarray(p.values) for p in mle.params]
    before = mle.params
    r, err = run(env, mle, weight, tol=tol, max_steps=steps, verbose=verbose)
    finish(env, mle, ps, before, r, err, steps)
    if err is None:
        n = mle.points.get(key(vals(mle.params)))
        env.true('stored parameters were evaluated', n is not None)
        if n is None:
            return
        n = n[0]
    its = order(mle, ('hess',))
    env.true('starts at the given parameters', its[:1] == [0] or steps == 0)
    env.true('derivatives within the step limit', len(its) <= steps + (err is None))
    pts = list(its)
    if err is None and pts[-1] != n:
        pts.append(n)
    # accepted steps never decrease the objective (total weight is positive)
    for a, b in zip(pts, pts[1:]):
        env.le('accepted step does not decrease', mle.L(a), mle.L(b))
    # trial points lie on the Newton ray of the current point
    cur, first = None, False
    for k, n_ in mle.trace:
        if k == 'hess':
            cur, first = n_, True
        elif k == 'like' and cur is not None and n_ != cur:
            ray(env, mle, cur, n_, first)
            first = False
    t2 = tol * tol
    if err is None:
        env.true('at least one step', len(pts) >= 2)
        env.lt('converged within tolerance', rel(env, mle, pts[-2], pts[-1]), t2)
        last = pts[-2] if its[-1] != n else n
        env.eq('Hessian of the last step', mle.flat_hess_, flat(mle, last)[2])
        conts = list(zip(pts[:-2], pts[1:-1]))
    else:
        conts = list(zip(pts, pts[1:]))
        if len(pts) < steps:
            # stopped early: every trial from the last point decreased
            i = max(j for j, e in enumerate(mle.trace) if e == ('hess', pts[-1]))
            tr = [n_ for k, n_ in mle.trace[i:] if k == 'like' and n_ != pts[-1]]
            env.true('tries before giving up', len(tr) >= 1)
            for n_ in tr:
                env.lt('gave up: trial decreases', mle.L(n_), mle.L(pts[-1]))
    for a, b in conts:
        env.le('goes on until within tolerance', t2, rel(env, mle, a, b))


def ray(env, mle, a, b, first):
    xa, g, H = flat(mle, a)
    xb, _, _ = flat(mle, b)
    for i, (p, q, m) in enumerate(zip(point(mle, a), point(mle, b), mle.masks)):
        env.eq('fixed entries kept', np.asarray(q)[m], np.asarray(p)[m])
    n, c = len(xa), len(mle.cons)
    inv = np.linalg.inv(H) if not env.sym else sym_inv(H)
    s = inv.dot(g)[:n]
    d = xa - xb
    if first:
        env.eq('full Newton step first', d, s)
        return
    # a positive multiple, below one
    for i in range(n):
        env.le('shorter step', np.asarray(d[i] * d[i]), np.asarray(s[i] * s[i]))
        env.le('same direction', env.exact(0), np.asarray(d[i] * s[i]))
        if i:
            env.eq('on the Newton ray', d[i] * s[0], d[0] * s[i])


def finish(env, mle, ps, before, r, err, steps):
    if err is None:
        env.true('returns True', r is True)
        env.true('marked converged', mle.converged is True)
        for q, m in zip(mle.params, mle.masks):
            env.true('masks kept', bool(np.array_equal(q.mask, m)))
    else:
        env.true('marked not converged', mle.converged is False)
        env.true('same parameters', len(mle.params) == len(before))
        for q, p in zip(mle.params, ps):
            env.eq('parameters unchanged', np.asarray(q.values), np.asarray(p))
    for q, p, m in zip(mle.params, ps, mle.masks):
        env.eq('fixed entries', np.asarray(q.values)[m], np.asarray(p)[m])


def broyden(env, shapes, masks, cons, steps, verbose=0, warm=False, weight=('open', 1, 99),
            stale=None):
    mle, ps = build(env, shapes, masks, cons)
    tol = env.var('tol', 'pos')
    n = sum(int((~m).sum()) for m in mle.masks) + len(cons)
    W = None
    if warm:
        W = env.arr('W', (n, n))
        W = np.array([[W[max(i, j), min(i, j)] for j in range(n)] for i in range(n)], dtype=W.dtype)
        mle.flat_hess_ = np.array(W, copy=True)
        mle.converged = True
    if stale is not None:
        # left by an earlier fit: the model is not converged, or has other free entries
        k = n + (stale == 'size')
        mle.flat_hess_ = env.arr('W', (k, k))
        mle.converged = stale == 'size'
    before = mle.params
    r, err = run(env, mle, weight, tol=tol, max_steps=steps, verbose=verbose, method='broyden')
    finish(env, mle, ps, before, r, err, steps)
    pts = order(mle, ('like',))
    env.true('steps within the limit', len(pts) <= steps + 1)
    env.true('starts at the given parameters', pts[0] == 0)
    t2 = tol * tol
    if err is None:
        env.true('last evaluated parameters stored', key(vals(mle.params)) == key(point(mle, pts[-1])))
        env.true('at least one step', len(pts) >= 2)
        env.lt('converged within tolerance', rel(env, mle, pts[-2], pts[-1]), t2)
        conts = list(zip(pts[:-2], pts[1:-1]))
    else:
        env.true('limit reached', len(pts) == steps + 1)
        conts = list(zip(pts, pts[1:]))
    for a, b in conts:
        env.le('goes on until within tolerance', t2, rel(env, mle, a, b))
    for a, b in zip(pts, pts[1:]):
        for p, q, m in zip(point(mle, a), point(mle, b), mle.masks):
            env.eq('fixed entries kept', np.asarray(q)[m], np.asarray(p)[m])
    # directions: inverse Hessian, then estimates that satisfy the secant condition
    J = sym_inv(W if warm else flat(mle, 0)[2]) if env.sym else np.linalg.inv(W if warm else flat(mle, 0)[2])
    k = n - len(cons)
    for i, (a, b) in enumerate(zip(pts, pts[1:])):
        xa, ga, _ = flat(mle, a)
        xb, gb, _ = flat(mle, b)
        s = -J.dot(ga)
        env.eq('step %d' % i, xb - xa, s[:k])
        if i + 2 < len(pts):
            d = gb - ga
            J = J + np.multiply.outer(s - J.dot(d), d) / (d * d).sum()
    if err is None and n == 1:
        env.eq('stored Hessian', np.asarray(mle.flat_hess_), 1 / J)


def sym_inv(a):
    from vlib.patch import sym_inv as f
    return f(a)


def integers(env, method, values):
    """integer starting values"""
    mle = M(env)
    mle.masks = [np.zeros(np.shape(v), dtype=bool) for v in values]
    mle.cons, mle.jac = [], []
    for v in values:
        mle.add_param(np.array(v))
    tol = env.var('tol', 'pos')
    before = mle.params
    r, err = run(env, mle, tol=tol, max_steps=1, method=method)
    ps = [np.array(v) for v in values]
    if err is None:
        env.true('marked converged', mle.converged is True)
        pts = order(mle, ('like',))
        xa, g, H = flat(mle, 0)
        xb = np.concatenate([np.asarray(q.values).reshape(-1) for q in mle.params])
        inv = sym_inv(H) if env.sym else np.linalg.inv(H)
        if len(pts) == 2:
            env.eq('full step', xa - xb, inv.dot(g))
        env.lt('converged', rel(env, mle, 0, pts[-1]), tol * tol)
    else:
        env.true('marked not converged', mle.converged is False)
        for q, p in zip(mle.params, ps):
            env.eq('parameters unchanged', np.asarray(q.values), np.asarray(p))


class Fault(Exception):
    """raised by the model, as a domain error would be"""


class Faulty(M):
    """some evaluation raises; which one is a variable"""

    def fault(self):
        if self.gen == 'a':
            return
        self.calls = getattr(self, 'calls', 0) + 1
        if self.env.var('when', 'pos') < self.calls:
            self.fired = True
            raise Fault()

    def like(self, params, y):
        self.fault()
        return M.like(self, params, y)

    def grad_like(self, params, y, der):
        self.fault()
        return M.grad_like(self, params, y, der)

    def hess_like(self, params, y, der, hess):
        self.fault()
        return M.hess_like(self, params, y, der, hess)


def faults(env, method, shapes, masks, steps, converged):
    """the likelihood raises at any one of its evaluations"""
    mle, ps = build(env, shapes, masks, (), Faulty)
    if converged:
        mle.gen = 'a'
        done, _ = run(env, mle, None, tol=.5, max_steps=1, method='newton')
        env.true('earlier fit', done is True)
        mle.gen, mle.points, mle.trace = '', {}, []
        ps = [np.asarray(p.values) for p in mle.params]
    mle.fired = False
    mle.trials = 2 if method == 'newton' else None
    try:
        r, err = run(env, mle, ('open', 1, 99), tol=env.var('tol', 'pos'), max_steps=steps, method=method)
    except Fault as e:
        r, err = None, e
    if mle.fired:
        env.true('the error is raised', isinstance(err, Fault))
    finish(env, mle, ps, mle.params, r, err, steps)


def invalid(env):
    mle, ps = build(env, [()], [None], ())
    env.raises('unknown method', ValueError, mle.fit, N=env.var('N', 'pos'), method='simplex')
    for q, p in zip(mle.params, ps):
        env.eq('parameters unchanged', np.asarray(q.values), np.asarray(p))


def cases(tier):
    T = tier == 'thorough'
    r = []
    P = 4000
    for st in (0, 1, 2) + ((3,) if T else ()):
        r.append(Case('newton-0d-%d' % st, newton, paths=P, shapes=[()], masks=[None], cons=(), steps=st,
                      weight='pos' if st < 2 else ('open', 1, 99)))
    r.append(Case('newton-fixed-2', newton, paths=P, shapes=[(2,), ()], masks=[[True, False], [True]], cons=(), steps=2))
    for v in (1, 2):
        r.append(Case('newton-verbose-%d' % v, newton, paths=P, shapes=[()], masks=[None], cons=(), steps=1, verbose=v))
        r.append(Case('broyden-verbose-%d' % v, broyden, paths=P, shapes=[()], masks=[None], cons=(), steps=1, verbose=v))
    for meth in ('newton', 'broyden'):
        r.append(Case('newton-after-%s' % meth, newton, paths=P, shapes=[()], masks=[None], cons=(), steps=1, earlier=meth))
        r.append(Case('newton-after-%s-fixed' % meth, newton, paths=P, shapes=[(2,)], masks=[[True, False]], cons=(), steps=1,
                      earlier=meth))
    for k, (sh, m, c) in enumerate([([(2,), ()], [None, None], ((0,), (1,))), ([(2, 2), (2,)], [[[True, False], [False, True]], [False, True]], ()),
                                    ([(), (2,), ()], [None, [True, True], None], ((2, 0),))]):
        r.append(Case('newton-more-%d' % k, newton, paths=P, shapes=sh, masks=m, cons=c, steps=1))
        r.append(Case('broyden-more-%d' % k, broyden, paths=P, shapes=sh, masks=m, cons=c, steps=1))
    r.append(Case('newton-again', newton, paths=P, shapes=[()], masks=[None], cons=(), steps=1, converged=True))
    for k, (sh, m, c) in enumerate([([(2,)], [None], ()), ([(), ()], [None, None], ()), ([(2,)], [None], ((0,),)),
                                    ([(2,), ()], [[False, True], None], ()),
                                    ([(), (2,)], [None, [False, True]], ((0, 1),)),
                                    ([(2,), (2,)], [None, [True, False]], ((1, 0),))]):
        r.append(Case('newton-several-%d' % k, newton, paths=P, shapes=sh, masks=m, cons=c, steps=1 if not T or k > 4 else 2))
        r.append(Case('broyden-several-%d' % k, broyden, paths=P, shapes=sh, masks=m, cons=c, steps=2 if k < (5 if T else 2) else 1))
    for st, tr in [(3, 2), (4, 1), (6, 1), (9, 1)] + ([(4, 2)] if T else []):
        r.append(Case('newton-long-%d-%d' % (st, tr), newton, paths=P, shapes=[()], masks=[None], cons=(), steps=st, trials=tr))
    if T:
        r.append(Case('newton-two-steps', newton, paths=P, shapes=[(2,)], masks=[None], cons=(), steps=2))
    for st in (3, 4):
        r.append(Case('broyden-long-%d' % st, broyden, paths=P, shapes=[(2,)], masks=[None], cons=(), steps=st))
        if T or st == 3:
            r.append(Case('broyden-long-c-%d' % st, broyden, paths=P, shapes=[(2,)], masks=[None], cons=((0,),), steps=st))
    for st in (0, 1, 2, 3, 4, 5, 6) + ((8,) if T else ()):
        r.append(Case('broyden-0d-%d' % st, broyden, paths=P, shapes=[()], masks=[None], cons=(), steps=st,
                      weight='pos' if st < 2 else ('open', 1, 99)))
    r.append(Case('broyden-fixed', broyden, paths=P, shapes=[(2,), ()], masks=[[True, False], [True]], cons=(), steps=2))
    r.append(Case('broyden-warm', broyden, paths=P, shapes=[()], masks=[None], cons=(), steps=2, warm=True))
    r.append(Case('broyden-warm-2', broyden, paths=P, shapes=[(), ()], masks=[None, None], cons=(), steps=1, warm=True))
    r.append(Case('broyden-warm-c', broyden, paths=P, shapes=[(2,)], masks=[None], cons=((0,),), steps=1, warm=True))
    for st in ('state', 'size'):
        r.append(Case('broyden-stale-%s' % st, broyden, paths=P, shapes=[()], masks=[None], cons=(), steps=1, stale=st))
        r.append(Case('broyden-stale-2-%s' % st, broyden, paths=P, shapes=[(2,)], masks=[None], cons=(), steps=1, stale=st))
    for meth in ('newton', 'broyden'):
        r.append(Case('integer-%s' % meth, integers, paths=P, method=meth, values=[[1, 2]]))
        r.append(Case('integer-0d-%s' % meth, integers, paths=P, method=meth, values=[3]))
        for k, (sh, m) in enumerate([([()], [None]), ([(2,)], [[False, True]])]):
            for c in (False, True):
                r.append(Case('fault-%s-%d-%s' % (meth, k, c), faults, paths=P, method=meth, shapes=sh, masks=m,
                              steps=2, converged=c))
    r.append(Case('invalid-method', invalid))
    for c in r:
        c.wall = max(c.wall or 0, 150 if not T else 900)
    return r
