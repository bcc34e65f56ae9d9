"""C22: operations leave their operands as they were."""
import operator
from array import array

import numpy as np
import pandas as pd

import maxlike
from maxlike import preprocessing as PP
from maxlike import skellam as SK
from maxlike.func import (Linear, Quadratic, X, Constant, Scalar, Vector, Exp, Log, Logistic, ArcTan,
                          Poisson, NegativeBinomial, LogNegativeBinomial)
from maxlike.func.sigmoid import Sigmoid
from maxlike.func.tennis import Game, TieBreak, Set
from maxlike.func.matrix import MarkovMatrix, MarkovVector, CollapseMatrix
from maxlike.func import copula
from maxlike.func.func_base import Func
from maxlike.maxlike_base import Param
from maxlike.tensor import Tensor
from maxlike.tensor.tensor import GenericTensor, BaseTensor
from vlib.engine import Case
from checks import c13, c14, c17, c18, c21
from checks.expr import u
from checks.exprs import catalogue
from checks.tlib import L, make, compat, layouts, mapped

BOUNDS = {'quick': 'every pair of the listed tensor layouts (axes of size 2-3, up to rank 2 per group, with and without maps) '
                   'under every operation; the expressions of C06 up to 24 of each kind; every built-in function; the six '
                   'likelihoods, fixed entries, constraints, penalties; every real entry; each operation evaluated twice, also '
                   'after evaluating elsewhere and after attempts to write into the results',
          'thorough': 'all layout pairs of C01, all expressions of C06'}
ASSUMPTIONS = ['the observable content of a tensor is its values, dense array, axis counts and maps; of a function its results']


# ------------------------------------------------------------------ snapshots
def copy(a):
    return np.array(a, copy=True)


def snap(o):
    """list of (name, array or plain value)"""
    if isinstance(o, Tensor):
        return [('values', copy(o.values)), ('dims', (o.x_dim, o.y_dim, o.n, o.dim)),
                ('x_map', list(o.x_map)), ('y_map', list(o.y_map)), ('dense', copy(o.toarray()))]
    if isinstance(o, GenericTensor):
        return [('dims', (o.x_dim, o.y_dim, o.n, o.dim)), ('dense', copy(np.asarray(o.toarray())))]
    if isinstance(o, Param):
        return [('values', copy(o.values)), ('mask', copy(o.mask)), ('shape', tuple(o.shape)), ('hash', hash(o))]
    if isinstance(o, np.ma.MaskedArray):
        return [('data', copy(o.data)), ('mask', copy(np.ma.getmaskarray(o)))]
    if isinstance(o, np.ndarray):
        return [('array', copy(o)), ('type', str(o.dtype))]
    if isinstance(o, pd.Series):
        return [('array', copy(o.values)), ('index', list(o.index)), ('names', list(o.index.names)), ('name', o.name),
                ('levels', levels(o.index))]
    if isinstance(o, pd.DataFrame):
        return [('array', copy(o.values)), ('index', list(o.index)), ('names', list(o.index.names)),
                ('columns', list(o.columns)), ('levels', levels(o.index))]
    if isinstance(o, dict):
        r = [('keys', list(o))]
        for k, v in o.items():
            r += [('%s.%s' % (k, n), w) for n, w in snap(v)]
        return r
    if isinstance(o, (list, tuple)):
        r = [('length', (type(o).__name__, len(o)))]
        for k, v in enumerate(o):
            r += [('%d.%s' % (k, n), w) for n, w in snap(v)]
        return r
    if isinstance(o, array):
        return [('items', list(o))]
    if isinstance(o, (int, float, str, bool, type(None))):
        return [('plain', o)]
    return [('object', id(o))]


def levels(i):
    return [list(l) for l in i.levels] if isinstance(i, pd.MultiIndex) else None


class Watch(object):
    def __init__(self, env, **objs):
        self.env, self.objs = env, objs
        self.old = {k: snap(o) for k, o in objs.items()}

    def check(self, tag=''):
        for k, o in self.objs.items():
            same(self.env, '%s: %s kept' % (tag, k), self.old[k], snap(o))


def same(env, label, old, new):
    if [n for n, _ in old] != [n for n, _ in new]:
        env.true(label + ' structure', False)
        return
    for (n, a), (_, b) in zip(old, new):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            if a.dtype == bool or b.dtype == bool or a.dtype.kind in 'OUSM' and not env.sym:
                env.true('%s %s' % (label, n), a.shape == b.shape and bool(np.all(a == b)))
            else:
                env.eq('%s %s' % (label, n), copy(b), copy(a))
        else:
            env.true('%s %s' % (label, n), type(a) == type(b) and a == b)


def result(r):
    """snapshot of what an operation returned"""
    if isinstance(r, (list, tuple)):
        out = [('length', len(r))]
        for k, v in enumerate(r):
            out += [('%d.%s' % (k, n), w) for n, w in result(v)]
        return out
    if isinstance(r, BaseTensor):
        return [('dims', (r.x_dim, r.y_dim, r.n, r.dim)), ('dense', copy(np.asarray(r.toarray())))]
    if isinstance(r, (Param, np.ndarray, dict, pd.DataFrame, pd.Series)):
        return snap(r)
    if r is None or isinstance(r, (str, bool)):
        return [('plain', r)]
    return [('number', copy(np.asarray(r)))]


def poke(r, depth=0):
    """tries to write into everything reachable from a result"""
    if isinstance(r, (list, tuple)):
        for v in r:
            poke(v, depth + 1)
        if isinstance(r, list) and depth < 3:
            del r[:]
        return
    if isinstance(r, GenericTensor):
        poke(list(r.elements))
        return
    if isinstance(r, dict):
        for v in r.values():
            poke(v, depth + 1)
        return
    if isinstance(r, (Tensor, Param)):
        r = r.values
    if isinstance(r, np.ndarray):
        try:
            r[...] = r + 7 if r.dtype != bool else ~r
        except (ValueError, TypeError):
            pass


def twice(env, tag, op, watch, other=None, write=True):
    """the same result again, also after op elsewhere and writes into the first
    result; operands kept throughout"""
    r1 = op()
    first = result(r1)
    watch.check(tag)
    if other is not None:
        other()
        watch.check(tag + ' elsewhere')
    guards(env, tag, r1)
    if write:
        poke(r1)
        watch.check(tag + ' written')
    r2 = op()
    same(env, tag + ' again', first, result(r2))
    watch.check(tag + ' again')


def guards(env, tag, r):
    """a tensor result rejects assignment and in-place writes"""
    if isinstance(r, (list, tuple)):
        for k, v in enumerate(r):
            guards(env, '%s.%d' % (tag, k), v)
        return
    if isinstance(r, BaseTensor):
        for n in ('x_dim', 'dim', 'values', 'x_map', 'elements', 'other'):
            rejects(env, '%s set %s' % (tag, n), lambda: setattr(r, n, 3))
        for n in ('x_dim', 'n'):
            rejects(env, '%s delete %s' % (tag, n), lambda: delattr(r, n))
    if isinstance(r, GenericTensor):
        env.true(tag + ' elements fixed', isinstance(r.elements, tuple))
        for k, e in enumerate(r.elements):
            guards(env, '%s[%d]' % (tag, k), e)
    if isinstance(r, Tensor):
        env.true(tag + ' read-only', not r.values.flags.writeable)
        rejects(env, tag + ' in place', lambda: r.values.__setitem__(Ellipsis, 3), ValueError)


def rejects(env, label, f, *excs):
    try:
        f()
    except (excs or (NotImplementedError, AttributeError, TypeError)):
        env.true(label, True)
        return
    env.true(label, False)


# ------------------------------------------------------------------ tensors
BIN = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv),
       ('dot', lambda a, b: a.dot(b)), ('dot_left', lambda a, b: a.dot_left(b)),
       ('dot_right', lambda a, b: a.dot_right(b))]


def attempt(f):
    """an operation that does not apply to these operands is no operation"""
    from maxlike.tensor.tensor import InvalidOperation
    try:
        return f()
    except (InvalidOperation, ValueError, AssertionError, IndexError, NotImplementedError, ZeroDivisionError, TypeError,
            AttributeError) as e:
        return type(e).__name__


def binary(env, a, bs):
    for b in bs:
        ta, _ = make(env, 'a', a)
        tb, _ = make(env, 'b', b, 'pos')
        w = Watch(env, left=ta, right=tb)
        for on, op in BIN:
            if on == '/' and mapped(b):
                continue
            twice(env, '%r %s %r' % (a, on, b), lambda: attempt(lambda: op(ta, tb)), w)
        if ta.n == tb.n and on != '/':
            for on, op in BIN[:3]:
                # a chain of operations, the operands used again
                twice(env, '%r %s %r twice' % (a, on, b), lambda: attempt(lambda: op(op(ta, tb), ta)), w)


def unary(env, ls):
    for a in ls:
        ta, _ = make(env, 'a', a)
        lists = dict(where=[1, 0], order=[0], axes=[0], two=[0, 1])
        w = Watch(env, operand=ta, **lists)
        one, two, both = lists['axes'], lists['two'], lists['where']
        ops = [('-', lambda: -ta), ('transpose', ta.transpose), ('sum', ta.sum),
               ('sum()', lambda: ta.sum(False, True)), ('sum(,False)', lambda: ta.sum(True, False)),
               ('sum [0]', lambda: ta.sum(one, False)), ('sum [1,0]', lambda: ta.sum(both, True)),
               ('drop_dim', ta.drop_dim), ('toarray', ta.toarray), ('pow', lambda: ta ** 2), ('str', lambda: str(ta)),
               ('expand', lambda: ta.expand(both if ta.n == 2 else one if ta.n == 1 else [], 3)),
               ('expand dim', lambda: ta.expand(both if ta.dim == 2 else one if ta.dim == 1 else [], 2, True)),
               ('flip', lambda: ta.flip(one)), ('flip2', lambda: ta.flip(two)), ('flip dim', lambda: ta.flip(one, True)),
               ('+3', lambda: ta + 3), ('3-', lambda: 3 - ta), ('*2', lambda: 2 * ta), ('/2', lambda: ta / 2),
               ('*0', lambda: ta * 0), ('+0', lambda: ta + 0), ('*1', lambda: ta * 1), ('0-', lambda: 0 - ta),
               ('Tensor', lambda: Tensor(ta)), ('exp', lambda: np.exp(ta)), ('maximum', lambda: np.maximum(ta, .5))]
        for on, op in ops:
            # x + 0 and x * 1 may be x itself, whose array is read-only
            twice(env, '%s %r' % (on, a), lambda: attempt(op), w)


def generic(env, a, b, cs):
    ta, _ = make(env, 'a', a)
    tb, _ = make(env, 'b', b)
    g = ta + tb
    one, both = [0], [1, 0]
    for c in cs:
        tc, _ = make(env, 'c', c, 'pos')
        h = tc + ta if compat(a, c) else tc
        w = Watch(env, sum=g, left=ta, right=tb, third=tc, other=h, one=one, both=both)
        n = '(%r+%r)' % (a, b)
        for on, op in BIN:
            if on == '/' and mapped(c):
                continue
            twice(env, '%s %s %r' % (n, on, c), lambda: attempt(lambda: op(g, tc)), w)
            if on != '/':
                twice(env, '%r %s %s' % (c, on, n), lambda: attempt(lambda: op(tc, g)), w)
        for on, op in BIN[:3]:
            twice(env, '%s %s sum' % (n, on), lambda: attempt(lambda: op(g, h)), w)
    w = Watch(env, sum=g, left=ta, right=tb, one=one, both=both)
    for on, op in [('-', lambda: -g), ('transpose', g.transpose), ('sum', g.sum), ('sum0', lambda: g.sum(one, False)),
                   ('sum1', lambda: g.sum(False, True)), ('drop_dim', g.drop_dim), ('toarray', g.toarray),
                   ('expand', lambda: g.expand(both if g.n == 2 else one if g.n == 1 else [], 3)),
                   ('flip', lambda: g.flip(one)), ('+3', lambda: g + 3), ('*2', lambda: 2 * g), ('3-', lambda: 3 - g),
                   ('/2', lambda: g / 2)]:
        twice(env, '%s %s' % (on, n), lambda: attempt(op), w)


def arrays(env, a, shape):
    """numpy arrays and lists as operands"""
    ta, _ = make(env, 'a', a, 'pos')
    v = env.exact(env.arr('v', shape, 'pos'))
    l = [x for x in np.asarray(v).ravel()]
    w = Watch(env, operand=ta, array=v, list=l)
    for on, op in BIN[:4]:
        twice(env, '%r %s array' % (a, on), lambda: attempt(lambda: op(ta, v)), w)
        if not mapped(a):
            twice(env, 'array %s %r' % (on, a), lambda: attempt(lambda: op(v, ta)), w)
    twice(env, 'Tensor(array)', lambda: Tensor(v), w)
    twice(env, 'Tensor(list)', lambda: Tensor(l), w)


def params(env, shape):
    v = env.exact(env.arr('v', shape))
    m = np.zeros(shape, dtype=bool)
    if m.size > 1:
        m.flat[1] = True
    m2 = copy(m)
    w = Watch(env, array=v, mask=m)
    p = Param(v, m)
    w2 = Watch(env, param=p)
    rejects(env, 'set values', lambda: setattr(p, 'values', 3))
    rejects(env, 'set mask', lambda: setattr(p, 'mask', 3))
    rejects(env, 'set other', lambda: setattr(p, 'other', 3))
    for n in ('values', 'mask', 'shape', 'hash'):
        rejects(env, 'delete ' + n, lambda: delattr(p, n))
    env.true('read-only', not p.values.flags.writeable)
    rejects(env, 'in place', lambda: p.values.__setitem__(Ellipsis, 3), ValueError)
    rejects(env, 'in place array', lambda: np.asarray(p).__setitem__(Ellipsis, 3), ValueError)
    w.check('Param')
    w2.check('Param')
    for n, f in (('compressed', p.compressed), ('count', p.count)):
        r = f()
        w2.check(n)
        poke(r)
        w2.check(n + ' written')
    q = Param(p.values, p.mask)
    w2.check('shared')
    env.eq('shared values', q.values, p.values)
    env.true('shared mask', bool(np.array_equal(p.mask, m2)))


# ------------------------------------------------------------------ functions
def calls(foo, ps):
    n = len(ps)
    return [('value', lambda: foo(ps)), ('grad', lambda: foo.grad(ps)), ('hess', lambda: foo.hess(ps)),
            ('eval', lambda: foo.eval(ps))] + \
        [('grad%d' % i, lambda i=i: foo.grad(ps, i)) for i in range(n)] + \
        [('hess%d%d' % (i, j), lambda i=i, j=j: foo.hess(ps, i, j)) for i in range(n) for j in range(i + 1)]


def function(env, foo, ps, others, kind='array', extra=None, each=False):
    def wrap(l):
        return [Param(copy(p)) if kind == 'param' else Tensor(copy(p)) if kind == 'tensor' else p for p in l]
    a, b = wrap(ps), wrap(others)
    w = Watch(env, params=a, elsewhere=b, **(extra or {}))
    for n, f in calls(foo, a)[:None if each else 4]:
        twice(env, n, f, w, other=lambda: (foo(b), foo.grad(b), foo.hess(b)))


def expression(env, build, dom):
    e = build(env)
    ps = [env.arr('p%d' % k, s, dom) for k, s in enumerate(e.pshapes)]
    qs = [env.arr('q%d' % k, s, dom) for k, s in enumerate(e.pshapes)]
    function(env, e.func, ps, qs)


def builtin(env, make, shapes, dom, kind):
    foo, extra = make(env)
    ps = [env.arr('p%d' % k, s, dom) for k, s in enumerate(shapes)]
    qs = [env.arr('q%d' % k, s, dom) for k, s in enumerate(shapes)]
    function(env, foo, ps, qs, kind, extra, each=True)


def reuse(env, op):
    """functions built from other functions leave those as they were"""
    V, W = (2,), (3,)
    f = u(env, 'f', [V, ()], V, pmaps=[(0,), None]).func
    g = maxlike.func.Sum(1)
    pm, fm = [0, 1], [0]
    g.add(f, pm, fm, weight=env.var('w'))
    g.add(Scalar(), 1, None)
    h = maxlike.func.Product(1)
    h.add(f, pm, fm).add(Scalar(), 1, None)
    k = maxlike.func.Affine(f, env.var('a'), env.var('b'))
    ps = [env.arr('p0', V), env.arr('p1', ())]
    ws = [env.arr('q0', V), env.arr('q1', ())]
    w = Watch(env, params=ps, other=ws, pm=pm, fm=fm)
    parts = [f, g, h, k]
    before = [result([c(ps), c.grad(ps), c.hess(ps), c.eval(ps)]) for c in parts]
    new = {'affine': lambda c: [-c, 3 - c, c + 2, 2 * c, c - 1, (2 * c + 1) * 3, -(-c)],
           'sum': lambda c: [maxlike.func.Sum(2).add(c, pm, fm, weight=3).add(c, pm, [1]).add(2 * c - 5, [0, 1], 0)],
           'product': lambda c: [maxlike.func.Product(2).add(c, pm, fm).add(c, pm, [1])],
           'compose': lambda c: [maxlike.func.Compose(Exp(), c), Exp() @ c, Exp() @ (c + 1)],
           'wrap': lambda c: [maxlike.func.FuncWrap(c, pm, fm, 2), maxlike.func.FuncWrap(c, pm, [1], 2, feat_flip=[1])],
           'collapse': lambda c: [maxlike.func.Collapse(c)]}[op]
    for n, c in zip('fghk', parts):
        built = new(c)
        for m in built:
            attempt(lambda: (m(ws), m.grad(ws), m.hess(ws), m.eval(ws), m(ps)))
        if op in ('sum', 'product'):
            # a sum that gets more terms later leaves its earlier terms alone
            built[0].add(X(), 0, 0)
            attempt(lambda: built[0](ps))
        w.check('%s %s' % (op, n))
        for m, o, b in zip('fghk', parts, before):
            same(env, '%s of %s leaves %s' % (op, n, m), b, result([o(ps), o.grad(ps), o.hess(ps), o.eval(ps)]))


def cop(env, cls, arg, m, kind):
    with c18.Hook(env):
        a, b = env.arr('a', (m,), 'pos'), env.arr('b', (m,), 'pos')
        c, d = env.arr('c', (m,), 'pos'), env.arr('d', (m,), 'pos')
        ps = [a, b]
        if kind != 'array':
            ps = [Param(copy(a)), Param(copy(b))] if kind == 'param' else [Tensor(copy(a)), Tensor(copy(b))]
        foo = cls(*arg)
        w = Watch(env, params=ps, inner=[a, b])
        twice(env, 'copula', lambda: foo(ps), w, other=lambda: foo([c, d]))


# ------------------------------------------------------------------ likelihoods
def likelihood(env, kind, model, shape, dims, which):
    e = which(env, model, dims)
    mle = c13.build(env, kind, dims, shape)
    mle.model = e.func
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(e.pshapes)]
    qs = [env.arr('q%d' % k, s) for k, s in enumerate(e.pshapes)]
    if dims:
        for l in (ps, qs):
            for x in np.asarray(e.spec([np.asarray(p) for p in l])).ravel():
                env.assume(x > 0)
    masks = []
    for k, s in enumerate(e.pshapes):
        m = np.zeros(s, dtype=bool)
        if k == 0 and m.size > 1:
            m.flat[0] = True
        masks.append(m)
    params = tuple(Param(env.exact(p), m) for p, m in zip(ps, masks))
    other = tuple(Param(env.exact(q), m) for q, m in zip(qs, masks))
    mle.params = params
    c0, r0 = [0], [0]
    mle.add_constraint(c0, u(env, 'c', [e.pshapes[0]], ()).func)
    mle.add_regularization(r0, u(env, 'h', [e.pshapes[0]], ()).func)
    y, der = mle.model(params), mle.model.grad(params)
    hess = mle.model.hess(params)
    data = {k: getattr(mle, k) for k in ('N', 'X', 'Z') if getattr(mle, k, None) is not None}
    for k in ('s', 'scale'):
        if hasattr(mle, k):
            data[k] = getattr(mle, k)
    w = Watch(env, params=params, value=y, gradient=der, hessian=hess, maps=[c0, r0], stored=mle.params, **data)

    def state():
        env.true('model kept', mle.model is e.func and mle.params is params)
        env.true('counts', len(mle.constraint) == 1 and len(mle.reg) == 1 and list(mle.constraint[0][0]) == [0] and
                 list(mle.reg[0][0]) == [0])
        for k in data:
            env.true('%s kept' % k, getattr(mle, k) is data[k])

    def elsewhere():
        mle.like(other, mle.model(other))
        mle.flat_grad(other, mle.model(other), mle.model.grad(other))
        mle.g(other)
    for n, op in [('like', lambda: mle.like(params, y)), ('objective', lambda: mle.g(params)),
                  ('objective y', lambda: mle.g(params, y)),
                  ('grad_like', lambda: mle.grad_like(params, y, der)),
                  ('hess_like', lambda: mle.hess_like(params, y, der, hess)),
                  ('flat_grad', lambda: mle.flat_grad(params, y, der)),
                  ('flat_hess', lambda: mle.flat_hess(params, y, der, hess))]:
        twice(env, n, op, w, other=elsewhere)
        state()


def reports(env, shapes, c):
    """error matrix, standard errors, Fisher matrix, criteria, reshaping"""
    ps = [env.arr('p%d' % k, s) for k, s in enumerate(shapes)]
    masks = [np.zeros(s, dtype=bool) for s in shapes]
    if masks[0].size > 1:
        masks[0].flat[0] = True
    n = sum(int((~m).sum()) for m in masks)
    H = c17.hessian(env, n, c, True)
    mle = c17.M(env.var('like'))
    for p, m in zip(ps, masks):
        mle.add_param(copy(p), m)
    for i in range(c):
        mle.add_constraint(0, u(env, 'c%d' % i, [shapes[0]], ()).func)
    mle.N = Tensor(env.arr('N', (2, 2), ('open', 2, 9)))
    mle.flat_hess_ = copy(H)
    if env.sym:
        V = c17.inverse(env, -H)
        for i in range(n):
            env.assume(V[i, i] > 0)
    flat, given = env.arr('x', (n,)), env.arr('z', (sum(int(m.sum()) for m in masks),))
    w = Watch(env, hessian=mle.flat_hess_, params=mle.params, data=mle.N, flat=flat, given=given, constraints=mle.constraint)
    obs = mle.params
    num = lambda r: [np.asarray(b) for l in r for b in l]
    far = copy(flat)
    far[-1] = np.inf
    free = [~m for m in masks]
    for name, op in [('error', lambda: [np.asarray(b)[np.multiply.outer(free[i], free[j])] for i, l in
                                        enumerate(mle.error_matrix()) for j, b in enumerate(l)]),
                     ('fisher', lambda: num(mle.fisher_matrix())),
                     ('std', lambda: [np.asarray(b.data)[f] for b, f in zip(mle.std_error(), free)]),
                     ('aic', mle.akaine_information_criterion), ('bic', mle.bayesian_information_criterion),
                     ('get_params', lambda: [np.asarray(b.data) for b in mle.get_params()]),
                     ('reshape', lambda: [np.asarray(b) for b in mle._reshape_params(flat)]),
                     ('reshape infinite', lambda: [np.asarray(b) for b in mle._reshape_params(far)])]:
        twice(env, name, op, w, write=name != 'get_params')
        env.true('same parameters', mle.params is obs)


# ------------------------------------------------------------------ data
def prepare(env, keys, names, extra, frame):
    m = len(keys)
    dt = object if env.sym else float
    idx = c21.index(keys, names)
    tr = {'S': np.sum, 'Q': lambda v: (v * v).sum()}
    w_ = np.array(list(env.arr('w', (m,))), dtype=dt)
    r_ = np.array(list(env.arr('r', (m,))), dtype=dt)

    def plain(out):
        res, axis = out
        return [np.asarray(res[k]) for k in sorted(res)]
    if frame:
        df = pd.DataFrame({'weight': w_, 'result': r_, 'other': r_}, index=idx)
        w = Watch(env, frame=df, transformations=tr, extra=extra)
        op = lambda: plain(PP.prepare_dataframe(df, 'weight', 'result', tr, extra))
    else:
        s = pd.Series(r_, index=idx, name='obs')
        w = Watch(env, series=s, transformations=tr, extra=extra)
        op = lambda: plain(PP.prepare_series(s, tr, extra))
    r1 = [list(np.asarray(a).ravel()) for a in op()]
    w.check('prepare')
    r2 = [list(np.asarray(a).ravel()) for a in op()]
    for k, (a, b) in enumerate(zip(r1, r2)):
        env.eq('again %d' % k, env.exact(a), env.exact(b))
    w.check('prepare again')
    if not frame:
        PP.prepare_series(s)
        r3 = [list(np.asarray(a).ravel()) for a in op()]
        for k, (a, b) in enumerate(zip(r1, r3)):
            env.eq('after default %d' % k, env.exact(a), env.exact(b))
        c = PP.df_count(pd.Series(np.array([0., 2., 1.])), 3)
        env.true('count', c.values.tolist() == PP.df_count(pd.Series(np.array([0., 2., 1.])), 3).values.tolist())


def primitives(env):
    a, b = env.var('a', 'pos'), env.var('b', 'pos')
    for n, op in [('vector', lambda: SK.poisson_vector(a, 4)), ('frame', lambda: SK.skellam_frame(a, b, 3)),
                  ('cdf', lambda: SK.poisson_cdf(a, 4)), ('mid', lambda: SK.poisson_mid_cdf(a, 2))]:
        w = Watch(env, nothing=[])
        twice(env, n, lambda: attempt(op), w)


# ------------------------------------------------------------------ cases
def builtins():
    V = (2,)

    def const(env):
        v = env.arr('v', V)
        return Constant(v), dict(constant=v)

    def vec(env):
        v = env.arr('v', V)
        return Vector(v), dict(vector=v)

    def lin(env):
        w = [env.arr('w0', V), env.arr('w1', ())]
        return Linear(w), dict(weights=w)

    def quad(env):
        m, s = env.arr('m', V), env.arr('s', V, 'pos')
        return Quadratic(m, s), dict(mean=m, scale=s)
    plain = lambda f: lambda env: (f(), None)
    r = []
    for n, f, dom in (('exp', Exp, 'real'), ('log', Log, 'pos'), ('x', X, 'real'), ('logistic', Logistic, 'real'),
                      ('arctan', ArcTan, 'real'), ('sigmoid', lambda: Sigmoid('logistic'), 'real')):
        for s in (V, (2, 2)):
            r.append(('%s-%s' % (n, len(s)), plain(f), [s], dom))
    r += [('constant', const, [V], 'real'), ('vector', vec, [()], 'real'), ('linear', lin, [V, ()], 'real'),
          ('quadratic', quad, [V], 'real'), ('scalar', plain(Scalar), [()], 'real')]
    for s in ((), V):
        t = str(len(s))
        r.append(('poisson-' + t, plain(lambda: Poisson(3)), [s], 'pos'))
        r.append(('lognb-' + t, lambda env: (LogNegativeBinomial(3, 2), None), [s], 'pos'))
        r.append(('nb-' + t, lambda env: (NegativeBinomial(3, 2), None), [s], 'pos'))
        r.append(('game-' + t, plain(Game), [s], 'unit'))
        r.append(('tiebreak-' + t, plain(TieBreak), [s], 'unit'))
        r.append(('set-' + t, plain(Set), [s, s], ('closed', .001, .999)))
        for n, cls in (('matrix', MarkovMatrix), ('vector', MarkovVector)):
            def markov(env, n=n, cls=cls):
                f = env.exact(env.arr('f', (2, 2) if n == 'matrix' else (3,)))
                return cls(2, 2, f), dict(skew=f)
            r.append(('markov-%s-%s' % (n, t), markov, [s, s], ('open', 0, .5)))

    def collapse(env):
        l = [(1, 1, -2, 1), (1, -1, 1, 0)]
        return CollapseMatrix(l), dict(conditions=l)
    r.append(('collapse-conditions', collapse, [(2, 3)], 'real'))
    r.append(('collapse-rank3', collapse, [(2, 3, 2)], 'real'))
    r.append(('collapse-default', plain(CollapseMatrix), [(2, 2)], 'real'))
    return r


def cases(tier):
    T = tier == 'thorough'
    r = []
    ls = layouts([(), (2,)], [(), (2,)], [(), (2,), (2, 2)], [(), (2,)])
    for k, a in enumerate(ls):
        bs = [b for b in ls if compat(a, b)]
        if not T:
            bs = bs[k % 3::3]
        for q in range(0, len(bs), 4):
            r.append(Case('binary-%d-%d' % (k, q), binary, a=a, bs=bs[q:q + 4], paths=16 if T else 6))
    un = ls + [L((2, 3), (3,), (2, 3), ()), L((2, 3), (3,), (2, 3), (), (0, 1), (1,)), L((3,), (2, 2), (2, 3), (2, 3), (1,), (0, -1))]
    for k in range(0, len(un), 4):
        r.append(Case('unary-%d' % k, unary, ls=un[k:k + 4], paths=16 if T else 6))
    gs = [(L((2,), (), (2,), (), (0,)), L((2,), (), (2,), ())), (L((2,), (2,), (2, 2), (), (0,), (1,)), L((2,), (2,), (2, 2), (), (1,))),
          (L((2,), (), (2, 2), (2,), (1,)), L((2,), (), (2, 2), (), (0,)))]
    for k, (a, b) in enumerate(gs):
        cs = [c for c in ls if compat(a, c) and compat(b, c)]
        if not T:
            cs = cs[k::4]
        for q in range(0, len(cs), 3):
            r.append(Case('generic-%d-%d' % (k, q), generic, a=a, b=b, cs=cs[q:q + 3], paths=16 if T else 6))
    for k, a in enumerate([L((), (), (2,), ()), L((2,), (), (2,), (), (0,)), L((2,), (), (2,), ())]):
        r.append(Case('array-%d' % k, arrays, a=a, shape=(2,)))
    for s in ((), (2,), (3,), (2, 2)):
        r.append(Case('param-%s' % ('x'.join(map(str, s)) or '0d'), params, shape=s))
    items = list(catalogue(tier).items())
    if not T:
        # a spread over the catalogue
        items = [it for k, it in enumerate(items) if k % 4 == 0 or it[0].startswith('gen')]
    for n, (b, d) in items:
        r.append(Case('expr-' + n, expression, build=b, dom=d, paths=16 if T else 6))
    for n, mk, shapes, dom in builtins():
        for kind in ('array', 'param', 'tensor'):
            if kind == 'tensor' and n in ('linear', 'quadratic', 'scalar', 'vector') or \
                    n.startswith(('markov', 'set')) and kind == 'tensor' or (n[-1] == '2' and kind == 'param'):
                continue
            r.append(Case('builtin-%s-%s' % (n, kind), builtin, make=mk, shapes=shapes, dom=dom, kind=kind))
    for op in ('affine', 'sum', 'product', 'compose', 'wrap', 'collapse'):
        r.append(Case('reuse-' + op, reuse, op=op, paths=16 if T else 6))
    for n, cls, arg in (('amh', copula.AkiMikhailHaq, (.5,)),
                        ('clayton', copula.Clayton, (1,)), ('gumbel', copula.Gumbel, (2,)), ('frank', copula.Frank, (1,)),
                        ('gauss', copula.Gaussian, (.3,))):
        if cls is not None:
            for kind in ('array', 'param', 'tensor'):
                r.append(Case('copula-%s-%s' % (n, kind), cop, cls=cls, arg=arg, m=2, kind=kind))
    for kind in ('poisson', 'zip', 'logistic', 'negbin', 'finite', 'normalized'):
        dims = (2,) if kind in ('finite', 'normalized') else ()
        for which, m in ((c13.models, 'full'), (c13.models, 'diag'), (c13.models, 'scalar'), (c13.sums, 'add'),
                         (c13.sums, 'mixed'), (c13.sums, 'absent')):
            r.append(Case('like-%s-%s' % (kind, m), likelihood, kind=kind, model=m, shape=c13.SHAPE.get(m, (2, 3)),
                          dims=dims, which=which, paths=64 if T else 4))
    for shapes in ([(2,)], [(3,), ()], [(2,), (2,)]):
        for c in (0, 1):
            if shapes[0] == (2,) and len(shapes) == 1 and c:
                continue        # one free entry and one constraint leave no freedom
            r.append(Case('reports-%d-%d-%d' % (len(shapes), len(shapes[0]) and shapes[0][0], c), reports, shapes=shapes, c=c))
    keys = c21.grid('text', None, [(0, 1), (1, 0), (0, 1)])
    for fr in (True, False):
        nm = 'frame' if fr else 'series'
        r.append(Case('prepare-%s' % nm, prepare, keys=keys, names=['s', 't'], extra=None, frame=fr))
        r.append(Case('prepare-%s-extra' % nm, prepare, keys=keys, names=['s', 't'], extra={'s': ['zz', 'aa'], 't': ['w']},
                      frame=fr))
    r.append(Case('prepare-flat', prepare, keys=[('b',), ('a',), ('b',)], names=None, extra=['z', 'a'], frame=False))
    r.append(Case('primitives', primitives))
    return r
