"""Shared helpers: a function object against an independent formula."""
import numpy as np

from maxlike.tensor import Tensor
from maxlike.tensor.tensor import BaseTensor


def shp(p):
    return np.shape(np.asarray(p))


def dense(t, groups):
    """dense array of t with the axis groups given as sizes per group
    (x, y, n, dim); groups the tensor does not have, and axes of size one, are
    broadcast.  Returns None if the tensor does not fit these groups."""
    want = tuple(groups)
    full = tuple(s for g in want for s in g)
    if not isinstance(t, BaseTensor):
        a = np.asarray(t)
        return np.broadcast_to(a, full) if a.ndim == 0 else a
    a = np.asarray(t.toarray())
    if a.ndim == 0:
        return np.broadcast_to(a, full)
    have = (t.x_dim, t.y_dim, t.n, t.dim)
    if sum(have) != a.ndim:
        return a
    idx, p = [], 0
    for h, g in zip(have, want):
        if h == 0:
            idx += [1] * len(g)
        else:
            idx += list(a.shape[p:p + h])
            p += h
    a = a.reshape(idx)
    try:
        return np.broadcast_to(a, full)
    except ValueError:
        return a


def d1(env, spec, p):
    """first derivatives of the dense array spec: shape p.shape + spec.shape"""
    spec = np.asarray(spec)
    p = np.asarray(p)
    out = np.full(p.shape + spec.shape, None, dtype=object)
    if not env.sym:
        return out
    for i in np.ndindex(*p.shape):
        out[i] = env.deriv(spec, p[i])
    return out


def d2(env, spec, p, q):
    return np.asarray(_swap(d1(env, d1(env, spec, p), q), shp(q), shp(p)))


def _swap(a, s, t):
    n, m = len(s), len(t)
    return np.moveaxis(a, list(range(n)), list(range(m, m + n)))


def elsewhere(env, foo, params, ops):
    """evaluates the function object at another point, between the evaluations that are
    checked: what it returned for other parameters must not show up in later results;
    ops: the order of value, gradient, Hessian and one-pass evaluation"""
    foo = getattr(foo, 'inner', foo)
    make = getattr(foo, 'make', None)
    qs = [np.full(shp(p), .25) for p in params]
    if make is not None:
        foo, qs = foo.foo, make(qs)
    with env.once():
        for op in ops:
            if op == 'v':
                foo(qs)
            elif op == 'g':
                foo.grad(qs)
            elif op == 'h':
                foo.hess(qs)
            else:
                foo.eval(qs)


def only(parts, ops):
    return [o for o in ops if o in parts]


def against(env, foo, params, spec, nn=None, nd=0, tag='', parts='vgh', both=True, known=None):
    """value, gradient and Hessian of foo at params against the dense array spec
    whose axes are value axes (nn of them) followed by nd extra axes; the object is
    also evaluated elsewhere in between"""
    spec = np.asarray(spec)
    if nn is None:
        nn = spec.ndim - nd
    vs = spec.shape[:nn]
    ds = spec.shape[nn:]
    params = list(params)

    def kn(e, *ranks):
        return None if known is None or not env.sym else (known[0], known[1](e, *ranks))

    n = len(params)
    if 'g' in parts:
        # a fresh object: before anything else was asked of it
        first = [foo.grad(params, i) for i in range(n)]
        elsewhere(env, foo, params, only(parts, 'hg'))
    if 'v' in parts:
        env.eq(tag + 'value', dense(foo(params), ((), (), vs, ds)), spec, known=kn(spec, 0, 0))
        elsewhere(env, foo, params, only(parts, 'vhg'))
        env.eq(tag + 'value-again', dense(foo(params), ((), (), vs, ds)), spec, known=kn(spec, 0, 0))
    if 'g' in parts:
        elsewhere(env, foo, params, only(parts, 'hv'))
        for i in range(n):
            e = d1(env, spec, params[i])
            env.eq(tag + 'grad%d-first' % i, dense(first[i], (shp(params[i]), (), vs, ds)), e,
                   known=kn(e, len(shp(params[i])), 0))
            env.eq(tag + 'grad%d' % i,
                   dense(foo.grad(params, i), (shp(params[i]), (), vs, ds)), e,
                   known=kn(e, len(shp(params[i])), 0))
    if 'h' in parts:
        elsewhere(env, foo, params, only(parts, 'vg'))
        for i in range(n):
            for j in range(n if both else i + 1):
                e = d2(env, spec, params[i], params[j])
                env.eq(tag + 'hess%d%d' % (i, j),
                       dense(foo.hess(params, i, j), (shp(params[i]), shp(params[j]), vs, ds)), e,
                       known=kn(e, len(shp(params[i])), len(shp(params[j]))))


def same_dense(env, label, a, b, groups):
    env.eq(label, dense(a, groups), dense(b, groups))


def one_pass(env, foo, params, vs, ds=(), tag=''):
    """eval against separate calls"""
    params = list(params)
    val, grad, hess = foo.eval(params)
    elsewhere(env, foo, params, 'gehv')
    env.eq(tag + 'eval.value', dense(val, ((), (), vs, ds)), dense(foo(params), ((), (), vs, ds)))
    g = foo.grad(params)
    h = foo.hess(params)
    env.true(tag + 'eval.len', len(grad) == len(params) == len(hess))
    if not (len(grad) == len(params) == len(hess)):
        return
    n = len(params)
    ok = [isinstance(x, (list, tuple)) and len(x) == n for x in (grad, hess, g, h)]
    env.true(tag + 'lists of blocks', all(ok))
    if not all(ok):
        return
    ok = [isinstance(r, (list, tuple)) and len(r) == k + 1 for x in (hess, h) for k, r in enumerate(x)]
    env.true(tag + 'lower triangle of blocks', all(ok))
    if not all(ok):
        return
    for i in range(len(params)):
        gr = (shp(params[i]), (), vs, ds)
        env.eq(tag + 'eval.grad%d' % i, dense(grad[i], gr), dense(g[i], gr))
        for j in range(i + 1):
            gr = (shp(params[i]), shp(params[j]), vs, ds)
            env.eq(tag + 'eval.hess%d%d' % (i, j), dense(hess[i][j], gr), dense(h[i][j], gr))
