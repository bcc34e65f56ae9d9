"""Tensor layouts and an independent dense semantics for them."""
import itertools
from array import array

import numpy as np

from maxlike.tensor import Tensor
from maxlike.tensor.tensor import GenericTensor


class L(object):
    """layout: x/y/n/dim sizes and diagonal maps.  An axis mapped to n axis f is
    stored with size 1 and stands for delta(x_k, n_f)."""

    def __init__(self, x=(), y=(), n=(), d=(), xm=None, ym=None):
        self.x, self.y, self.n, self.d = tuple(x), tuple(y), tuple(n), tuple(d)
        self.xm = tuple(xm) if xm else ()
        self.ym = tuple(ym) if ym else ()

    def shape(self):
        xs = tuple(1 if self.xm and self.xm[k] >= 0 else s for k, s in enumerate(self.x))
        ys = tuple(1 if self.ym and self.ym[k] >= 0 else s for k, s in enumerate(self.y))
        return xs + ys + self.n + self.d

    def full(self):
        """sizes of the represented dense array"""
        return (self.x, self.y, self.n, self.d)

    def __repr__(self):
        def m(t):
            return ''.join('*' if v < 0 else str(v) for v in t)

        def s(t):
            return ''.join(map(str, t))
        return 'x%s%s.y%s%s.n%s.d%s' % (s(self.x), '@' + m(self.xm) if self.xm else '',
                                        s(self.y), '@' + m(self.ym) if self.ym else '',
                                        s(self.n), s(self.d))


def make(env, name, lay, dom='real'):
    v = env.arr(name, lay.shape(), dom)
    t = Tensor(v, x_dim=len(lay.x), y_dim=len(lay.y), dim=len(lay.d),
               x_map=array('b', lay.xm) if lay.xm else None,
               y_map=array('b', lay.ym) if lay.ym else None)
    return t, densify(env, v, lay)


def densify(env, v, lay):
    """dense array of shape x + y + n + d (mapped axes at their n size), written
    from the definition of the diagonal maps"""
    v = np.asarray(v)
    out = np.empty(lay.x + lay.y + lay.n + lay.d, dtype=v.dtype)
    nx, ny, nn = len(lay.x), len(lay.y), len(lay.n)
    for i in np.ndindex(*out.shape):
        src = list(i)
        on = True
        for k, f in enumerate(lay.xm):
            if f >= 0:
                src[k] = 0
                on = on and i[k] == i[nx + ny + f]
        for k, f in enumerate(lay.ym):
            if f >= 0:
                src[nx + k] = 0
                on = on and i[nx + k] == i[nx + ny + f]
        out[i] = v[tuple(src)] if on else (0 if v.dtype == object else 0.0)
    return out


def align(dense, lay, nx, ny, nn, nd):
    """insert singleton axes where the layout lacks a group"""
    sh = (lay.x or (1,) * nx) + (lay.y or (1,) * ny) + (lay.n or (1,) * nn) + (lay.d or (1,) * nd)
    return dense.reshape(sh)


def dims(*lays):
    return tuple(max(len(g) for g in gs) for gs in zip(*[l.full() for l in lays]))


def group_shape(arr, nx, ny, nn, nd):
    return arr


def tdims(t):
    return (t.x_dim, t.y_dim, t.n, t.dim)


def canon_dense(t, want):
    """dense array of a result tensor, with singleton axes inserted so that it has
    the axis groups `want` = (nx, ny, nn, nd)"""
    if not hasattr(t, 'toarray'):
        return np.asarray(t).reshape(np.shape(t))
    a = np.asarray(t.toarray())
    have = tdims(t)
    if isinstance(t, Tensor) and t.values.ndim == 0:
        have = (0, 0, 0, 0)
    sh, p = [], 0
    if sum(have) != a.ndim:
        return a
    for h, w in zip(have, want):
        if h == 0:
            sh += [1] * w
        else:
            sh += list(a.shape[p:p + h])
            p += h
    return a.reshape(sh)


def maps_for(x, n):
    """all diagonal maps of axes x onto distinct value axes n of the same size"""
    opts = [[-1] + [f for f in range(len(n)) if n[f] == s and s > 1] for s in x]
    out = []
    for c in itertools.product(*opts):
        used = [f for f in c if f >= 0]
        if len(set(used)) == len(used):
            out.append(c if used else None)
    return out or [None]


def layouts(xs, ys, ns, ds):
    out = []
    for n in ns:
        for x in xs:
            for y in ys:
                for d in ds:
                    for xm in maps_for(x, n):
                        for ym in maps_for(y, n):
                            out.append(L(x, y, n, d, xm, ym))
    return out


def compat(a, b):
    for p, q in zip(a.full(), b.full()):
        if p and q:
            if len(p) != len(q):
                return False
            for s, t in zip(p, q):
                if s != t and 1 not in (s, t):
                    return False
    return True


def mapped(l):
    return any(f >= 0 for f in l.xm + l.ym)


def cells(*lays):
    n = 1
    for gs in zip(*[l.full() for l in lays]):
        k = max(len(g) for g in gs)
        for p in range(k):
            n *= max([g[p] for g in gs if g])
    return n


def eq_t(env, label, t, expected, want, **k):
    """result t represents the dense array `expected` (axis groups `want`)"""
    expected = np.asarray(expected)
    got = canon_dense(t, want)
    if got.ndim == expected.ndim or got.ndim == 0:
        try:
            got = np.broadcast_to(got, expected.shape)
        except ValueError:
            pass
    env.eq(label, got, expected, **k)
