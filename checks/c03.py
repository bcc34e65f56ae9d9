"""C03: reductions and reshapes commute with densification."""
import itertools

import numpy as np

from vlib import sym as S
from vlib.engine import Case
from maxlike.tensor import Tensor
from maxlike.tensor.tensor import InvalidOperation
from checks.tlib import L, make, align, dims, layouts, compat, mapped, cells, eq_t

BOUNDS = {'quick': 'tensors with up to two x and two y axes, value axes up to rank 2 (rank 3 for dense ones), extra axes '
                   'up to rank 2, sizes 1..3, every diagonal map; every subset of value axes summed; every injection of '
                   'axes into up to two more; sums of two or three tensors, and of up to nine; every real entry',
          'thorough': 'value axes up to rank 3 with every map, sizes up to 3'}


def ax_of(D, sv, sd):
    nx, ny, nn, nd = D
    ax = [nx + ny + k for k in (range(nn) if sv is True else [] if sv is False else [sv] if isinstance(sv, int) else sv)]
    if sd is True:
        ax += list(range(nx + ny + nn, nx + ny + nn + nd))
    return tuple(ax)


def perm_of(D, where, newsize, dim=False):
    nx, ny, nn, nd = D
    p = nx + ny + (nn if dim else 0)
    m = nd if dim else nn
    tail = 0 if dim else nd
    idx = [slice(None)] * p + [slice(None) if k in where else None for k in range(newsize)] + [slice(None)] * tail
    perm = list(range(p)) + [p + int(i) for i in np.argsort(where)] + list(range(p + m, p + m + tail))
    return perm, tuple(idx)


def unary(env, t, d, lay_maps, D, nm):
    """t represents the dense array d with axis groups D"""
    nx, ny, nn, nd = D
    subs = [True, False] + [list(c) for k in range(1, nn + 1) for c in itertools.combinations(range(nn), k)]
    subs += list(range(nn))
    for sv in subs:
        for sd in (True, False):
            r = t.sum(sv, sd)
            ax = ax_of(D, sv, sd)
            k = nn if sv is True else 0 if sv is False else 1 if isinstance(sv, int) else len(sv)
            eq_t(env, '%s.sum(%s,%s)' % (nm, sv, sd), r, d.sum(ax), (nx, ny, nn - k, 0 if sd else nd))
    if nn == 1:
        eq_t(env, '%s.sum((0,))' % nm, t.sum((0,), True), d.sum(ax_of(D, (0,), True)), (nx, ny, 0, 0))
    eq_t(env, nm + '.transpose', t.transpose(), np.moveaxis(d, list(range(nx, nx + ny)), list(range(ny))),
         (ny, nx, nn, nd))
    eq_t(env, nm + '.drop_dim', t.drop_dim(), d, (nx, ny, nn + nd, 0))
    eq_t(env, '-' + nm, -t, -d, D)
    free = [k for k in range(nn) if k not in lay_maps]
    for w in [[]] + [[k] for k in free] + ([free] if len(free) > 1 else []):
        eq_t(env, '%s.flip(%s)' % (nm, w), t.flip(w), np.flip(d, [nx + ny + k for k in w]) if w else d, D)
    for k in range(nd):
        eq_t(env, '%s.flip(%d,dim)' % (nm, k), t.flip([k], dim=True), np.flip(d, nx + ny + nn + k), D)
        eq_t(env, '%s.flip(int %d,dim)' % (nm, k), t.flip(k, dim=True), np.flip(d, nx + ny + nn + k), D)
    for newsize in range(nn, nn + 3):
        for where in itertools.permutations(range(newsize), nn):
            perm, idx = perm_of(D, where, newsize)
            eq_t(env, '%s.expand(%s,%d)' % (nm, where, newsize), t.expand(list(where), newsize),
                 d.transpose(perm)[idx], (nx, ny, newsize, nd))
    for newsize in range(nd, nd + 2):
        for where in itertools.permutations(range(newsize), nd):
            perm, idx = perm_of(D, where, newsize, True)
            eq_t(env, '%s.expand(%s,%d,dim)' % (nm, where, newsize), t.expand(list(where), newsize, dim=True),
                 d.transpose(perm)[idx], (nx, ny, nn, newsize))


def tensors(env, ls):
    for a in ls:
        t, d = make(env, 'a', a)
        D = dims(a)
        unary(env, t, d, [f for f in a.xm + a.ym if f >= 0], D, repr(a))
        if not a.x and not a.y:
            for p in (2, 3, 0, 1):
                eq_t(env, '%r**%d' % (a, p), t ** p, d ** p, D)


def generics(env, pairs):
    for ls in pairs:
        D = dims(*ls)
        t, d = None, 0
        for n, l in zip('abcdefghijklm', ls):
            ti, di = make(env, n, l)
            t = ti if t is None else t + ti
            d = d + align(di, l, *D)
        unary(env, t, d, [f for l in ls for f in l.xm + l.ym if f >= 0], D, '+'.join(map(repr, ls)))


FUNS = ['exp', 'log', 'square', 'gammaln', 'expit', 'logit', 'tanh', 'arctan', 'gamma']


def elementwise(env, ls):
    from scipy import special as sp
    for a in ls:
        t, d = make(env, 'a', a, 'unit')
        D = dims(a)
        for n in FUNS:
            f = getattr(np, n, None) or getattr(sp, n)
            r = f(t)
            e = np.empty(d.shape, dtype=object if env.sym else float)
            for i in np.ndindex(*d.shape):
                e[i] = S.UNARY[n](d[i]) if env.sym else float(f(d[i]))
            eq_t(env, '%s(%r)' % (n, a), r, e, D)
            env.true('%s(%r) keeps its groups' % (n, a), (r.x_dim, r.y_dim, r.n, r.dim) == (0, 0) + D[2:])


def derivative_axes(env, ls):
    """the same of a tensor with derivative axes: refused, or right"""
    for a in ls:
        t, d = make(env, 'a', a, 'unit')
        D = dims(a)
        for p in (0, 1, 2, 3):
            try:
                r = t ** p
            except (InvalidOperation, TypeError, ValueError, NotImplementedError):
                env.true('%r**%d refused' % (a, p), True)
                continue
            e = np.ones(d.shape, dtype=d.dtype)
            for _ in range(p):
                e = e * d
            eq_t(env, '%r**%d' % (a, p), r, e, D)
            env.true('%r**%d keeps its groups' % (a, p), (r.x_dim, r.y_dim, r.n, r.dim) == D)
        for n in ('exp', 'square', 'tanh', 'arctan', 'maximum', 'minimum'):
            two = n in ('maximum', 'minimum')
            try:
                r = getattr(np, n)(*[t, .3] if two else [t])
            except (InvalidOperation, TypeError, ValueError, NotImplementedError):
                env.true('%s(%r) refused' % (n, a), True)
                continue
            e = np.empty(d.shape, dtype=object if env.sym else float)
            for i in np.ndindex(*d.shape):
                if two:
                    e[i] = .3 if bool(d[i] < .3) == (n == 'maximum') else d[i]
                else:
                    e[i] = S.UNARY[n](S.to_sym(d[i])) if env.sym else float(getattr(np, n)(d[i]))
            eq_t(env, '%s(%r)' % (n, a), r, e, D)
            env.true('%s(%r) keeps its groups' % (n, a), (r.x_dim, r.y_dim, r.n, r.dim) == D)


def extremum(env, ls, n, what):
    """the larger / smaller of a tensor and a number or array, on either side"""
    less = {'maximum': lambda x, y: x < y, 'minimum': lambda x, y: x > y}[n]
    f = getattr(np, n)
    for a in ls:
        t, d = make(env, 'a', a)
        D = dims(a)
        v = .3 if what == 'number' else env.arr('v', np.shape(d))
        w = np.broadcast_to(v, np.shape(d))
        e = np.empty(d.shape, dtype=object if env.sym else float)
        for i in np.ndindex(*d.shape):
            e[i] = w[i] if less(d[i], w[i]) else d[i]
        eq_t(env, '%s(%r, %s)' % (n, a, what), f(t, v), e, D)
        eq_t(env, '%s(%s, %r)' % (n, what, a), f(v, t), e, D)


def cases(tier):
    T = tier == 'thorough'
    ls = layouts([(), (2,), (3,)], [(), (2,)], [(), (2,), (2, 3), (1, 3)], [(), (2,)])
    ls += layouts([(2, 3), (2, 2)], [(), (2,), (2, 3)], [(), (2, 3), (3, 2), (2, 2)], [()])
    ls += layouts([(2,), ()], [(3, 2)], [(2, 3)], [(), (2, 2)])
    ls += layouts([()], [()], [(2, 3, 2), (3,), (1, 1)], [(), (2, 3), (1,)])
    ls += [L((), (), (2,), (2, 3, 1)), L((2,), (), (2,), (2, 1, 3), (0,)), L((), (), (2, 1, 3, 2), ()),
           L((2, 3), (), (2, 3, 2), (), (0, 1)), L((2,), (3,), (3, 2, 2), (), (2,), (0,))]
    if T:
        ls += layouts([(3,), (2, 3)], [(3,), ()], [(2, 3, 3), (3, 2, 3)], [(), (2,)])
        ls += layouts([(2, 2)], [(2, 2)], [(2, 2)], [(), (2,)])
        ls += layouts([(2, 3, 2)], [()], [(2, 3, 2)], [()])
    r = []
    for k, l in enumerate(ls):
        r.append(Case('tensor-%d-%r' % (k, l), tensors, ls=[l]))
    g = layouts([(), (2,)], [(), (2,)], [(), (2,), (2, 2)], [(), (2,)])
    gb = layouts([(), (3,)], [(), (2,)], [(1, 3), (2, 1), (2, 3)], [(), (1,), (2,)])
    n = 0
    for src, st in ((g, 3 if T else 11), (gb, 5 if T else 31)):
        ps = [(a, b) for a in src for b in src if compat(a, b) and (a.xm, a.ym) != (b.xm, b.ym)]
        ps = ps[::st]
        for k in range(0, len(ps), 6):
            r.append(Case('generic-%d' % n, generics, pairs=ps[k:k + 6]))
            n += 1
    gd = layouts([(), (2,)], [()], [(2,), (2, 3)], [(2, 3), (1, 3), (2, 1)])
    ps = [(a, b) for a in gd for b in gd if compat(a, b) and (a.xm, a.ym) != (b.xm, b.ym)]
    ps = ps[::1 if T else 5]
    for k in range(0, len(ps), 2):
        r.append(Case('generic-dims-%d' % k, generics, pairs=ps[k:k + 2]))
    ml = [l for l in g if mapped(l) and len(l.n) == 2]
    tr = [(a, ml[(3 * i + 1) % len(ml)], ml[(5 * i + 2) % len(ml)]) for i, a in enumerate(ml)]
    tr = [t for t in tr if len({(l.xm, l.ym) for l in t}) == 3]
    for k in range(0, len(tr), 5):
        r.append(Case('generic3-%d' % k, generics, pairs=tr[k:k + 5]))
    full = sorted({(l.xm, l.ym): l for l in ml if l.x and l.y and not l.d}.items(), key=repr)
    full = [l for _, l in full]
    for k, n in enumerate((5, 6, len(full))):
        r.append(Case('generic-many-%d' % n, generics, pairs=[(full[k:] + full[:k])[:n]]))
    r.append(Case('elementwise', elementwise, ls=layouts([()], [()], [(), (2,), (2, 3), (1,)], [(), (2,), (2, 3)])))
    r.append(Case('elementwise-derivative', derivative_axes, ls=[
        l for l in layouts([(), (2,), (2, 3)], [(), (2,)], [(), (2,), (2, 3)], [(), (2,)]) if l.x or l.y]))
    for n in ('maximum', 'minimum'):
        for what in ('number', 'array'):
            for a in layouts([()], [()], [(), (2,), (1, 2)], [(), (2,)]):
                if a.n or a.d:
                    r.append(Case('%s-%s-%r' % (n, what, a), extremum, ls=[a], n=n, what=what))
    return r
