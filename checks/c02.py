"""C02: tensor inner products against dense contractions."""
import numpy as np

from vlib.engine import Case
from vlib import patch as P
from maxlike.tensor import Tensor
from checks.tlib import L, make, align, dims, layouts, maps_for, compat, mapped, cells, eq_t

BOUNDS = {'quick': 'matrix factor with one or two contracted axes (sizes 2; 2x3; 2x2), at most one free y axis, value axes (), (2,), '
                   '(2,3), (3,2), extra axis () or (2,) and every diagonal map; other factor with free x/y axes of '
                   'sizes 2..4 and every diagonal map; sums of up to three tensors on either side, and of all nine combinations of maps; every real entry',
          'thorough': 'as quick, all combinations, two free axes and three value axes'}


def lets(lay, x, y, n):
    return x[:len(lay.x)] + y[:len(lay.y)] + n[:len(lay.n)] + ('E' if lay.d else '')


def einsum(env, sub, a, b):
    return P.obj_einsum(sub, (a, b)) if env.sym else np.einsum(sub, a, b)


def left(env, a, da, b, db):
    """X N E (other b) . N Y M E (self a)"""
    E = 'E' if a.d or b.d else ''
    out = 'XW'[:len(b.x)] + 'YZ'[:len(a.y)] + 'MPQ'[:len(a.n)] + E
    e = einsum(env, '%s,%s->%s' % (lets(b, 'XW', '', 'NO'), lets(a, 'NO', 'YZ', 'MPQ'), out), db, da)
    return e, (len(b.x), len(a.y), len(a.n), len(E))


def right(env, a, da, b, db):
    """X Y N E (other b) . N M E (self a)"""
    E = 'E' if a.d or b.d else ''
    out = 'XW'[:len(b.x)] + 'YZ'[:len(b.y)] + 'MPQ'[:len(a.n)] + E
    e = einsum(env, '%s,%s->%s' % (lets(b, 'XW', 'YZ', 'NO'), lets(a, 'NO', '', 'MPQ'), out), db, da)
    return e, (len(b.x), len(b.y), len(a.n), len(E))


def usable(a, b):
    return len(a.x) == len(b.n) and a.x == b.n and (not a.d or not b.d or a.d == b.d)


def dots(env, a, bs):
    ta, da = make(env, 'a', a)
    for b in bs:
        tb, db = make(env, 'b', b)
        if not b.y:
            e, D = left(env, a, da, b, db)
            eq_t(env, '%r .dot_left %r' % (a, b), ta.dot_left(tb), e, D)
            if len(a.y) != len(b.n) or b.x:
                eq_t(env, '%r .dot %r' % (a, b), ta.dot(tb), e, D)
        if not a.y:
            e, D = right(env, a, da, b, db)
            eq_t(env, '%r .dot_right %r' % (a, b), ta.dot_right(tb), e, D)
            if b.x and b.y:
                eq_t(env, '%r .dot %r' % (a, b), ta.dot(tb), e, D)


def ydots(env, a, bs):
    """contraction through the y axes of the first factor (by transposition)"""
    ta, da = make(env, 'a', a)
    nx, ny = len(a.x), len(a.y)
    ta2 = L(a.y, a.x, a.n, a.d, a.ym, a.xm)
    dat = np.moveaxis(da, list(range(nx, nx + ny)), list(range(ny)))
    for b in bs:
        tb, db = make(env, 'b', b)
        if b.x and b.y and not a.x:
            bt = L(b.y, b.x, b.n, b.d, b.ym, b.xm)
            dbt = np.moveaxis(db, list(range(len(b.x), len(b.x) + len(b.y))), list(range(len(b.y))))
            e, D = right(env, ta2, dat, bt, dbt)
            e = np.moveaxis(e, list(range(D[0], D[0] + D[1])), list(range(D[1])))
            eq_t(env, '%r .dot %r' % (a, b), ta.dot(tb), e, (D[1], D[0]) + D[2:])
        elif b.y and not b.x:
            # the second factor has y axes: the result has them as y axes
            bt = L(b.y, (), b.n, b.d, b.ym, None)
            e, D = left(env, ta2, dat, bt, db)
            e = np.moveaxis(e, list(range(D[0], D[0] + D[1])), list(range(D[1])))
            eq_t(env, '%r .dot %r' % (a, b), ta.dot(tb), e, (D[1], D[0]) + D[2:])
        elif not b.x and not b.y and nx != len(b.n) and ny:
            e, D = left(env, ta2, dat, b, db)
            eq_t(env, '%r .dot %r' % (a, b), ta.dot(tb), e, D)


def total(env, names, lays):
    D = dims(*lays)
    t, d = None, 0
    for n, l in zip(names, lays):
        ti, di = make(env, n, l)
        t = ti if t is None else t + ti
        d = d + align(di, l, *D)
    # full layout (no maps) of the sum
    gs = []
    for k in range(4):
        g = [l.full()[k] for l in lays if l.full()[k]]
        gs.append(tuple(max(x) for x in zip(*g)) if g else ())
    d = np.broadcast_to(d, sum(gs, ()))
    return t, L(*gs), d


def sums(env, A, Bs):
    ta, a, da = total(env, ['a%d' % k for k in range(len(A))], A)
    for B in Bs:
        tb, b, db = total(env, ['b%d' % k for k in range(len(B))], B)
        nm = '%r %%s %r' % (A, B)
        if not b.y:
            e, D = left(env, a, da, b, db)
            eq_t(env, nm % 'dot_left', ta.dot_left(tb), e, D)
            eq_t(env, nm % 'dot', ta.dot(tb), e, D)
        if not a.y and (b.x or b.y):
            e, D = right(env, a, da, b, db)
            eq_t(env, nm % 'dot_right', ta.dot_right(tb), e, D)
            if b.x and b.y:
                eq_t(env, nm % 'dot', ta.dot(tb), e, D)


def zero(env, bs):
    z = Tensor(0)
    for b in bs:
        tb, db = make(env, 'b', b)
        eq_t(env, '0 . %r' % b, z.dot(tb), np.zeros((1,) * sum(dims(b)), dtype=int), dims(b))


def cases(tier):
    T = tier == 'thorough'
    r = []
    A1 = layouts([(2,)], [(), (2,), (3,)], [(), (2,), (2, 3)], [(), (2,)])
    A2 = layouts([(2, 3)], [(), (2,)], [(), (2, 3), (3, 2), (1, 3)], [(), (2,)])
    A3 = layouts([(2, 2)], [(), (2,)], [(2, 2)], [()])
    B1 = layouts([(), (2,), (3,)], [(), (2,), (4,)], [(2,)], [(), (2,)])
    B2 = layouts([(), (2,), (3,)], [(), (3,), (2,)], [(2, 3)], [(), (2,)])
    B3 = layouts([(), (2,)], [(), (2,)], [(2, 2)], [(), (2,)])
    B2x = layouts([(2, 3), (3, 2)], [(), (2,)], [(2, 3)], [()]) + layouts([(2,)], [(2, 3), (3, 2)], [(2, 3)], [()])
    if T:
        A1 += layouts([(3,)], [(), (3,)], [(3, 2, 3), (3,)], [(), (1,)])
        A3 += layouts([(2, 2)], [(2, 2), ()], [(2, 2, 2), (2,)], [()])
        B1 += layouts([(), (3,)], [(), (3,)], [(3,)], [(), (1,), (2,)])
        B3 += layouts([(2, 2)], [(2, 2), ()], [(2, 2)], [()])
    for tag, As, Bs, st in (('1', A1, B1, 1), ('2', A2, B2, 1), ('3', A3, B3, 1),
                            ('2x', A2, B2x, 1 if T else 3)):
        for i, a in enumerate(As):
            bs = [b for b in Bs if usable(a, b) and not (a.y and b.y)][i % st::st]
            for k in range(0, len(bs), 25):
                r.append(Case('dot%s-%r-%d' % (tag, a, k), dots, a=a, bs=bs[k:k + 25]))
    Y1 = layouts([(), (3,)], [(2,)], [(), (2,), (2, 3)], [(), (2,)])
    Y2 = layouts([(), (2,)], [(2, 3)], [(2, 3), ()], [()])
    for tag, As, Bs in (('1', Y1, B1), ('2', Y2, B2)):
        for i, a in enumerate(As):
            bs = [b for b in Bs if a.y == b.n and (b.y or not b.x) and not (a.d and b.d and a.d != b.d)]
            r.append(Case('ydot%s-%r' % (tag, a), ydots, a=a, bs=bs[::1 if T else 2]))
    allB = B1 + B2
    r.append(Case('zero', zero, bs=allB))
    # sums of tensors
    for (As, Bs, tag) in ((A1, B1, '1'), (A2, B2, '2'), (A3, B3, '3')):
        for i, a in enumerate(As):
            if not T and i % 3:
                continue
            a2 = [q for q in As if compat(a, q) and bool(q.y) == bool(a.y) and (q.xm, q.ym) != (a.xm, a.ym)
                  and q.x == a.x and (q.n == a.n or not q.n or not a.n)]
            b0 = [b for b in Bs if usable(a, b)]
            if not a2 or not b0:
                continue
            grp = []
            for j in range(4):
                b = b0[(7 * i + 5 * j) % len(b0)]
                b2 = [q for q in b0 if q.n == b.n and compat(b, q) and bool(q.x) == bool(b.x) and
                      bool(q.y) == bool(b.y) and (q.xm, q.ym) != (b.xm, b.ym)]
                grp.append([b])
                if b2:
                    grp.append([b, b2[j % len(b2)]])
                if len(b2) > 1:
                    grp.append([b, b2[0], b2[-1]])
            A = [a, a2[i % len(a2)]] + ([a2[-1]] if i % 2 else [])
            A = [q for k, q in enumerate(A) if all((q.xm, q.ym) != (p.xm, p.ym) for p in A[:k])]
            ok = [B for B in grp if all(not (q.d and p.d and q.d != p.d) for q in B for p in A)]
            ok = [B for B in ok if not B[0].y or not A[0].y]
            if not ok:
                continue
            r.append(Case('sums%s-%r' % (tag, a), sums, A=A, Bs=ok))
            r.append(Case('sums1%s-%r' % (tag, a), sums, A=[a], Bs=[B for B in ok if len(B) > 1] or ok))
    # longer sums: every combination of maps
    for tag, a, bs in (('1', [L(x=(2,), n=(2, 2), xm=m) for m in (None, (0,), (1,))], (2,)),
                       ('3', [L(x=(2, 2), n=(2, 2), xm=m) for m in (None, (0, -1), (1, -1), (-1, 0), (-1, 1), (0, 1), (1, 0))],
                        (2, 2))):
        mm = [None] + [(k,) for k in range(len(bs))]
        B = [L(x=(2,), y=(2,), n=bs, xm=p, ym=q) for p in mm for q in mm]
        Bx = [L(x=(2,), n=bs, xm=p) for p in mm]
        r.append(Case('sums-many-%s' % tag, sums, A=a, Bs=[B, B[::-1], Bx]))
        r.append(Case('sums-many-one-%s' % tag, sums, A=a[:1], Bs=[B]))
        r.append(Case('sums-one-many-%s' % tag, sums, A=a, Bs=[B[-1:], Bx[:1]]))
    seen, out = set(), []
    for c in r:
        if c.name not in seen:
            seen.add(c.name)
            out.append(c)
    return out
