"""C01: tensor arithmetic against dense arithmetic."""
import operator

import numpy as np

from vlib.engine import Case
from maxlike.tensor import Tensor
from checks.tlib import (L, make, align, dims, layouts, compat, mapped, cells, eq_t, canon_dense, tdims)

BOUNDS = {'quick': 'every pair of layouts with x,y axes of size 2 (at most one each), value axes (), (2,), (2,2), '
                   'extra axis () or (2,) and every diagonal map; broadcasting pairs with axes of size 1..3 and two x axes; '
                   'sums of two or three such tensors, and of up to nine with different maps; every real entry (non zero for divisors), every real scalar',
          'thorough': 'all pairs from value axes up to (2,3,2), two x and two y axes, sizes 1..3, '
                      'sums of up to three tensors on either side'}

OPS = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv)]


def pairs(env, a, bs):
    for b in bs:
        ta, da = make(env, 'a', a)
        tb, db = make(env, 'b', b, 'pos')
        D = dims(a, b)
        da, db = align(da, a, *D), align(db, b, *D)
        for on, op in OPS:
            if on == '/' and mapped(b):
                continue
            eq_t(env, '%r %s %r' % (a, on, b), op(ta, tb), op(da, db), D)


def negs(env, ls):
    for a in ls:
        ta, da = make(env, 'a', a)
        D = dims(a)
        eq_t(env, '-%r' % a, -ta, -da, D)
        eq_t(env, '%r' % a, ta, da, D)


def scalars(env, ls, c):
    """numbers and 0-d tensors on either side"""
    for a in ls:
        ta, da = make(env, 'a', a, 'pos')
        D = dims(a)
        for nm, v in (('', c), ('0d', Tensor(c))):
            for on, op in OPS:
                if not (on == '/' and c == 0):
                    eq_t(env, '%r %s %s%s' % (a, on, nm, c), op(ta, v), op(da, c), D)
                if not (on == '/' and mapped(a)):
                    eq_t(env, '%s%s %s %r' % (nm, c, on, a), op(v, ta), op(c, da), D)


def symscalar(env, a, side):
    """every real scalar: 0 and 1 are branches of the code"""
    ta, da = make(env, 'a', a, 'pos')
    c = env.arr('c')
    D = dims(a)
    for on, op in OPS:
        if side == 'right':
            if on == '/' and c == 0:
                env.raises('%r / 0' % a, ZeroDivisionError, lambda: ta / c)
                continue
            eq_t(env, '%r %s c' % (a, on), op(ta, c), op(da, c), D)
        elif not (on == '/' and mapped(a)):
            eq_t(env, 'c %s %r' % (on, a), op(c, ta), op(c, da), D)


def arrays(env, a, shapes):
    """numpy arrays stand for a tensor of value axes"""
    ta, da = make(env, 'a', a, 'pos')
    for s in shapes:
        v = env.arr('v', s, 'pos')
        lv = L(n=s)
        if not compat(a, lv):
            continue
        D = dims(a, lv)
        x, y = align(da, a, *D), align(np.asarray(v), lv, *D)
        for on, op in OPS:
            eq_t(env, '%r %s array%s' % (a, on, s), op(ta, v), op(x, y), D)
            if not (on == '/' and mapped(a)):
                eq_t(env, 'array%s %s %r' % (s, on, a), op(v, ta), op(y, x), D)


def gen(env, names, lays, D):
    """sum of tensors and its dense array"""
    t, d = None, None
    for n, l in zip(names, lays):
        ti, di = make(env, n, l)
        di = align(di, l, *D)
        t = ti if t is None else t + ti
        d = di if d is None else d + di
    return t, d


def generic(env, a, bs, others):
    """sums a+b combined with a third operand"""
    for b in bs:
        for c in others:
            D = dims(a, b, c)
            g, dg = gen(env, ('a', 'b'), (a, b), D)
            tc, dc = make(env, 'c', c, 'pos')
            dc = align(dc, c, *D)
            nm = '(%r + %r)' % (a, b)
            eq_t(env, nm + ' + %r' % c, g + tc, dg + dc, D)
            eq_t(env, nm + ' - %r' % c, g - tc, dg - dc, D)
            eq_t(env, nm + ' * %r' % c, g * tc, dg * dc, D)
            if not mapped(c):
                eq_t(env, nm + ' / %r' % c, g / tc, dg / dc, D)
            eq_t(env, '%r + ' % c + nm, tc + g, dg + dc, D)
            eq_t(env, '%r - ' % c + nm, tc - g, dc - dg, D)
            eq_t(env, '%r * ' % c + nm, tc * g, dc * dg, D)
        D = dims(a, b)
        g, dg = gen(env, ('a', 'b'), (a, b), D)
        nm = '(%r + %r)' % (a, b)
        eq_t(env, '-' + nm, -g, -dg, D)
        for v in (0, 1, 2, -1.5):
            eq_t(env, nm + ' + %s' % v, g + v, dg + v, D)
            eq_t(env, '%s + ' % v + nm, v + g, dg + v, D)
            eq_t(env, nm + ' - %s' % v, g - v, dg - v, D)
            eq_t(env, '%s - ' % v + nm, v - g, v - dg, D)
            eq_t(env, nm + ' * %s' % v, g * v, dg * v, D)
            eq_t(env, '%s * ' % v + nm, v * g, dg * v, D)
            if v:
                eq_t(env, nm + ' / %s' % v, g / v, dg / v, D)
        nn = D[2]
        if nn:
            s = [max(p, q) for p, q in zip(a.n or (1,) * nn, b.n or (1,) * nn)]
            v = env.arr('v', s, 'pos')
            dv = align(np.asarray(v), L(n=s), *D)
            for on, op in OPS:
                eq_t(env, nm + ' %s array' % on, op(g, v), op(dg, dv), D)
                if on != '/':
                    eq_t(env, 'array %s ' % on + nm, op(v, g), op(dv, dg), D)


def two_generics(env, a, b, cs):
    for c, d in cs:
        D = dims(a, b, c, d)
        g, dg = gen(env, ('a', 'b'), (a, b), D)
        h, dh = gen(env, ('c', 'd'), (c, d), D)
        nm = '(%r + %r) %%s (%r + %r)' % (a, b, c, d)
        eq_t(env, nm % '+', g + h, dg + dh, D)
        eq_t(env, nm % '-', g - h, dg - dh, D)
        eq_t(env, nm % '*', g * h, dg * dh, D)
    for c, d in cs[:3]:
        D = dims(a, b, c)
        g, dg = gen(env, ('a', 'b', 'c'), (a, b, c), D)
        eq_t(env, 'three', g, dg, D)
        eq_t(env, 'three - three', g - (g + g), -dg, D)
        eq_t(env, 'three * three', g * g, dg * dg, D)


def many(env, ls, ks):
    """sums of more tensors, no two of which have the same maps"""
    D = dims(*(ls + ks))
    g, dg = gen(env, ['a%d' % i for i in range(len(ls))], ls, D)
    h, dh = gen(env, ['b%d' % i for i in range(len(ks))], ks, D)
    for on, op in OPS[:3]:
        eq_t(env, 'sum of %d %s sum of %d' % (len(ls), on, len(ks)), op(g, h), op(dg, dh), D)
        eq_t(env, 'sum of %d %s sum of %d' % (len(ks), on, len(ls)), op(h, g), op(dh, dg), D)
    eq_t(env, '-', -g, -dg, D)
    eq_t(env, '* 3', g * 3, dg * 3, D)
    eq_t(env, '/ 3', g / 3, dg / 3, D)
    eq_t(env, '2 -', 2 - g, 2 - dg, D)


UF = [('add', operator.add), ('subtract', operator.sub), ('multiply', operator.mul), ('divide', operator.truediv)]


def ufuncs(env, ls, bs):
    """numpy's functions spelled out, tensors first or second"""
    for i, a in enumerate(ls):
        ta, da = make(env, 'a', a, 'pos')
        for nm, v in (('array', env.arr('v', a.n, 'pos')), ('number', 2.5), ('0d', env.arr('c', (), 'pos'))):
            lv = L(n=np.shape(v))
            D = dims(a, lv)
            x, y = align(da, a, *D), align(np.asarray(v), lv, *D) if np.ndim(v) else v
            for un, op in UF:
                uf = getattr(np, un)
                eq_t(env, '%s(%r, %s)' % (un, a, nm), uf(ta, v), op(x, y), D)
                if not (un == 'divide' and mapped(a)):
                    eq_t(env, '%s(%s, %r)' % (un, nm, a), uf(v, ta), op(y, x), D)
        for b in bs:
            if not compat(a, b):
                continue
            D = dims(a, b)
            tb, db = make(env, 'b', b, 'pos')
            x, y = align(da, a, *D), align(db, b, *D)
            for un, op in UF:
                if not (un == 'divide' and mapped(b)):
                    eq_t(env, '%s(%r, %r)' % (un, a, b), getattr(np, un)(ta, tb), op(x, y), D)
            g, dg = ta + tb, x + y
            lv = L(n=(2, 2) if D[2] else ())
            v = env.arr('w', lv.n, 'pos')
            E = dims(L((2,) * D[0], (2,) * D[1], (2,) * D[2], (2,) * D[3]), lv)
            w = align(np.asarray(v), lv, *E) if lv.n else v
            for un, op in UF:
                eq_t(env, '%s(%r + %r, array)' % (un, a, b), getattr(np, un)(g, v), op(dg, w), E)
                if un != 'divide':
                    eq_t(env, '%s(array, %r + %r)' % (un, a, b), getattr(np, un)(v, g), op(w, dg), E)


def base():
    return layouts([(), (2,)], [(), (2,)], [(), (2,), (2, 2)], [(), (2,)])


def broad():
    r = layouts([(), (3,)], [(), (2,)], [(1, 3), (2, 1), (2, 3), (1, 1)], [(), (1,)])
    r += layouts([(1,), (3,)], [()], [(3,), (1,)], [(2,), (1,)])
    return r


def twox():
    return layouts([(2, 3), (2, 1)], [(), (2,)], [(), (2, 3), (3, 2)], [()]) + \
        layouts([(2, 2)], [(2, 2), ()], [(2, 2)], [()])


def cases(tier):
    T = tier == 'thorough'
    r = []
    bs = base()
    nm = lambda l: repr(l)
    for a in bs:
        r.append(Case('pairs-%s' % nm(a), pairs, a=a, bs=[b for b in bs if compat(a, b)]))
    for tag, ls, lim in (('broad', broad(), 150), ('twox', twox(), 150)):
        if T:
            ls = ls + [l for l in layouts([(3,), (1,)], [(3,), ()], [(3, 3), (2, 3, 2), (3,)], [(), (2,)])
                       if cells(l) <= 300]
            lim = 600
        for a in ls:
            ok = [b for b in ls if compat(a, b) and cells(a, b) <= lim]
            if not T:
                ok = ok[(ls.index(a) % 3)::3]
            r.append(Case('%s-%s' % (tag, nm(a)), pairs, a=a, bs=ok))
    allL = bs + broad() + twox()
    for k in range(0, len(allL), 12):
        r.append(Case('neg-%d' % k, negs, ls=allL[k:k + 12]))
        for c in (0, 1, -1, 2, 0.5):
            r.append(Case('scalar%s-%d' % (c, k), scalars, ls=allL[k:k + 12], c=c))
    for a in allL[::1 if T else 7]:
        for side in ('left', 'right'):
            r.append(Case('symscalar-%s-%s' % (side, nm(a)), symscalar, a=a, side=side))
    for k, a in enumerate(allL):
        if T or k % 3 == 0:
            shapes = {1: [(1,), (2,), (3,)], 2: [(1, 1), (2, 2), (2, 1), (1, 3), (2, 3), (3, 2)],
                      0: [(2,), (2, 2), (1,)]}[len(a.n)]
            r.append(Case('array-%s' % nm(a), arrays, a=a, shapes=shapes))
    ul = [l for l in bs if len(l.n) != 1]
    for k in range(0, len(ul), 4):
        r.append(Case('ufunc-%d' % k, ufuncs, ls=ul[k:k + 4], bs=ul if T else ul[(k // 4) % 5::5]))
    # sums of tensors
    gl = [l for l in bs if len(l.n) != 1 and not l.d] + [L(n=(2, 2), d=(2,)), L(x=(2,), n=(2, 2), d=(2,), xm=(1,))]
    oth = [L(n=(2, 2)), L(x=(2,), y=(2,), n=(2, 2), xm=(0,)), L(x=(2,), y=(2,), n=(2, 2), xm=(1,), ym=(1,)),
           L(x=(2,)), L(y=(2,), n=(2, 2), d=(2,), ym=(0,)), L(x=(2,), y=(2,))]
    for a in gl:
        ok = [b for b in gl if compat(a, b) and (a.xm != b.xm or a.ym != b.ym)]
        if not T:
            ok = ok[gl.index(a) % 3::3]
        r.append(Case('generic-%s' % nm(a), generic, a=a, bs=ok, others=oth if T else oth[gl.index(a) % 2::2]))
    ml = [l for l in gl if mapped(l)]
    for i, a in enumerate(ml):
        b = ml[(i * 5 + 3) % len(ml)]
        if (a.xm, a.ym) == (b.xm, b.ym):
            b = ml[(i * 5 + 4) % len(ml)]
        cs = [(ml[(i + j) % len(ml)], ml[(i * 3 + 2 * j + 1) % len(ml)]) for j in range(8 if T else 3)]
        r.append(Case('generic2-%d' % i, two_generics, a=a, b=b, cs=cs))
    full = sorted({(l.xm, l.ym): l for l in ml if l.x and l.y and len(l.n) == 2 and not l.d}.items(), key=repr)
    full = [l for _, l in full]
    for k, (m, n) in enumerate([(5, 4), (6, 3), (len(full), 2), (3, 7)]):
        r.append(Case('many-%d' % k, many, ls=(full[k:] + full[:k])[:m], ks=(full[2 * k:] + full[:2 * k])[:n]))
    bl = [l for l in broad() if l.n and (l.x or l.y)]
    for i, a in enumerate(bl[::1 if T else 2]):
        ok = [b for b in bl if compat(a, b) and (a.xm, a.ym) != (b.xm, b.ym)][i % 4::4][:8 if T else 3]
        if not ok:
            continue
        oc = [c for c in bl if compat(a, c) and all(compat(b, c) for b in ok)][:3]
        r.append(Case('genericb-%s' % nm(a), generic, a=a, bs=ok, others=oc))
    seen, out = set(), []
    for c in r:
        if c.name not in seen:
            seen.add(c.name)
            out.append(c)
    return out
