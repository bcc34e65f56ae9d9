"""The catalogue of function-algebra expressions used by C06, C07 and C08."""
import itertools

import numpy as np

from maxlike.func import Exp, Log, Logistic, ArcTan
from checks.expr import (u, ul, x_, scalar, vector, constant, elem, linear, quadratic, sum_, prod_, wrap, aff, comp, coll)
from checks.smath import exp, log, expit, atan

V, W = (2,), (3,)


def E_(e, shape):
    """a constant as a function of one parameter"""
    e.pshapes = [shape]
    return e


def catalogue(tier):
    T = tier == 'thorough'
    c = {}

    def reg(name, dom='real'):
        def f(fn):
            assert name not in c, name
            c[name] = (fn, dom)
            return fn
        return f

    def add(name, fn, dom='real'):
        assert name not in c, name
        c[name] = (fn, dom)

    # ------------------------------------------------------------ Sum
    add('sum-x-x', lambda env: sum_([(x_(2), 0, 0), (x_(3), 1, 1)], 2, [V, W]))
    add('sum-1', lambda env: sum_([(u(env, 'f', [V, ()], V), [0, 1], 0)], 2, [V, ()]))
    for cls, nm in ((u, 'uf'), (ul, 'lin')):
        add('sum-%s-maps' % nm, lambda env, cls=cls: sum_(
            [(cls(env, 'f', [V, W], (2, 3)), [0, 1], [0, 1]),
             (cls(env, 'g', [W, V], (3, 2)), [1, 0], [1, 0])], 2, [V, W]))
        add('sum-%s-diag' % nm, lambda env, cls=cls: sum_(
            [(cls(env, 'f', [V, W], (2, 3), pmaps=[(0,), (1,)]), [0, 1], [0, 1]),
             (cls(env, 'g', [V, ()], V, pmaps=[(0,), None]), [0, 2], 0)], 2, [V, W, ()]))
        add('sum-%s-diag-swapped' % nm, lambda env, cls=cls: sum_(
            [(cls(env, 'f', [V, W], (2, 3), pmaps=[(0,), (1,)]), [0, 1], [1, 2]),
             (cls(env, 'g', [W, V], (3, 2), pmaps=[(0,), (1,)]), [1, 0], [2, 1])], 3, [V, W]))
        add('sum-%s-matrixparam' % nm, lambda env, cls=cls: sum_(
            [(cls(env, 'f', [(2, 3)], (2, 3), pmaps=[(0, 1)]), 0, [0, 1]),
             (cls(env, 'g', [(2, 3)], (3, 2), pmaps=[(1, 0)]), 0, [1, 0])], 2, [(2, 3)]))
        add('sum-%s-partdiag' % nm, lambda env, cls=cls: sum_(
            [(cls(env, 'f', [(2, 3)], (2,), pmaps=[(0, -1)]), 0, [0])], 2, [(2, 3)]))
    add('sum-absent', lambda env: sum_(
        [(u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0), (scalar(), 2, None)], 2, [V, W, ()]))
    add('sum-gap', lambda env: sum_(
        [(u(env, 'f', [V, ()], V, pmaps=[(0,), None]), [0, 2], 1)], 2, [V, W, ()]))
    add('sum-reversed-params', lambda env: sum_(
        [(u(env, 'f', [(), V], V, pmaps=[None, (0,)]), [1, 0], 0)], 2, [V, ()]))
    add('sum-reversed-three', lambda env: sum_(
        [(u(env, 'f', [(), V, W], (2, 3), pmaps=[None, (0,), (1,)]), [2, 0, 1], [0, 1])], 2, [V, W, ()]))
    add('sum-repeated-param', lambda env: sum_(
        [(u(env, 'f', [V, V], (2, 2), pmaps=[(0,), (1,)]), [0, 0], [0, 1])], 2, [V]))
    add('sum-repeated-full', lambda env: sum_(
        [(u(env, 'f', [V, V], V), [1, 1], [0])], 1, [(), V]))
    add('sum-same-axis', lambda env: sum_(
        [(x_(2), 0, 0), (x_(2), 1, 0), (x_(2), 0, 1)], 2, [V, V]))
    add('sum-crossfeat', lambda env: sum_(
        [(x_(2), 0, 0), (aff(x_(2), '-f'), 0, 1)], 2, [V]))
    add('sum-scalars', lambda env: sum_([(scalar(), 0, None), (u(env, 'f', [(), ()], ()), [0, 1], [])],
                                        1, [(), ()]))
    for w in ('sym', 0, 1, -1, 2.5):
        add('sum-weight-%s' % w, lambda env, w=w: sum_(
            [(u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0, None, env.var('w') if w == 'sym' else w),
             (u(env, 'g', [()], W), 1, 1, None, env.var('w2') if w == 'sym' else w),
             (scalar(), 1, None, None, 3)], 2, [V, ()]))
    add('sum-constant', lambda env: sum_(
        [(constant(env, 'k', (3,)), [], 1), (x_(2), 0, 0)], 2, [V]))
    add('sum-vector', lambda env: sum_(
        [(vector(env, 'k', 3), 1, 1), (x_(2), 0, 0), (vector(env, 'm', 2), 1, 0)], 2, [V, ()]))
    add('sum-dim', lambda env: sum_(
        [(u(env, 'f', [V], V, (3,), pmaps=[(0,)]), 0, 0, 0), (u(env, 'g', [()], (), (3,)), 1, [], [0])],
        1, [V, ()], 1))
    add('sum-dims', lambda env: sum_(
        [(u(env, 'f', [V], V, (3,), pmaps=[(0,)]), 0, 0, 1), (u(env, 'g', [()], (2,), (2,)), 1, 1, 0)],
        2, [V, ()], 2))
    add('sum-dims-swap', lambda env: sum_(
        [(u(env, 'f', [()], (2,), (2, 3)), 0, 0, [0, 1]), (u(env, 'g', [()], (), (3, 2)), 0, None, [1, 0])],
        1, [()], 2))
    add('sum-size1', lambda env: sum_(
        [(x_(1), 0, 0), (u(env, 'f', [(1,)], (1, 2), pmaps=[(0,)]), 0, [0, 1])], 2, [(1,)]))

    # ------------------------------------------------------------ nested sums / affine
    s12 = lambda env: sum_([(x_(2), 0, 0), (aff(x_(3), '-f'), 1, 1)], 2, [V, W])
    add('sum-of-sum', lambda env: sum_([(s12(env), [0, 1], [0, 1]), (scalar(), 2, None)], 3, [V, W, ()]))
    add('sum-of-sum-swap', lambda env: sum_(
        [(sum_([(u(env, 'f', [V, ()], V, pmaps=[(0,), None]), [1, 0], 0), (u(env, 'g', [()], W), 0, 1)],
               2, [(), V]), [2, 0], [1, 2])], 3, [V, W, ()]))
    add('sum-of-sum-weights', lambda env: sum_(
        [(sum_([(u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0, None, env.var('w')), (scalar(), 1, None, None, 2)],
               1, [V, ()]), [0, 1], [1], None, env.var('v'))], 2, [V, ()]))
    add('sum-of-sum-of-sum', lambda env: sum_(
        [(sum_([(sum_([(x_(2), 0, 0), (u(env, 'f', [()], ()), 1, None)], 1, [V, ()]), [0, 1], [1], None, 3),
                (x_(3), 2, 0)], 2, [V, (), W]), [0, 2, 1], [1, 0], None, env.var('v'))],
        2, [V, W, ()]))
    add('sum-of-affine', lambda env: sum_(
        [(aff(x_(2), 'A', env.var('a'), env.var('b')), 0, 0), (aff(x_(3), 'b-f', b=env.var('e')), 1, 1)],
        2, [V, W]))
    add('sum-of-affine-weight', lambda env: sum_(
        [(aff(u(env, 'f', [V], V, pmaps=[(0,)]), 'A', env.var('a'), env.var('b')), 0, 0, None, env.var('w'))],
        1, [V]))
    add('sum-of-affine-sum', lambda env: sum_(
        [(aff(s12(env), 'A', env.var('a'), env.var('b')), [0, 1], [1, 0], None, env.var('w'))], 2, [V, W]))
    add('sum-of-sum-offset', lambda env: sum_(
        [(sum_([(aff(x_(2), 'f+b', b=env.var('b')), 0, 0)], 1, [V]), 0, 1, None, env.var('w')),
         (x_(3), 1, 0)], 2, [V, W]))
    add('sum-of-sum-dim', lambda env: sum_(
        [(sum_([(u(env, 'f', [V], V, (2,), pmaps=[(0,)]), 0, 0, 1), (u(env, 'g', [()], (), (3,)), 1, None, 0)],
               1, [V, ()], 2), [0, 1], [1], [1, 0])], 2, [V, ()], 2))
    add('sum-of-sum-nodim', lambda env: sum_(
        [(sum_([(x_(2), 0, 0)], 1, [V]), 0, 0, []), (u(env, 'g', [()], (), (3,)), 1, None, [0])],
        1, [V, ()], 1))

    # ------------------------------------------------------------ Affine
    for how in ('f+b', 'b+f', 'f-b', 'b-f', '-f', 'f*a', 'a*f', 'A'):
        add('affine %s' % how, lambda env, how=how: aff(
            u(env, 'f', [V, ()], V, pmaps=[(0,), None]), how, env.var('a'), env.var('b')))
        add('affine-lin %s' % how, lambda env, how=how: aff(x_(2), how, env.var('a'), env.var('b')))
        add('affine-full %s' % how, lambda env, how=how: aff(
            u(env, 'f', [V, ()], W, (2,)), how, env.var('a'), env.var('b')))
        add('affine-const %s' % how, lambda env, how=how: aff(
            cst(env), how, env.var('a'), env.var('b')))
    for a, b in itertools.product(('f+b', 'b-f', '-f', 'a*f', 'A'), repeat=2):
        add('affine %s . %s' % (a, b), lambda env, a=a, b=b: aff(aff(
            u(env, 'f', [V], V, pmaps=[(0,)]), a, env.var('a'), env.var('b')), b, env.var('c'), env.var('d')))
    for how in ('A1', 'Ab', 'Aa'):
        add('affine %s' % how, lambda env, how=how: aff(
            u(env, 'f', [V, ()], V, pmaps=[(0,), None]), how, env.var('a'), env.var('b')))
    # quotients
    add('affine f/a', lambda env: aff(u(env, 'f', [V, ()], V, pmaps=[(0,), None]), 'f/a', env.var('a', 'pos')))
    add('affine-lin f/a', lambda env: aff(x_(2), 'f/a', env.var('a', 'pos')))
    add('affine-const f/a', lambda env: aff(cst(env), 'f/a', env.var('a', 'pos')))
    add('affine f/-4', lambda env: aff(u(env, 'f', [V, ()], W, (2,)), 'f/a', -4))
    add('affine f/a . f+b', lambda env: aff(aff(
        u(env, 'f', [V], V, pmaps=[(0,)]), 'f+b', b=env.var('b')), 'f/a', env.var('a', 'pos')))
    add('affine b-f . f/a', lambda env: aff(aff(
        u(env, 'f', [V], V, pmaps=[(0,)]), 'f/a', env.var('a', 'pos')), 'b-f', b=env.var('b')))
    add('sum-of-quotient', lambda env: sum_(
        [(aff(u(env, 'f', [V], V, pmaps=[(0,)]), 'f/a', env.var('a', 'pos')), 0, 0), (x_(3), 1, 1)], 2, [V, W]))
    for k in (0, 1, -1):
        add('affine %d' % k, lambda env, k=k: aff(u(env, 'f', [V], V, pmaps=[(0,)]), 'A', k, k))
        add('affine-offset %d' % k, lambda env, k=k: aff(u(env, 'f', [V], V, pmaps=[(0,)]), 'f+b', b=k))

    # ------------------------------------------------------------ Product
    add('prod-x-x', lambda env: prod_([(x_(2), 0, 0), (x_(3), 1, 1)], 2, [V, W]))
    add('prod-three', lambda env: prod_(
        [(x_(2), 0, 0), (u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0), (scalar(), 1, None)], 1, [V, ()]))
    add('prod-diag', lambda env: prod_(
        [(u(env, 'f', [V, W], (2, 3), pmaps=[(0,), (1,)]), [0, 1], [0, 1]),
         (u(env, 'g', [V], V, pmaps=[(0,)]), 0, 0)], 2, [V, W]))
    add('prod-shared-diffmap', lambda env: prod_(
        [(x_(2), 0, 0), (x_(2), 0, 1)], 2, [V]))
    add('prod-mixed', lambda env: prod_(
        [(u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0), (u(env, 'g', [V], W), 0, 1)], 2, [V]))
    add('prod-full', lambda env: prod_(
        [(u(env, 'f', [V, ()], V), [0, 1], 0), (u(env, 'g', [V], W), 0, 1)], 2, [V, ()]))
    add('prod-const', lambda env: prod_(
        [(constant(env, 'k', (3,)), [], 1), (x_(2), 0, 0)], 2, [V]))
    add('prod-const-scalar', lambda env: prod_([(constant(env, 'k', (2,)), None, 0), (scalar(), 0, None)], 1, [()]))
    add('prod-one', lambda env: prod_([(u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0)], 1, [V]))
    add('prod-lin-lin', lambda env: prod_(
        [(ul(env, 'f', [V, ()], V, pmaps=[(0,), None]), [0, 1], 0), (ul(env, 'g', [V, ()], W), [0, 1], 1)],
        2, [V, ()]))
    add('prod-absent', lambda env: prod_([(x_(2), 0, 0), (scalar(), 2, None)], 1, [V, W, ()]))
    add('prod-reversed', lambda env: prod_(
        [(u(env, 'f', [(), V], V, pmaps=[None, (0,)]), [1, 0], 0), (scalar(), 1, None)], 1, [V, ()]))
    add('prod-repeated', lambda env: prod_(
        [(u(env, 'f', [(), ()], ()), [0, 0], None), (x_(2), 1, 0)], 1, [(), V]))
    add('prod-matrix', lambda env: prod_(
        [(u(env, 'f', [(2, 3)], (2, 3), pmaps=[(0, 1)]), 0, [0, 1]), (x_(2), 1, 0)], 2, [(2, 3), V]))
    add('prod-dim', lambda env: prod_(
        [(u(env, 'f', [V], V, (3,), pmaps=[(0,)]), 0, 0, 0), (u(env, 'g', [()], (), (2,)), 1, [], [1])],
        1, [V, ()], 2))
    add('prod-of-prod', lambda env: prod_(
        [(prod_([(x_(2), 0, 0), (u(env, 'f', [()], W), 1, 1)], 2, [V, ()]), [0, 2], [1, 2]), (x_(2), 1, 0)],
        3, [V, V, ()]))
    add('prod-of-prod-swap', lambda env: prod_(
        [(prod_([(u(env, 'f', [V, ()], V, pmaps=[(0,), None]), [1, 0], 0), (u(env, 'g', [()], W), 0, 1)],
                2, [(), V]), [1, 0], [1, 0])], 2, [V, ()]))
    add('prod-of-prod-dim', lambda env: prod_(
        [(prod_([(u(env, 'f', [V], V, (2,), pmaps=[(0,)]), 0, 0, 1), (u(env, 'g', [()], (), (3,)), 1, [], 0)],
                1, [V, ()], 2), [0, 1], [1], [1, 0])], 2, [V, ()], 2))
    add('prod-of-sum', lambda env: prod_(
        [(s12(env), [0, 1], [0, 1]), (scalar(), 2, None)], 2, [V, W, ()]))
    add('prod-of-sum-offset', lambda env: prod_(
        [(aff(s12(env), 'A', env.var('a'), env.var('b')), [0, 1], [0, 1]), (aff(scalar(), '-f'), 2, None)],
        2, [V, W, ()]))
    add('prod-of-crossfeat', lambda env: prod_(
        [(sum_([(s12q(env), [0, 1], [0, 1]), (aff(s12q(env), '-f'), [0, 1], [1, 0])], 2, [V, V]), [0, 1], [0, 1]),
         (scalar(), 2, None)], 2, [V, V, ()]))
    s12q = lambda env: sum_([(x_(2), 0, 0), (aff(x_(2), '-f'), 1, 1)], 2, [V, V])
    add('sum-of-prod', lambda env: sum_(
        [(prod_([(x_(2), 0, 0), (x_(3), 1, 1)], 2, [V, W]), [0, 1], [0, 1]), (x_(2), 0, 0, None, env.var('w'))],
        2, [V, W]))
    add('poisson3-model', lambda env: poisson3(env))

    def poisson3(env):
        s = s12q(env)
        s_diff = sum_([(s, [0, 1], [0, 1]), (aff(s, '-f'), [0, 1], [1, 0])], 2, [V, V])
        hs = prod_([(scalar(), 2, None), (s_diff, [0, 1], [0, 1])], 2, [V, V, ()])
        h_diff = sum_([(scalar(), 2, None), (hs, [0, 1, 3], [0, 1])], 2, [V, V, (), ()])
        H = prod_([(constant(env, 'k', (2,)), [], 2), (h_diff, [0, 1, 2, 3], [0, 1])], 3, [V, V, (), ()])
        return sum_([(s, [0, 1], [0, 1]), (H, [0, 1, 2, 3], [0, 1, 2])], 3, [V, V, (), ()])

    # ------------------------------------------------------------ FuncWrap
    for fl in (None, [0], [1], [0, 1], 1):
        add('wrap-flip-%s' % fl, lambda env, fl=fl: wrap(
            u(env, 'f', [(), V], (2, 3)), [0, 1], [1, 0], 2, [(), V], flip=fl))
    for fl in ([0], [1], [1, 0]):
        add('wrap-flip-sum-%s' % fl, lambda env, fl=fl: wrap(sum_(
            [(ul(env, 'f', [()], (2, 3)), 0, [0, 1]), (ul(env, 'g', [V], W), 1, 1)], 2, [(), V]),
            [1, 0], [0, 1], 2, [V, ()], flip=fl))
    add('wrap-flip-sum-diag', lambda env: wrap(sum_(
        [(x_(2), 0, 0), (u(env, 'g', [()], W), 1, 1)], 2, [V, ()]), [0, 1], [0, 1], 2, [V, ()], flip=1))
    add('wrap-flip-absent', lambda env: wrap(sum_(
        [(ul(env, 'f', [()], (2, 3)), 0, [0, 1])], 2, [(), ()]), [0, 1], [0, 1], 2, [(), ()], flip=1))
    add('wrap-maps', lambda env: wrap(
        u(env, 'f', [V, ()], V, pmaps=[(0,), None]), [1, 0], 1, 2, [(), V]))
    add('wrap-absent', lambda env: wrap(u(env, 'f', [V], V, pmaps=[(0,)]), 1, 1, 3, [W, V, ()]))
    add('wrap-lin', lambda env: wrap(ul(env, 'f', [V], V, pmaps=[(0,)]), 1, 1, 2, [W, V]))
    add('wrap-const', lambda env: wrap(constant(env, 'k', (2,)), None, 1, 2, [V]))
    add('wrap-dim', lambda env: wrap(
        u(env, 'f', [V], V, (2, 3), pmaps=[(0,)]), 0, 1, 2, [V], dm=[1, 0], D=2))
    add('wrap-nodim', lambda env: wrap(u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0, 1, [V], dm=[], D=1))
    add('wrap-dimdefault', lambda env: wrap(
        u(env, 'f', [V], V, (3,), pmaps=[(0,)]), 0, 0, 1, [V], D=1))
    add('wrap-repeated', lambda env: wrap(
        u(env, 'f', [V, V, ()], (2, 2), pmaps=[(0,), (1,), None]), [1, 1, 0], [1, 0], 2, [(), V]))
    add('wrap-of-wrap', lambda env: wrap(wrap(
        u(env, 'f', [V, ()], V, pmaps=[(0,), None]), [1, 0], 1, 2, [(), V]), [2, 0], [2, 1], 3, [V, W, ()]))

    # ------------------------------------------------------------ Compose
    add('comp-elem', lambda env: comp(elem(Exp, exp, V), [x_(2)]))
    add('comp-diag', lambda env: comp(
        u(env, 'f', [V], V, pmaps=[(0,)]), [u(env, 'g', [V, ()], V, pmaps=[(0,), None])]))
    add('comp-diag-full', lambda env: comp(
        u(env, 'f', [V], V, pmaps=[(0,)]), [u(env, 'g', [V, ()], V)]))
    add('comp-full-diag', lambda env: comp(
        u(env, 'f', [V], W), [u(env, 'g', [V, ()], V, pmaps=[(0,), None])]))
    add('comp-full-full', lambda env: comp(u(env, 'f', [V], V), [u(env, 'g', [V], V)]))
    add('comp-scalar', lambda env: comp(u(env, 'f', [()], ()), [u(env, 'g', [V, ()], ())]))
    add('comp-scalar-out', lambda env: comp(u(env, 'f', [V], ()), [u(env, 'g', [V, ()], V)]))
    add('comp-two', lambda env: comp(
        u(env, 'f', [V, V], V, pmaps=[(0,), (0,)]),
        [u(env, 'g', [V, ()], V, pmaps=[(0,), None]), u(env, 'h', [V, ()], V)]))
    add('comp-two-full', lambda env: comp(
        u(env, 'f', [V, ()], V), [ul(env, 'g', [V, ()], V), u(env, 'h', [V, ()], ())]))
    add('comp-two-vectors', lambda env: comp(
        u(env, 'f', [V, V], ()), [u(env, 'g', [V], V, pmaps=[(0,)]), u(env, 'h', [V], V, pmaps=[(0,)])]))
    add('comp-two-vectors-dense', lambda env: comp(
        u(env, 'f', [V, V], V), [u(env, 'g', [(), ()], V), u(env, 'h', [(), ()], V)]))
    add('comp-two-vectors-sizes', lambda env: comp(
        u(env, 'f', [V, W], ()), [u(env, 'g', [V], V), u(env, 'h', [V], W)]))
    add('comp-vector-scalar', lambda env: comp(
        u(env, 'f', [(), V], ()), [u(env, 'g', [V], ()), u(env, 'h', [V], V)]))
    add('comp-three-vectors', lambda env: comp(
        u(env, 'f', [V, V, V], ()), [u(env, 'g', [V], V), u(env, 'h', [V], V), ul(env, 'k', [V], V)]))
    add('comp-two-absent', lambda env: comp(
        u(env, 'f', [V, V], V, pmaps=[(0,), (0,)]),
        [sum_([(x_(2), 0, 0)], 1, [V, V]), sum_([(u(env, 'h', [V], V, pmaps=[(0,)]), 1, 0)], 1, [V, V])]))
    add('comp-three', lambda env: comp(
        u(env, 'f', [(), (), ()], ()),
        [u(env, 'g', [(), ()], ()), u(env, 'h', [(), ()], ()), ul(env, 'k', [(), ()], ())]))
    add('comp-linear-outer', lambda env: comp(
        ul(env, 'f', [V], W), [u(env, 'g', [V, ()], V, pmaps=[(0,), None])]))
    add('comp-linear-outer-two', lambda env: comp(
        ul(env, 'f', [V, W], (2, 3)), [u(env, 'g', [V, ()], V, pmaps=[(0,), None]),
                                       u(env, 'h', [V, ()], W)]))
    add('comp-x-outer', lambda env: comp(x_(2), [u(env, 'g', [V, ()], V, pmaps=[(0,), None])]))
    add('comp-linear-inner', lambda env: comp(
        u(env, 'f', [(2, 3)], (2, 3), pmaps=[(0, 1)]), [s12(env)]))
    add('comp-linear-inner-full', lambda env: comp(u(env, 'f', [(2, 3)], (2,)), [s12(env)]))
    add('comp-const-outer', lambda env: comp(constant_of(env), [u(env, 'g', [V, ()], V)]))

    def constant_of(env):
        e = constant(env, 'k', (2,))
        e.pshapes = [V]
        return e
    add('comp-const-inner', lambda env: comp(
        u(env, 'f', [V, V], V, pmaps=[(0,), (0,)]), [cst(env), x_(2)]))
    add('comp-const-only', lambda env: comp(u(env, 'f', [V], V, pmaps=[(0,)]), [cst(env)]))

    def cst(env):
        e = constant(env, 'k', (2,))
        e.pshapes = [V]
        return e
    add('comp-dim-out', lambda env: comp(
        u(env, 'f', [V], V, (3,), pmaps=[(0,)]), [u(env, 'g', [V, ()], V, pmaps=[(0,), None])]))
    add('comp-dim-out-full', lambda env: comp(
        u(env, 'f', [V, ()], V, (2,)), [u(env, 'g', [V], V, pmaps=[(0,)]), u(env, 'h', [V], ())]))
    add('comp-dim-in', lambda env: comp(
        u(env, 'f', [(2, 3)], V, pmaps=[(0, -1)]), [u(env, 'g', [V], V, (3,), pmaps=[(0,)])]))
    add('comp-dim-in-out', lambda env: comp(
        u(env, 'f', [(2, 3)], V, (2,), pmaps=[(0, -1)]), [u(env, 'g', [V, ()], V, (3,), pmaps=[(0,), None])]))
    add('comp-dim-in-two', lambda env: comp(
        u(env, 'f', [(2, 2), V], V, pmaps=[(0, -1), (0,)]),
        [u(env, 'g', [V], V, (2,), pmaps=[(0,)]), x_(2)]))
    add('comp-matrix', lambda env: comp(
        u(env, 'f', [(2, 3)], (2, 3), pmaps=[(0, 1)]),
        [u(env, 'g', [(2, 3)], (2, 3), pmaps=[(0, 1)])]))
    add('comp-matrix-full', lambda env: comp(
        u(env, 'f', [(2, 2)], V), [u(env, 'g', [V], (2, 2), pmaps=[(1,)])]))
    add('comp-nested', lambda env: comp(
        elem(Exp, exp, V), [comp(u(env, 'f', [V], V, pmaps=[(0,)]), [u(env, 'g', [V, ()], V)])]))
    add('comp-of-sum', lambda env: comp(elem(Exp, exp, (2, 3)), [s12(env)]))
    add('comp-log-sum-exp', lambda env: comp(elem(Log, log, (2, 2)), [sum_(
        [(comp(elem(Exp, exp, (2, 2)), [s12q(env)], True), [0, 1], [0, 1]),
         (comp(elem(Exp, exp, (2, 2)), [aff(s12q(env), '-f')], True), [0, 1], [1, 0])], 2, [V, V])], True))
    add('comp-logistic', lambda env: comp(elem(Logistic, expit, V), [u(env, 'g', [V], V, pmaps=[(0,)])], True))
    add('comp-arctan', lambda env: comp(elem(ArcTan, atan, V), [u(env, 'g', [()], V)], True))
    add('comp-affine', lambda env: comp(
        aff(u(env, 'f', [V], V, pmaps=[(0,)]), 'A', env.var('a'), env.var('b')),
        [aff(u(env, 'g', [V], V, pmaps=[(0,)]), 'b-f', b=env.var('c'))], True))
    add('comp-sum-outer', lambda env: comp(
        sum_([(u(env, 'f', [V], V, pmaps=[(0,)]), 0, 0), (x_(3), 1, 1)], 2, [V, W]),
        [u(env, 'g', [V, ()], V, pmaps=[(0,), None]), u(env, 'h', [V, ()], W)]))
    add('comp-prod-outer', lambda env: comp(
        prod_([(x_(2), 0, 0), (x_(2), 1, 0)], 1, [V, V]),
        [u(env, 'g', [V, ()], V, pmaps=[(0,), None]), u(env, 'h', [V, ()], V)]))
    add('sum-of-comp', lambda env: sum_(
        [(comp(elem(Exp, exp, V), [u(env, 'f', [V, ()], V)], True), [0, 1], 1), (x_(2), 0, 0)], 2, [V, ()]))
    add('sum-of-comp-lin', lambda env: sum_(
        [(comp(ul(env, 'f', [V], V, pmaps=[(0,)]), [x_(2)]), 0, 0),
         (comp(x_(2), [aff(x_(2), '-f')], True), 0, 1)], 2, [V]))
    add('prod-of-comp', lambda env: prod_(
        [(comp(elem(Exp, exp, V), [u(env, 'f', [V, ()], V)], True), [0, 1], 1),
         (aff(x_(2), '-f'), 0, 0)], 2, [V, ()]))

    # ------------------------------------------------------------ Collapse
    f22 = lambda env: u(env, 'f', [V, ()], (2, 3), (2,), pmaps=[(0,), None])
    for sv, sd in ((True, True), (True, False), (False, True), ([0], False), ([1], True), ([0, 1], False),
                   (0, True), (False, False)):
        add('coll-%s-%s' % (sv, sd), lambda env, sv=sv, sd=sd: coll(f22(env), sv, sd))
        add('coll-sum-%s-%s' % (sv, sd), lambda env, sv=sv, sd=sd: coll(sum_(
            [(u(env, 'f', [V], V, (2,), pmaps=[(0,)]), 0, 0, 0), (u(env, 'g', [()], (3,)), 1, 1, [])],
            2, [V, ()], 1), sv, sd))
    add('coll-default', lambda env: coll(f22(env), args=False))
    add('coll-lin', lambda env: coll(ul(env, 'f', [V, ()], V, pmaps=[(0,), None])))
    add('coll-x', lambda env: coll(x_(3)))
    add('coll-const', lambda env: coll(cst(env)))
    add('coll-sum', lambda env: coll(s12(env)))
    add('coll-prod', lambda env: coll(prod_([(x_(2), 0, 0), (x_(3), 1, 1)], 2, [V, W])))
    add('coll-prod-axis', lambda env: coll(prod_([(x_(2), 0, 0), (x_(3), 1, 1)], 2, [V, W]), [1]))
    add('coll-absent', lambda env: coll(sum_([(x_(2), 0, 0)], 1, [V, W])))
    add('coll-affine', lambda env: coll(aff(s12(env), 'A', env.var('a', 'pos'), env.var('b'))))
    add('coll-comp', lambda env: coll(comp(elem(Exp, exp, (2, 3)), [s12(env)])))
    add('comp-of-coll', lambda env: comp(elem(Exp, exp, ()), [coll(s12(env))]))
    add('sum-of-coll', lambda env: sum_([(coll(s12(env)), [0, 1], None), (x_(2), 0, 0)], 1, [V, W]))

    # ------------------------------------------------------------ the functions of constraints and penalties
    # more terms, factors and inner functions than any of the above
    add('prod-four', lambda env: prod_(
        [(x_(2), 0, 0), (u(env, 'f', [()], W), 1, 1), (u(env, 'g', [W], W, pmaps=[(0,)]), 2, 1), (x_(2), 3, 0)],
        2, [V, (), W, V]))
    add('prod-five', lambda env: prod_(
        [(u(env, 'f%d' % k, [V], V, pmaps=[(0,)]), k % 3, 0) for k in range(5)], 1, [V, V, V]))
    add('prod-four-one-param', lambda env: prod_(
        [(u(env, 'f%d' % k, [V], V, pmaps=[(0,)]), 0, 0) for k in range(4)], 1, [V]))
    add('prod-of-prods-four', lambda env: prod_(
        [(prod_([(u(env, 'f', [()], V), 0, 0), (x_(2), 1, 0)], 1, [(), V]), [0, 1], 1),
         (prod_([(u(env, 'g', [()], W), 1, 0), (x_(3), 0, 0)], 1, [W, ()]), [2, 0], 0)], 2, [(), V, W]))
    add('sum-five', lambda env: sum_(
        [(x_(2), 0, 0), (u(env, 'f', [()], W), 1, 1), (u(env, 'g', [W], W, pmaps=[(0,)]), 2, 1), (x_(2), 3, 0),
         (scalar(), 4, None, None, env.var('w'))], 2, [V, (), W, V, ()]))
    add('sum-of-sums-five', lambda env: sum_(
        [(s12(env), [0, 1], [0, 1], [], 2), (s12(env), [2, 3], [0, 1], [], -3),
         (sum_([(x_(2), 0, 0), (scalar(), 1, None)], 1, [V, ()]), [0, 4], 0)], 2, [V, W, V, W, ()]))
    add('sum-nine', lambda env: sum_(
        [(x_(2), k, 0) if k % 2 else (u(env, 'f%d' % k, [()], V), 8 - k, 0, None, k + 1) for k in range(9)],
        1, [(), V] * 4 + [()]))
    add('prod-seven', lambda env: prod_([(x_(2), k // 2, k % 2) for k in range(7)], 2, [V] * 4))
    add('wrap-five-repeated', lambda env: wrap(
        u(env, 'f', [(), (), (), (), ()], ()), [1, 1, 1, 1, 1], None, 1, [V, ()]))
    add('wrap-six-repeated', lambda env: wrap(
        u(env, 'f', [(), (), (), (), (), ()], ()), [1, 0, 1, 0, 1, 1], None, 0, [(), ()]))
    add('wrap-eight-params', lambda env: wrap(
        u(env, 'f', [(), V, ()], V, pmaps=[None, (0,), None]), [6, 7, 0], 1, 2, [()] * 7 + [V]))
    add('comp-six-vectors', lambda env: comp(
        u(env, 'f', [V] * 6, V, pmaps=[(0,)] * 6), [u(env, 'g%d' % k, [()], V) for k in range(6)]))
    add('comp-three-mixed', lambda env: comp(
        u(env, 'f', [V, V, ()], V, pmaps=[(0,), (0,), None]),
        [u(env, 'g', [V, ()], V, pmaps=[(0,), None]), u(env, 'h', [V, ()], V, pmaps=[(0,), None]),
         u(env, 'k', [V, ()], ())]))
    add('wrap-four', lambda env: wrap(
        u(env, 'f', [(), V, (), V], V, pmaps=[None, (0,), None, (0,)]), [2, 1, 3, 0], 1, 2, [V, V, (), ()]))
    for nm, atom in (('linear', linear), ('quadratic', quadratic)):
        one = lambda env, atom=atom: atom(env, 'l', [V])
        two = lambda env, atom=atom: atom(env, 'l', [V, ()])
        mix = lambda env, one=one: sum_([(x_(3), 1, 0), (one(env), 0, None)], 1, [V, W])
        add(nm, two)
        add(nm + '-sum', lambda env, one=one, two=two: sum_([(one(env), 0, None), (two(env), [2, 1], None)], 0, [V, (), V]))
        add(nm + '-sum-feat', mix)
        add(nm + '-sum-weight', lambda env, two=two: sum_([(x_(2), 0, 0), (two(env), [0, 1], None, None, env.var('w'))], 1,
                                                          [V, ()]))
        add(nm + '-prod', lambda env, one=one: prod_([(x_(3), 1, 0), (one(env), 0, [])], 1, [V, W]))
        add(nm + '-prod-both', lambda env, one=one, two=two: prod_([(one(env), 0, []), (two(env), [0, 1], [])], 0, [V, ()]))
        add(nm + '-coll', lambda env, mix=mix: coll(mix(env)))
        add(nm + '-coll-self', lambda env, two=two: coll(two(env)))
        add(nm + '-wrap', lambda env, two=two: wrap(two(env), [1, 0], [], 1, [(), V]))
        add(nm + '-exp', lambda env, two=two: comp(elem(Exp, exp, ()), [two(env)]))
        add(nm + '-of-uf', lambda env, atom=atom: comp(atom(env, 'l', [V, ()]), [
            u(env, 'g', [V, ()], V, pmaps=[(0,), None]), u(env, 'h', [V, ()], ())]))
        add(nm + '-in-uf', lambda env, two=two: comp(u(env, 'f', [()], ()), [two(env)]))
        add(nm + '-of-self', lambda env, atom=atom, two=two: comp(atom(env, 'k', [()]), [two(env)]))
        for how in ('f+b', 'b+f', 'f-b', 'b-f', '-f', 'f*a', 'a*f', 'A'):
            add('%s-aff-%s' % (nm, how), lambda env, two=two, how=how: aff(two(env), how, env.var('a'), env.var('b')))
        add(nm + '-aff-sum', lambda env, one=one: sum_([(aff(one(env), 'f-b', b=env.var('b')), 0, None), (x_(3), 1, 0)], 1, [V, W]))
        add(nm + '-aff-wrap', lambda env, two=two: wrap(aff(two(env), 'A', env.var('a'), env.var('b')), [1, 0], [], 1, [(), V]))
        add(nm + '-aff-comp', lambda env, atom=atom: comp(aff(atom(env, 'l', [V]), 'f-b', b=env.var('b')),
                                                          [u(env, 'g', [V, ()], V)]))
    add('aff-x', lambda env: aff(x_(2), 'A', env.var('a'), env.var('b')))
    add('aff-scalar', lambda env: aff(scalar(), 'f-b', b=env.var('b')))
    add('aff-vector', lambda env: aff(vector(env, 'v', 3), 'b-f', b=env.var('b')))
    add('aff-constant', lambda env: aff(cst(env), 'A', env.var('a'), env.var('b')))
    add('wrap-x', lambda env: wrap(x_(2), 0, 1, 2, [V]))
    add('wrap-constant', lambda env: wrap(cst(env), [], [0, 1][:cst(env).nf], 2, [V]))
    add('comp-aff-x', lambda env: comp(aff(x_(2), '-f'), [u(env, 'g', [V], V, pmaps=[(0,)])]))
    add('comp-x-one', lambda env: comp(x_(2), [u(env, 'g', [V], V)]))
    add('comp-x-x', lambda env: comp(x_(2), [comp(x_(2), [u(env, 'g', [V], V, pmaps=[(0,)])])]))
    add('comp-constant', lambda env: comp(E_(cst(env), V), [x_(2)]))
    add('aff-comp-constant', lambda env: aff(comp(E_(cst(env), V), [u(env, 'g', [V, ()], V)]), 'A', env.var('a'), env.var('b')))

    # ------------------------------------------------------------ generated nestings
    if True:
        for e in generated(4 if not T else 24):
            add(*e)
    return c


def generated(n):
    """systematic random nestings (fixed seeds: the shapes of the expressions are
    bounds, their parameters and components stay symbolic)"""
    import random
    out = []
    for k in range(n):
        out.append(('gen-%d' % k, lambda env, k=k: gen(env, random.Random('gen%d' % k))))
    return out


def gen(env, rng):
    cnt = [0]
    P = [V, W, ()]
    sizes = [2, 3]

    def atom(fe, ps):
        """component with value axes of sizes `fe`, of some of the parameters ps"""
        cnt[0] += 1
        k = rng.randint(1, len(ps))
        pm = rng.sample(range(len(ps)), k)
        maps = []
        for i in pm:
            s = ps[i]
            ax = [a for a, z in enumerate(fe) if s and z == s[0]]
            maps.append((rng.choice(ax),) if ax and rng.random() < .7 else None)
        f = (ul if rng.random() < .4 else u)(env, 'f%d' % cnt[0], [ps[i] for i in pm], fe, pmaps=maps)
        return f, pm

    def build(fe, depth):
        r = rng.random()
        if depth == 0:
            f, pm = atom(fe, P)
            return sum_([(f, pm, list(range(len(fe))))], len(fe), P)
        if r < .3:
            terms = []
            for _ in range(2):
                sub, fm = part(fe, depth)
                terms.append((sub, [0, 1, 2], fm, None, rng.choice([1, -1, 2, env.var('w%d' % cnt[0])])))
            return sum_(terms, len(fe), P)
        if r < .6:
            terms = []
            for _ in range(2):
                sub, fm = part(fe, depth)
                terms.append((sub, [0, 1, 2], fm))
            return prod_(terms, len(fe), P)
        if r < .8:
            cnt[0] += 1
            return aff(build(fe, depth - 1), rng.choice(['f+b', 'b-f', '-f', 'a*f']),
                       env.var('a%d' % cnt[0]), env.var('b%d' % cnt[0]))
        cnt[0] += 1
        o = u(env, 'o%d' % cnt[0], [fe], fe, pmaps=[tuple(range(len(fe))) or None])
        return comp(o, [build(fe, depth - 1)])

    def part(fe, depth):
        ax = sorted(rng.sample(range(len(fe)), rng.randint(1, len(fe))))
        if rng.random() < .4:
            rng.shuffle(ax)
        return build(tuple(fe[a] for a in ax), depth - 1), ax

    return build((2, 3), 2)
