"""C21: preprocessing."""
import itertools

import numpy as np
import pandas as pd

from maxlike import preprocessing as PP
from vlib import sym as S
from vlib.engine import Case, Infeasible

BOUNDS = {'quick': 'every real value and weight of 0-4 observations (1-level index), 0-4 (2 levels, every assignment of 3 '
                   'observations to a 2 x 2 and of 4 to a 2 x 2 grid up to first label), 3 (3 levels); text, integer, date and '
                   'unsorted labels, named and unnamed levels; extra labels new, repeated, for one level or all; '
                   'up to 30 observations with given labels, up to 6 levels; aggregations sum, sum of squares, mean, count, last; df_count sizes 2-4 on 1-3 arbitrary values, 21 and 60 on one',
          'thorough': 'every assignment of 4 observations to a 2 x 3 grid; df_count to size 5'}
ASSUMPTIONS = ['every label of an index level is used (pandas keeps the labels of dropped rows)',
               'the aggregation functions are applied by pandas']

AGG = {'sum': (np.sum, lambda v: sum(v[1:], v[0])),
       'text': ('sum', lambda v: sum(v[1:], v[0])),
       'sq': (lambda v: (v * v).sum(), lambda v: sum((x * x for x in v[1:]), v[0] * v[0])),
       'mean': (lambda v: v.sum() / len(v), lambda v: sum(v[1:], v[0]) / len(v)),
       'count': ('count', lambda v: len(v)),
       'len': (len, lambda v: len(v)),
       'last': ('last', lambda v: v[-1])}

LABELS = {'text': (['b', 'a', 'c'], ['y', 'z', 'x'], ['q', 'p', 'r']),
          'int': ([7, 3, 5], [0, -1, 2], [1, 10, 2]),
          'date': ([pd.Timestamp('2020-03-01'), pd.Timestamp('2019-07-01'), pd.Timestamp('2021-01-01')],
                   ['y', 'z', 'x'], [2, 0, 1])}


def index(keys, names):
    if len(keys[0]) == 1 and names is None:
        return pd.Index([k[0] for k in keys])
    return pd.MultiIndex.from_tuples(keys, names=names)


def labels_of(keys, level, extra=()):
    return sorted(set(k[level] for k in keys) | set(extra))


def column(env, name, m):
    return env.arr(name, (m,)) if m else env.exact(np.zeros(0))


def cells(env, keys, vals, axes, f):
    out = np.empty(tuple(len(a) for a in axes), dtype=object if env.sym else float)
    for i in np.ndindex(*out.shape):
        k = tuple(a[j] for a, j in zip(axes, i))
        v = [x for q, x in zip(keys, vals) if q == k]
        out[i] = f(v) if v else 0
    return out


def same_axes(env, axis, axes, flat):
    got = [list(axis)] if flat else [list(a) for a in axis]
    env.true('axis labels', got == [list(a) for a in axes])


def compare(env, res, want, tag=''):
    env.true(tag + 'keys', set(res) == set(want))
    for k in want:
        if k not in res:
            continue
        a = np.asarray(res[k])
        b = np.empty(a.shape, dtype=object if env.sym else float)
        b[...] = a
        env.eq(tag + k, b, want[k])


def series(env, keys, aggs=('sum',), extra=None, names=None, default=False, tag=''):
    vals = list(column(env, 'x', len(keys)))
    s = pd.Series(np.array(vals, dtype=object if env.sym else float), index=index(keys, names))
    flat = len(keys[0]) == 1 and names is None
    levels = len(keys[0])
    ex = [()] * levels
    if extra is not None:
        ex = [extra] if flat else [extra.get(n, ()) for n in s.index.names]
    axes = [labels_of(keys, l, ex[l]) for l in range(levels)]
    tr = None if default else {'R_' + a: AGG[a][0] for a in aggs}
    res, axis = PP.prepare_series(s, tr, extra) if extra is not None else PP.prepare_series(s, tr) if tr else \
        PP.prepare_series(s)
    same_axes(env, axis, axes, flat)
    want = {'N': cells(env, keys, vals, axes, AGG['sum'][1])} if default else \
        {'R_' + a: cells(env, keys, vals, axes, AGG[a][1]) for a in aggs}
    compare(env, res, want, tag)
    for k in want:
        if k in ('N', 'R_sum') and k in res:
            env.eq(tag + 'total', np.asarray(res[k]).sum(), sum(vals[1:], vals[0]))


def frame(env, keys, aggs=('sum',), extra=None, names=None, tag='', other=False):
    w = list(column(env, 'w', len(keys)))
    r = list(column(env, 'r', len(keys)))
    dt = object if env.sym else float
    cols = {'weight': np.array(w, dtype=dt), 'result': np.array(r, dtype=dt)}
    if other:
        cols = {'result': cols['result'], 'extra': np.array(r, dtype=dt), 'weight': cols['weight']}
    df = pd.DataFrame(cols, index=index(keys, names))
    levels = len(keys[0])
    ex = [()] * levels
    if extra is not None:
        ex = [extra.get(n, ()) for n in df.index.names]
    axes = [labels_of(keys, l, ex[l]) for l in range(levels)]
    tr = {'R_' + a: AGG[a][0] for a in aggs}
    args = (df, 'weight', 'result', tr)
    res, axis = PP.prepare_dataframe(*args, add_axis=extra) if extra is not None else PP.prepare_dataframe(*args)
    same_axes(env, axis, axes, False)
    p = [a * b for a, b in zip(w, r)]
    want = {'R_' + a: cells(env, keys, p, axes, AGG[a][1]) for a in aggs}
    want['N'] = cells(env, keys, w, axes, AGG['sum'][1])
    compare(env, res, want, tag)
    if 'N' in res:
        env.eq(tag + 'total', np.asarray(res['N']).sum(), sum(w[1:], w[0]))


def grid(kind, sizes, ks):
    return [tuple(LABELS[kind][l][i] for l, i in enumerate(k)) for k in ks]


def sweep(env, foo, kind, sizes, first, m, **kw):
    """every assignment of m observations that puts the first one in `first`"""
    pts = list(itertools.product(*[range(s) for s in sizes]))
    for rest in itertools.product(pts, repeat=m - 1):
        ks = (first,) + rest
        foo(env, grid(kind, sizes, ks), tag=''.join(''.join(map(str, k)) for k in ks) + ':', **kw)


def unsorted(env):
    """a MultiIndex whose level labels are not in order"""
    x = list(column(env, 'x', 3))
    idx = pd.MultiIndex(levels=[['z', 'a'], ['k', 'c', 'f']], codes=[[0, 1, 0], [0, 1, 2]], names=['s', 't'])
    s = pd.Series(np.array(x, dtype=object if env.sym else float), index=idx)
    res, axis = PP.prepare_series(s, {'N': np.sum}, {'t': ['d']})
    keys = [('z', 'k'), ('a', 'c'), ('z', 'f')]
    axes = [['a', 'z'], ['c', 'd', 'f', 'k']]
    same_axes(env, axis, axes, False)
    compare(env, res, {'N': cells(env, keys, x, axes, AGG['sum'][1])})
    df = pd.DataFrame({'w': s, 'r': s}, index=idx)
    res, axis = PP.prepare_dataframe(df, 'w', 'r', {'S': np.sum}, {'s': ['m', 'a']})
    axes = [['a', 'm', 'z'], ['c', 'f', 'k']]
    same_axes(env, axis, axes, False)
    compare(env, res, {'N': cells(env, keys, x, axes, AGG['sum'][1]),
                       'S': cells(env, keys, [v * v for v in x], axes, AGG['sum'][1])})


def integers(lo, hi):
    """int() of a symbolic value, value by value; values outside are left out"""
    def f(v):
        for k in range(lo, hi + 1):
            if (v > k - 1 if k <= 0 else v >= k) and (v < k + 1 if k >= 0 else v <= k):
                return k
        raise Infeasible()
    return f


def count(env, m, size, label=None, multi=False, positional=True):
    x = list(column(env, 'x', m))
    if env.sym:
        S.HOOK['concretize'] = integers(-2, size + 1)
    idx = pd.MultiIndex.from_tuples([('k%d' % i, i) for i in range(m)], names=['f', 'g']) if multi else \
        pd.Index(['r%d' % (m - i) for i in range(m)], name='rows')
    s = pd.Series(np.array(x, dtype=object if env.sym else float), index=idx)
    got = PP.df_count(s, size, label) if label else PP.df_count(s, size)
    env.true('rows', got.index.equals(idx))
    env.true('columns', list(got.columns) == list(range(size)) and got.columns.name == (label or "count"))
    want = np.zeros((m, size))
    for i, v in enumerate(x):
        hit = size - 1
        for k in range(size - 1):
            if v == k:
                hit = k
                break
        want[i, hit] = 1
    old = want[:, list(range(size - 2)) + [size - 1, size - 2]]
    g = np.asarray(got.values, dtype=float)
    env.eq('one category each', env.exact(g.sum(1)), env.exact(np.ones(m)))
    env.eq('category', env.exact(g), env.exact(want), known=('count-last', env.exact(old)))


def chain(env):
    """counts of arbitrary values by feature, as the library's users do"""
    x = list(column(env, 'x', 3))
    if env.sym:
        S.HOOK['concretize'] = integers(-1, 3)
    keys = [('b', 'u'), ('a', 'u'), ('b', 'u')]
    s = pd.Series(np.array(x, dtype=object if env.sym else float),
                  index=pd.MultiIndex.from_tuples(keys, names=['f', 'g']))
    c = PP.df_count(s, 3)
    res, axis = PP.prepare_series(c.stack(), {'N': np.sum})
    axes = [['a', 'b'], ['u'], [0, 1, 2]]
    same_axes(env, axis, axes, False)
    n = np.asarray(res['N'], dtype=float)
    env.eq('observations per feature', env.exact(n.sum(-1)), env.exact(np.array([[1.], [2.]])))


def cases(tier):
    T = tier == 'thorough'
    r = []
    # one level
    for m in range(1, 5):
        for ks in (itertools.product(range(3), repeat=m) if m < 4 else [(0, 1, 0, 2), (2, 2, 2, 2), (1, 0, 0, 1), (2, 1, 2, 1)]):
            keys = [(LABELS['text'][0][k],) for k in ks]
            r.append(Case('flat-%s' % ''.join(map(str, ks)), series, keys=keys, aggs=('sum', 'sq', 'len')))
    for kind in ('text', 'int', 'date'):
        keys = [(LABELS[kind][0][k],) for k in (0, 1, 0)]
        r.append(Case('flat-%s' % kind, series, keys=keys, aggs=tuple(AGG)))
        r.append(Case('flat-default-%s' % kind, series, keys=keys, default=True))
        if kind != 'date':
            new = {'text': ['aa', 'zz', 'b'], 'int': [4, 9, 3]}[kind]
            r.append(Case('flat-extra-%s' % kind, series, keys=keys, aggs=('sum', 'count'), extra=new))
            r.append(Case('flat-extra-unsorted-%s' % kind, series, keys=keys, aggs=('sum', 'mean'), extra=new[::-1]))
            r.append(Case('flat-extra-known-%s' % kind, series, keys=keys, extra=[keys[0][0]]))
            r.append(Case('flat-extra-default-%s' % kind, series, keys=keys, default=True, extra=new))
    r.append(Case('one-level-multiindex', series, keys=[('b',), ('a',), ('b',)], names=['s'], extra={'s': ['c']}))
    # two and three levels
    pts = list(itertools.product(range(2), range(2)))
    for f in pts:
        n = '%d%d' % f
        for fn, name in ((series, 'series'), (frame, 'frame')):
            r.append(Case('%s-2x2-3-%s' % (name, n), sweep, foo=fn, kind='text', sizes=(2, 2), first=f, m=3,
                          aggs=('sum', 'sq'), names=['s', 't'], wall=120))
            r.append(Case('%s-2x2-4-%s' % (name, n), sweep, foo=fn, kind='int', sizes=(2, 2), first=f, m=4,
                          aggs=('sum',), names=['s', 't'], wall=120))
            if T:
                r.append(Case('%s-2x3-4-%s' % (name, n), sweep, foo=fn, kind='text', sizes=(2, 3), first=f, m=4,
                              aggs=('sum', 'count'), names=['s', 't'], wall=900))
    for fn, name in ((series, 'series'), (frame, 'frame')):
        for kind in ('text', 'int', 'date'):
            for ks in ([(0, 1), (1, 0), (0, 1)], [(2, 0), (1, 2), (0, 1)], [(1, 1)], [(0, 0), (1, 0)],
                       [(1, 0), (0, 1), (1, 0), (1, 0)]):
                n = '-'.join(''.join(map(str, k)) for k in ks)
                r.append(Case('%s-%s-%s' % (name, kind, n), fn, keys=grid(kind, None, ks), aggs=tuple(AGG),
                              names=['s', 't']))
        keys = grid('text', None, [(0, 1), (1, 0), (0, 1)])
        for tag, ex in (('s', {'s': ['d', 'aa']}), ('t', {'t': ['w', 'z']}), ('both', {'s': ['b', 'k'], 't': ['x', 'zz']}),
                        ('none', {}), ('unknown', {'other': ['q']})):
            r.append(Case('%s-extra-%s' % (name, tag), fn, keys=keys, aggs=('sum', 'len'), names=['s', 't'], extra=ex))
        r.append(Case('%s-unnamed' % name, fn, keys=keys, aggs=('sum', 'mean'), names=[None, None]))
        k3 = grid('text', None, [(0, 1, 0), (1, 0, 0), (0, 1, 0)])
        r.append(Case('%s-3-levels' % name, fn, keys=k3, aggs=('sum', 'sq', 'last'), names=['s', 't', 'v']))
        r.append(Case('%s-3-levels-extra' % name, fn, keys=k3, aggs=('sum',), names=['s', 't', 'v'],
                      extra={'v': ['a', 'z'], 's': ['c']}))
        # more labels, more levels, more observations; labels whose text order is another one
        g = np.random.RandomState(21)
        wide = [tuple(int(v) for v in (g.randint(-12, 13), g.choice([1, 2, 10, 11, 100]))) for _ in range(30)]
        r.append(Case('%s-wide' % name, fn, keys=wide, aggs=('sum', 'count', 'last'), names=['s', 't'],
                      extra={'s': [20, -40, 3], 't': [9, 1000]}))
        real = [(float(a) / 4, 'k%d' % b) for a, b in zip(g.randint(-9, 9, 12), g.randint(0, 13, 12))]
        r.append(Case('%s-fractions' % name, fn, keys=real, aggs=('sum', 'sq'), names=['s', 't'], extra={'s': [.125, -7]}))
        deep = [tuple(int(v) for v in g.randint(0, 2, 4)) for _ in range(8)]
        r.append(Case('%s-4-levels' % name, fn, keys=deep, aggs=('sum', 'len'), names=['s', 't', 'v', 'w'], extra={'w': [5]}))
        deeper = [tuple(int(v) for v in g.randint(0, 2, 6)) for _ in range(5)]
        r.append(Case('%s-6-levels' % name, fn, keys=deeper + deeper[:3], aggs=('sum', 'mean'), names=list('stvwpq')))
        r.append(Case('%s-repeated-16' % name, fn, keys=[('b', 'x')] * 15 + [('a', 'y')], aggs=('sum', 'sq', 'mean', 'last'),
                      names=['s', 't']))
    r.append(Case('flat-wide', series, keys=[(int(v),) for v in g.randint(-30, 130, 25)], aggs=('sum', 'mean', 'count'),
                  extra=[500, -100, 7]))
    r.append(Case('flat-fractions', series, keys=[(float(v) / 8,) for v in g.randint(-9, 20, 9)], aggs=('sum', 'last')))
    r.append(Case('frame-other-columns', frame, keys=keys, aggs=('sum', 'mean'), names=['s', 't'], other=True))
    r.append(Case('frame-other-wide', frame, keys=wide, aggs=('sum', 'mean'), names=['s', 't'], other=True))
    r.append(Case('frame-one-level', frame, keys=[('b',), ('a',), ('b',)], names=['s'], aggs=('sum',)))
    r.append(Case('series-default', series, keys=keys, names=['s', 't'], default=True))
    r.append(Case('unsorted-levels', unsorted))
    for m, size in ((1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (3, 3)) + (((2, 5), (3, 4)) if T else ()):
        r.append(Case('count-%d-%d' % (m, size), count, m=m, size=size, paths=300))
    r.append(Case('count-named', count, m=2, size=3, label="goals"))
    r.append(Case('count-wide', count, m=1, size=21, paths=300))
    r.append(Case('count-long', count, m=1, size=60, paths=300))
    r.append(Case('count-multi', count, m=2, size=3, multi=True))
    r.append(Case('count-chain', chain))
    return r
