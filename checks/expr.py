"""Expressions of the function algebra, each with an independent dense meaning.

E(func, spec, pshapes, nf, nd): `func` is the real maxlike object, `spec(params)`
the dense array (nf value axes, then nd extra axes) it denotes.  Components are
either the package's own elementary functions or `UFunc`s: arbitrary smooth
functions, one uninterpreted function symbol per output cell, whose derivatives
are the symbol's formal derivatives."""
from array import array

import numpy as np

from maxlike.func import (Linear, Quadratic, X, Constant, Scalar, Vector, Exp, Log, Sum, Product,
                          Affine, Compose, Collapse, FuncWrap, Poisson)
from maxlike.func.func_base import Func, null_func
from maxlike.tensor import Tensor
from checks.smath import exp, log


class UFunc(Func):
    """value cell i = name_i(entries of the parameters the cell depends on).
    pmaps[k] is None (all entries of parameter k) or one value axis (or -1) per
    axis of parameter k: the cell only depends on the entries that agree with it
    there, and the derivative tensors carry that diagonal map."""

    def __init__(self, env, name, pshapes, vs, ds=(), pmaps=None, order=2):
        self.env, self.name = env, name
        self.pshapes = [tuple(s) for s in pshapes]
        self.vs, self.ds = tuple(vs), tuple(ds)
        self.pmaps = pmaps or [None] * len(pshapes)

    def entries(self, cell, k):
        """(stored index, full index) of the entries of parameter k a cell uses"""
        sh, mp = self.pshapes[k], self.pmaps[k]
        if mp is None:
            return [(e, e) for e in np.ndindex(*sh)]
        st = tuple(1 if f >= 0 else s for f, s in zip(mp, sh))
        out = []
        for e in np.ndindex(*st):
            # a parameter axis of size one is shared by all cells
            full = tuple((cell[f] if s > 1 else 0) if f >= 0 else x for x, f, s in zip(e, mp, sh))
            out.append((e, full))
        return out

    def cellname(self, cell):
        return '%s[%s]' % (self.name, ','.join(map(str, cell)))

    def args(self, cell, params):
        out, pos = [], []
        for k in range(len(self.pshapes)):
            p = np.asarray(params[k])
            for e, full in self.entries(cell, k):
                out.append(p[full])
                pos.append((k, e))
        return out, pos

    def stored(self, k):
        sh, mp = self.pshapes[k], self.pmaps[k]
        return sh if mp is None else tuple(1 if f >= 0 else s for f, s in zip(mp, sh))

    def dense(self, params):
        out = np.empty(self.vs + self.ds, dtype=object if self.env.sym else float)
        for i in np.ndindex(*out.shape):
            a, pos = self.args(i, params)
            out[i] = self.env.uf(self.cellname(i), a, (0,) * len(a))
        return out

    def arrays(self, params, ks):
        st = [self.stored(k) for k in ks]
        lead = sum(st, ())
        out = np.empty(lead + self.vs + self.ds, dtype=object if self.env.sym else float)
        for i in np.ndindex(*(self.vs + self.ds)):
            a, pos = self.args(i, params)
            for e in np.ndindex(*lead):
                o = [0] * len(a)
                q = 0
                for k, s in zip(ks, st):
                    o[pos.index((k, e[q:q + len(s)]))] += 1
                    q += len(s)
                out[e + i] = self.env.uf(self.cellname(i), a, tuple(o))
        return out

    def map(self, k):
        return None if self.pmaps[k] is None or not self.pmaps[k] else array('b', self.pmaps[k])

    def check(self, params):
        assert len(params) == len(self.pshapes), 'component called with other parameters'
        for p, s in zip(params, self.pshapes):
            assert np.shape(np.asarray(p)) == s, 'component called with other parameters'

    def __call__(self, params):
        self.check(params)
        return Tensor(self.dense(params), dim=len(self.ds))

    def grad(self, params, i):
        self.check(params)
        return Tensor(self.arrays(params, [i]), x_dim=len(self.pshapes[i]), dim=len(self.ds),
                      x_map=self.map(i))

    def hess(self, params, i, j):
        self.check(params)
        return Tensor(self.arrays(params, [i, j]), x_dim=len(self.pshapes[i]),
                      y_dim=len(self.pshapes[j]), dim=len(self.ds), x_map=self.map(i),
                      y_map=self.map(j))

    def eval(self, params):
        n = len(params)
        return self(params), [self.grad(params, i) for i in range(n)], \
            [[self.hess(params, i, j) for j in range(i + 1)] for i in range(n)]


class ULin(UFunc):
    """affine component: null Hessian, as X, Scalar and Vector have"""

    def __call__(self, params):
        self.check(params)
        return Tensor(self.dense(params), dim=len(self.ds))

    def coef(self, cell, pos):
        return self.env.var('%s_c_%s_%s' % (self.cellname(cell), pos[0], '_'.join(map(str, pos[1]))))

    def dense(self, params):
        out = np.empty(self.vs + self.ds, dtype=object if self.env.sym else float)
        for i in np.ndindex(*out.shape):
            a, pos = self.args(i, params)
            v = self.env.var(self.cellname(i) + '_0')
            for x, p in zip(a, pos):
                v = v + self.coef(i, p) * x
            out[i] = v
        return out

    def grad(self, params, i):
        self.check(params)
        st = self.stored(i)
        out = np.empty(st + self.vs + self.ds, dtype=object if self.env.sym else float)
        for c in np.ndindex(*(self.vs + self.ds)):
            for e in np.ndindex(*st):
                out[e + c] = self.coef(c, (i, e))
        return Tensor(out, x_dim=len(self.pshapes[i]), dim=len(self.ds), x_map=self.map(i))

    hess = null_func


class E(object):
    def __init__(self, func, spec, pshapes, nf, nd):
        self.func, self.spec, self.pshapes, self.nf, self.nd = func, spec, list(pshapes), nf, nd


# ---------------------------------------------------------------- atoms
def u(env, name, pshapes, vs, ds=(), pmaps=None, cls=UFunc):
    f = cls(env, name, pshapes, vs, ds, pmaps)
    return E(f, f.dense, f.pshapes, len(f.vs), len(f.ds))


def ul(env, name, pshapes, vs, ds=(), pmaps=None):
    return u(env, name, pshapes, vs, ds, pmaps, ULin)


def x_(n):
    s = (n,) if isinstance(n, int) else tuple(n)
    return E(X(), lambda p: np.asarray(p[0]), [s], len(s), 0)


def scalar():
    return E(Scalar(), lambda p: np.asarray(p[0]), [()], 0, 0)


def vector(env, name, n):
    v = env.arr(name, (n,))
    return E(Vector(v), lambda p: np.asarray(p[0]) * v, [()], 1, 0)


def constant(env, name, shape):
    v = env.arr(name, shape)
    return E(Constant(v), lambda p: np.asarray(v), [], np.ndim(v), 0)


def linear(env, name, shapes):
    """sum of the entries, weighted by parameter"""
    w = [env.var('%s%d' % (name, k)) for k in range(len(shapes))]

    def spec(p):
        return np.asarray(sum((w[k] * x for k in range(len(shapes)) for x in np.asarray(p[k]).ravel()), env.exact(0)[()]))
    return E(Linear(list(w)), spec, [tuple(s) for s in shapes], 0, 0)


def quadratic(env, name, shapes):
    """sum of the squares of the standardized entries"""
    m, d = env.var(name + 'm'), env.var(name + 'd', 'pos')

    def spec(p):
        return np.asarray(sum((((x - m) / d) * ((x - m) / d) for k in range(len(shapes)) for x in np.asarray(p[k]).ravel()),
                              env.exact(0)[()]))
    return E(Quadratic(m, d), spec, [tuple(s) for s in shapes], 0, 0)


def elem(f, g, shape):
    """elementwise elementary function as a component"""
    def spec(p):
        a = np.asarray(p[0])
        out = np.empty(a.shape, dtype=a.dtype)
        for i in np.ndindex(*a.shape):
            out[i] = g(a[i])
        return out
    return E(f(), spec, [tuple(shape)], len(shape), 0)


# ---------------------------------------------------------------- combinators
def lst(m):
    if m is None:
        return []
    return [m] if isinstance(m, int) else list(m)


def embed(a, nf, nd, fm, N, dm, D):
    """axes of a placed at value axes fm of N and extra axes dm of D"""
    a = np.asarray(a)
    fm, dm = lst(fm), lst(dm)
    assert len(fm) == nf and len(dm) == nd and a.ndim == nf + nd
    order = list(np.argsort(fm)) + [nf + k for k in np.argsort(dm)]
    a = a.transpose([int(k) for k in order])
    it = iter(a.shape)
    sh = [next(it) if k in fm else 1 for k in range(N)]
    sh += [next(it) if k in dm else 1 for k in range(D)]
    return a.reshape(sh)


def bsum(arrs):
    t = arrs[0]
    for a in arrs[1:]:
        t = t + a
    return np.asarray(t)


def pick(pm):
    pm = lst(pm)
    return lambda ps: [ps[k] for k in pm]


def sum_(terms, N, pshapes, D=0):
    """terms: (E, param_map, feat_map[, dim_map[, weight]])"""
    foo = Sum(N, D) if D else Sum(N)
    parts = []
    for t in terms:
        e, pm, fm = t[:3]
        dm = t[3] if len(t) > 3 else None
        if len(t) > 4:
            foo.add(e.func, pm, fm, dm, t[4])
        elif dm is not None:
            foo.add(e.func, pm, fm, dm)
        else:
            foo.add(e.func, pm, fm)
        parts.append((e, pick(pm), fm, dm, t[4] if len(t) > 4 else 1))

    def spec(ps):
        return bsum([w * embed(e.spec(pk(ps)), e.nf, e.nd, fm, N, dm, D) for e, pk, fm, dm, w in parts])
    return E(foo, spec, pshapes, N, D)


def prod_(terms, N, pshapes, D=0):
    foo = Product(N, D) if D else Product(N)
    parts = []
    for t in terms:
        e, pm, fm = t[:3]
        dm = t[3] if len(t) > 3 else None
        if dm is not None:
            foo.add(e.func, pm, fm, dm)
        else:
            foo.add(e.func, pm, fm)
        parts.append((e, pick(pm), fm, dm))

    def spec(ps):
        r = None
        for e, pk, fm, dm in parts:
            v = embed(e.spec(pk(ps)), e.nf, e.nd, fm, N, dm, D)
            r = v if r is None else r * v
        return np.asarray(r)
    return E(foo, spec, pshapes, N, D)


def wrap(e, pm, fm, N, pshapes, dm=None, D=0, flip=None):
    foo = FuncWrap(e.func, pm, fm, N, dm, D, flip)
    pk = pick(pm)

    def spec(ps):
        # the flip acts on the axes of the mapped result
        v = embed(e.spec(pk(ps)), e.nf, e.nd, fm, N, dm if dm is not None else list(range(D)), D)
        for k in lst(flip):
            v = np.flip(v, k)
        return v
    return E(foo, spec, pshapes, N, D)


def aff(e, how, a=1, b=0):
    """f+b, b+f, f-b, b-f, -f, f*a, a*f, f/a, Affine(f, a, b)"""
    foo, g = {
        'f+b': lambda f: (f + b, lambda v: v + b),
        'b+f': lambda f: (b + f, lambda v: v + b),
        'f-b': lambda f: (f - b, lambda v: v - b),
        'b-f': lambda f: (b - f, lambda v: b - v),
        '-f': lambda f: (-f, lambda v: -v),
        'f*a': lambda f: (f * a, lambda v: v * a),
        'a*f': lambda f: (a * f, lambda v: v * a),
        'f/a': lambda f: (f / a, lambda v: v / a),
        'A1': lambda f: (Affine(f), lambda v: v),
        'Ab': lambda f: (Affine(f, b=b), lambda v: v + b),
        'Aa': lambda f: (Affine(f, a), lambda v: a * v),
        'A': lambda f: (Affine(f, a, b), lambda v: a * v + b),
    }[how](e.func)
    return E(foo, lambda ps: np.asarray(g(e.spec(ps))), e.pshapes, e.nf, e.nd)


def comp(f, gs, matmul=False):
    """f(g1,..,gn); the shapes of the g_k are the shapes of f's parameters.
    The extra axes of f's own result stay extra, those of the g_k become values."""
    if matmul:
        foo = f.func @ (gs[0].func if len(gs) == 1 else [g.func for g in gs])
    else:
        foo = Compose(f.func, [g.func for g in gs])
    return E(foo, lambda ps: f.spec([g.spec(ps) for g in gs]), gs[0].pshapes, f.nf, f.nd)


def coll(e, sv=True, sd=True, args=True):
    foo = Collapse(e.func, sv, sd) if args else Collapse(e.func)

    def spec(ps):
        v = np.asarray(e.spec(ps))
        ax = list(range(e.nf)) if sv is True else [] if sv is False else lst(sv)
        if sd:
            ax += list(range(e.nf, e.nf + e.nd))
        out = v
        for k in sorted(ax, reverse=True):
            out = out.sum(k)
        return np.asarray(out)
    nf = 0 if sv is True else e.nf if sv is False else e.nf - len(lst(sv))
    return E(foo, spec, e.pshapes, nf, 0 if sd else e.nd)
