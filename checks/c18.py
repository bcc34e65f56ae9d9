"""C18: copulas."""
import numpy as np

import maxlike
from maxlike.func import copula
from maxlike.tensor import Tensor
from vlib import patch as P
from vlib import sym as S
from vlib.engine import Case
from checks.smath import exp, log

BOUNDS = {'quick': 'marginals of 2-4 (also 6 x 7 and 10 x 3) positive unnormalized weights (also batches of 2, integer weights, Param and Tensor '
                   'operands; leading zero weights for the polynomial families), every admissible copula parameter '
                   '(symbolic, and some exact values)',
          'thorough': 'up to 5 weights'}
ASSUMPTIONS = ['mvnun is the bivariate normal distribution function: its margins are the normal distribution function, it is '
               'symmetric, and it factorizes for zero correlation (upper limits of 40 and more count as infinite)',
               'ndtri is the inverse of the normal distribution function; |ndtri| < 40 inside (0, 1)',
               'non-negativity is decided for Ali-Mikhail-Haq and Clayton(1) only (the others are transcendental)']


def ndtr(x):
    if not isinstance(x, S.Sym):
        if x >= 40:
            return S.ONE
        if x <= -40:
            return S.ZERO
        x = S.to_sym(x)
    if x.op == 'u' and x.args[0] == 'ndtri':
        return x.args[2]
    return S.uf('ndtr', (x,))


def bvn(x, y, r):
    """distribution function of the bivariate normal"""
    for a, b in ((x, y), (y, x)):
        if not isinstance(a, S.Sym):
            if a >= 40:
                return ndtr(b)
            if a <= -40:
                return S.ZERO
    x, y, r = S.to_sym(x), S.to_sym(y), S.to_sym(r)
    if r.op == 'c' and r.args[0] == 0:
        return S.mul(ndtr(x), ndtr(y))
    if x.id > y.id:
        x, y = y, x
    return S.uf('bvn', (x, y, r))


def mvnun(lower, upper, means, cov):
    """every call of the library function, in terms of bvn"""
    (a, b), (c, d) = cov
    if b is not c and not (S.to_sym(b) is S.to_sym(c)):
        raise S.Unsupported('asymmetric covariance')
    if any(isinstance(l, S.Sym) or l > -40 for l in lower):
        raise S.Unsupported('lower limits')
    if S.to_sym(a) is not S.ONE or S.to_sym(d) is not S.ONE:
        raise S.Unsupported('variances')
    z = []
    for u, m in zip(upper, means):
        z.append(u if isinstance(m, (int, float)) and m == 0 else u - m)
    return bvn(z[0], z[1], b)


class Hook(object):
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        P.MODE['uf'] = mvnun if self.env.sym else None

    def __exit__(self, *a):
        P.MODE['uf'] = None


def pw(x, a):
    """x ** a for x > 0"""
    if isinstance(a, (int, float)) and a == 1:
        return x
    return exp(a * log(x))


def formula(env, fam, a, u, v, ends):
    """the documented copula function; u or v may be the upper end"""
    eu, ev = ends
    if eu and ev:
        return env.exact(1)[()]
    if eu or ev:
        return v if eu else u
    if fam == 'gaussian':
        if env.sym:
            return bvn(S.ndtri(S.to_sym(u)), S.ndtri(S.to_sym(v)), a)
        from vlib.engine import REAL
        return REAL['bvn'](REAL['ndtri'](u), REAL['ndtri'](v), a)
    if fam == 'clayton':
        return pw(pw(u, -a) + pw(v, -a) - 1, -1 / a)
    if fam == 'gumbel':
        return exp(-pw(pw(-log(u), a) + pw(-log(v), a), 1 / a))
    if fam == 'frank':
        return -1 / a * log(1 + (exp(-a * u) - 1) * (exp(-a * v) - 1) / (exp(-a) - 1))
    if fam == 'amh':
        return u * v / (1 - a * (1 - u) * (1 - v))
    raise ValueError(fam)


CLS = {'gaussian': copula.Gaussian, 'clayton': copula.Clayton, 'gumbel': copula.Gumbel, 'frank': copula.Frank,
       'amh': copula.AkiMikhailHaq}


DEFAULT = {'gaussian': 0, 'clayton': 1, 'gumbel': 1, 'frank': 1, 'amh': 0}


def parameter(env, fam, a):
    if a == 'neg':
        return env.var('a', ('open', -9, 0))
    if a is not None:
        return a
    v = env.var('a', {'gaussian': ('open', -1, 1), 'amh': ('open', -1, 1), 'clayton': 'pos', 'gumbel': ('open', 1, 9),
                      'frank': 'pos'}[fam])
    return v


def dense(env, fam, a, x, y, zeros=(0, 0)):
    """expected joint matrix of one pair of marginals"""
    n, m = len(x), len(y)
    tx, ty = sum(x), sum(y)
    u = [sum(x[:i + 1]) / tx for i in range(n)]
    v = [sum(y[:i + 1]) / ty for i in range(m)]
    F = np.full((n + 1, m + 1), env.exact(0)[()], dtype=object if env.sym else float)
    for i in range(n):
        for j in range(m):
            if i < zeros[0] or j < zeros[1]:
                continue
            F[i + 1, j + 1] = formula(env, fam, a, u[i], v[j], (i == n - 1, j == m - 1))
    return F[1:, 1:] - F[:-1, 1:] - F[1:, :-1] + F[:-1, :-1]


def arg(kind, x):
    if kind == 'param':
        return maxlike.Param(np.array(x, copy=True))
    if kind == 'tensor':
        return Tensor(np.array(x, copy=True), dim=1)
    return np.array(x, copy=True)


def joint(env, fam, a, shape, kind='array', ints=None, zeros=(0, 0), batch=(), default=False):
    a = parameter(env, fam, a)
    n, m = shape
    with Hook(env):
        C = CLS[fam]() if default else CLS[fam](a)
        if ints:
            x, y = np.array(ints[0]), np.array(ints[1])
            ex, ey = env.exact(x), env.exact(y)
        else:
            ex, ey = env.arr('x', batch + (n,), 'pos'), env.arr('y', batch + (m,), 'pos')
            for k in range(zeros[0]):
                ex[..., k] = env.exact(0)[()]
            for k in range(zeros[1]):
                ey[..., k] = env.exact(0)[()]
            x, y = ex, ey
        # other marginals before
        C((np.array([1., 2., 3., 2.]), np.array([2., 1., 1.])))
        got = C((arg(kind, x), arg(kind, y))).toarray()
        back = C((arg(kind, y), arg(kind, x))).toarray()
        env.true('shape', got.shape == batch + (n, m))
        if got.shape != batch + (n, m):
            return
        want = np.empty(batch + (n, m), dtype=object if env.sym else float)
        px = np.empty(batch + (n,), dtype=want.dtype)
        py = np.empty(batch + (m,), dtype=want.dtype)
        for b in np.ndindex(*batch):
            want[b] = dense(env, fam, a, list(ex[b]), list(ey[b]), zeros)
            px[b] = ex[b] / sum(ex[b])
            py[b] = ey[b] / sum(ey[b])
        env.eq('joint', got, want)
        env.eq('row sums', got.sum(-1), px)
        env.eq('column sums', got.sum(-2), py)
        env.eq('total', got.sum(-1).sum(-1), env.exact(np.ones(batch)))
        env.eq('exchange', back, got.swapaxes(-1, -2))
        if isinstance(a, (int, float)) and (fam, a) in (('gaussian', 0), ('gumbel', 1), ('amh', 0)):
            env.eq('independence', got, px[..., :, None] * py[..., None, :])


def positive(env, fam, a, shape):
    a = parameter(env, fam, a)
    n, m = shape
    C = CLS[fam](a)
    x, y = env.arr('x', (n,), 'pos'), env.arr('y', (m,), 'pos')
    # normalized marginals with positive weights
    got = C((np.array(x), np.array(y))).toarray()
    env.le('entries are non-negative', env.exact(0), got)


def invalid(env):
    env.var('x')
    for fam, bad in (('gaussian', (1.5, -2)), ('amh', (2, -1.5)), ('clayton', (0, -1)), ('gumbel', (.5, -1)),
                     ('frank', (0,))):
        for b in bad:
            env.raises('%s(%s) rejected' % (fam, b), Exception, CLS[fam], b)


def cases(tier):
    T = tier == 'thorough'
    r = []
    SH = [(2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (4, 2)] + ([(4, 4), (5, 3)] if T else [])
    for fam, vals in (('gaussian', (0, .5, -.25)), ('clayton', (1, 2, .5)), ('gumbel', (1,)),
                      ('frank', (1, -2)), ('amh', (0, .5, -1, 1))):
        for sh in SH:
            r.append(Case('%s-%dx%d' % ((fam,) + sh), joint, fam=fam, a=None, shape=sh))
        for v in vals:
            r.append(Case('%s-value-%s' % (fam, v), joint, fam=fam, a=v, shape=(2, 3)))
        r.append(Case('%s-default' % fam, joint, fam=fam, a=DEFAULT[fam], shape=(2, 3), default=True))
        for kind in ('param', 'tensor'):
            r.append(Case('%s-%s' % (fam, kind), joint, fam=fam, a=None, shape=(3, 2), kind=kind))
        r.append(Case('%s-batch' % fam, joint, fam=fam, a=None, shape=(2, 3), batch=(2,)))
        r.append(Case('%s-6x7' % fam, joint, fam=fam, a=None, shape=(6, 7)))
        r.append(Case('%s-10x3' % fam, joint, fam=fam, a=None, shape=(10, 3)))
        r.append(Case('%s-batch-2x2' % fam, joint, fam=fam, a=None, shape=(2, 3), batch=(2, 2)))
        r.append(Case('%s-integers' % fam, joint, fam=fam, a=None, shape=(2, 3), ints=([1, 3], [2, 1, 5])))
        r.append(Case('%s-mixed' % fam, joint, fam=fam, a=None, shape=(2, 3), ints=([1, 3], [.5, 1.25, .25])))
        r.append(Case('%s-mixed-back' % fam, joint, fam=fam, a=None, shape=(3, 2), ints=([.5, 1.25, .25], [1, 3])))
        if fam in ('frank', 'amh', 'gaussian'):
            r.append(Case('%s-zeros' % fam, joint, fam=fam, a=None, shape=(3, 3), zeros=(1, 1)))
    r.append(Case('frank-negative', joint, fam='frank', a='neg', shape=(3, 3)))
    for sh in [(2, 2), (2, 3), (3, 3)]:
        if sh != (3, 3):
            r.append(Case('positive-amh-%dx%d' % sh, positive, fam='amh', a=None, shape=sh))
        r.append(Case('positive-clayton-%dx%d' % sh, positive, fam='clayton', a=1, shape=sh))
    r.append(Case('invalid', invalid))
    return r
