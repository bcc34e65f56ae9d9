"""C20: root finders, for every cumulative function."""
import numpy as np

from maxlike import skellam as K
from maxlike.maxlike_base import ConvergenceError
from vlib import patch as P
from vlib import sym as S
from vlib.engine import Case, Infeasible
from checks.smath import sqrt

BOUNDS = {'quick': 'every target and every tolerance in (0, 1); the cumulative function and its derivatives are free values at every rate the '
                   'search visits (so every accept, halve, fail and converge history) up to 4 evaluations; for the step limit, '
                   'a cumulative function that never improves; supports of 1-3 entries in the conditional search',
          'thorough': 'up to 6 evaluations'}
ASSUMPTIONS = ['divisors (derivatives, determinants) are nonzero',
               'the residual is the one of the cumulative function as the module evaluates it (truncated support)',
               'ndtri is the inverse of the normal distribution function']


def absval(x):
    if isinstance(x, S.Sym):
        return S.uf('abs', (x,)) if x.op != 'c' else S.const(abs(x.args[0]))
    return abs(x)


def maxval(*a):
    if any(isinstance(x, S.Sym) for x in a):
        a = tuple(S.to_sym(x) for x in a)
        return S.uf('max', a)
    return max(*a)


def np_maximum(a, b, **k):
    a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
    if a.dtype != object and b.dtype != object:
        return np.maximum.real(a, b, **k)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = maxval(a[i], b[i])
    return out if a.ndim else out[()]


class Stop(BaseException):
    """the code asks for more than any step limit allows"""


class Oracle(object):
    """stands in for the distributions: every value is free, but the same rates
    give the same value"""

    def __init__(self, env, kind, limit, n=None, tol=None, sizes=None, stuck=False):
        self.env, self.kind, self.limit, self.n, self.tol = env, kind, limit, n, tol
        self.sizes = sizes
        self.stuck = stuck
        self.values = {}
        self.rates = []
        self.calls = 0
        self.problems = []

    def key(self, *r):
        return tuple(S.to_sym(x).id if isinstance(x, S.Sym) or self.env.sym else float(x) for x in r)

    def visit(self, *rates):
        self.calls += 1
        if self.stuck:
            if self.calls > 3000:
                raise Stop()
        elif self.calls > self.limit:
            raise Infeasible()
        k = self.key(*rates)
        if k not in self.values:
            self.values[k] = len(self.values)
            self.rates.append(rates)
        return 0 if self.stuck else self.values[k]

    # every stand-in is consistent with the others: the same rates give one distribution
    def threshold(self, n):
        if not same(n, self.n):
            self.problems.append('threshold')

    def poisson_cdf(self, a, n):
        self.threshold(n)
        i = self.visit(a)
        return np.array([self.env.var('F%d' % i), self.env.var('D%d' % i)])

    def pair(self, i):
        return np.array([[self.env.var('S%d_%d' % (i, r)), self.env.var('A%d_%d' % (i, r)), self.env.var('B%d_%d' % (i, r))]
                         for r in range(2)])

    def skellam_cdf_pair(self, a, b, n=0, tol=1e-8):
        self.threshold(n)
        return self.pair(self.visit(a, b))

    def skellam_cdf(self, a, b, n=0, tol=1e-8, inverse=False):
        if inverse:
            self.threshold(n - 1)
            return self.pair(self.visit(a, b))[1]
        self.threshold(n + 1)
        return self.pair(self.visit(a, b))[0]

    def skellam_frame(self, a, b, size=10):
        """the mass of each of the three regions in one cell of it"""
        p = self.pair(self.visit(a, b))
        n, m = self.n, self.size
        if size != m:
            raise S.Unsupported('support size')
        out = [np.full((m, m), self.env.exact(0), dtype=object if self.env.sym else float) for _ in range(3)]
        for k in range(3):
            for r, (x, y) in enumerate(((m - 1, 0), (0, m - 1))):
                out[k][x, y] = p[r, k]
        return out

    @property
    def size(self):
        return self.sizes[1] if self.sizes else abs(self.n) + 2

    def vec(self, i, size):
        return np.array([[self.env.var('%s%d_%d' % (v, i, k)) for k in range(size)] for v in 'PQ'])

    def poisson_vector(self, a, size=10):
        if self.kind == 'skellam':
            raise S.Unsupported('the joint distribution is not evaluated as one')
        i = self.visit(a)
        if self.kind == 'conditional':
            if size not in self.sizes:
                raise S.Unsupported('support size')
            return self.vec(i, size)
        self.threshold(size - 1)
        v = self.vec(i, size)
        for r, total in enumerate((self.env.var('F%d' % i), self.env.var('D%d' % i))):
            v[r, -1] = total - sum(v[r, :-1], self.env.exact(0))
        return v

    def tol2size(self, tol=1e-8, *args):
        return self.sizes[0] if self.sizes and len(args) == 1 else self.size

    def __enter__(self):
        self.old = {n: getattr(K, n) for n in ('poisson_cdf', 'skellam_cdf_pair', 'skellam_cdf', 'skellam_frame', 'poisson_vector',
                                               'tol2size', 'poisson_mid_cdf') if hasattr(K, n)}
        for n in self.old:
            setattr(K, n, getattr(self, n, bypass))
        # nothing lies beyond the support of the given size
        for n, v in (('pdtr', 1.), ('pdtrc', 0.)):
            if hasattr(K, n):
                self.old[n] = getattr(K, n)
                setattr(K, n, lambda k, m, v=v: v)
        # a distribution evaluated in another way is not seen
        for n in dir(K):
            f = getattr(K, n)
            if n != 'ndtri' and callable(f) and not isinstance(f, type) and n not in self.old and \
                    getattr(f, '__module__', None) != K.__name__:
                self.old[n] = f
                setattr(K, n, bypass)
        K.abs, K.max = absval, maxval
        self.maximum = np.maximum
        np_maximum.real = np.maximum
        np.maximum = np_maximum
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(K, n, f)
        del K.abs, K.max
        np.maximum = self.maximum


def bypass(*a, **k):
    raise S.Unsupported('the distribution is evaluated in another way')


def hidden(env):
    """is a branch taken on a value that does not come from the oracle?"""
    todo, roots = list(env.pc) if env.sym else [], []
    while todo:
        c = todo.pop()
        if isinstance(c, (tuple, list)):
            todo += c
        elif isinstance(c, S.SymBool):
            todo.append(c.node)
        elif isinstance(c, S.Sym):
            roots.append(c)
    return any(n.op in ('exp', 'gammaln', 'log') for n in S.reach(roots))


def same(a, b):
    return a is b or (not isinstance(a, S.Sym) and a == b)


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except ConvergenceError as e:
        return None, e
    except Stop as e:
        return None, e


def residual(env, o, kind, root, targets, first=None):
    """(squared) distance between target and oracle at the returned rates, None
    if they were never evaluated"""
    r = root if kind == 'skellam' else (root,)
    k = o.key(*r)
    if k not in o.values:
        return None
    i = o.values[k]
    if kind == 'poisson':
        d = targets[0] - env.var('F%d' % i)
        return d * d
    if kind == 'skellam':
        s = o.pair(i)[:, 0]
        return (s[0] - targets[0]) * (s[0] - targets[0]) + (s[1] - targets[1]) * (s[1] - targets[1])
    sb, sa = o.sizes
    pb = o.vec(o.values[o.key(first)], sb)[0]
    pa = o.vec(i, sa)[0]
    t = 0
    for x in range(sa):
        for y in range(sb):
            if x > y:
                t = t + pa[x] * pb[y]
            elif x == y:
                t = t + .5 * pa[x] * pb[y]
    return (t - targets[0]) * (t - targets[0])


def is_number(x):
    return isinstance(x, (S.Sym, float, int, np.floating)) or (isinstance(x, np.ndarray) and x.ndim == 0)


def search(env, kind, n=None, limit=5, sizes=None, default=False):
    """any history of at most `limit` evaluations that ends with a result"""
    tol = env.exact(1e-8)[()] if default == 'tol' else env.var('tol', 'unit')
    if kind == 'poisson':
        t = [env.var('t', 'unit')]
        args = (t[0], n, tol)
        b = None
    elif kind == 'skellam':
        t = [env.var('t', 'pos'), env.var('u', 'pos')]
        if env.sym:
            env.assume(t[0] + t[1] < 1)
            lo, hi = S.ndtri(t[0]), S.ndtri(1 - t[1])
            env.assume(lo < hi)
            env.assume(hi == -S.ndtri(t[1]))
        args = (t[0], t[1], n, tol)
        b = None
    else:
        t = [env.var('t', 'unit')]
        b = env.var('b', 'pos')
        args = (b, t[0], tol)
    foo = {'poisson': K.poisson_cdf_root, 'skellam': K.skellam_cdf_root, 'conditional': K.conditional_skellam_cdf_root}[kind]
    with Oracle(env, kind, limit, n=n, tol=tol, sizes=sizes) as o:
        if default == 'tol':
            root, err = attempt(foo, *args[:-1])
        else:
            root, err = attempt(foo, *args[:len(t)], tol=tol) if default else attempt(foo, *args)
        for k, p in enumerate(o.problems):
            env.true(p, False)
        for r in o.rates:
            for x in r:
                env.lt('only positive rates are evaluated', env.exact(0), x)
        if err is not None:
            env.true('gives up only at the step limit', False)
            return
        if kind == 'skellam':
            ok = isinstance(root, (tuple, list, np.ndarray)) and len(root) == 2 and all(is_number(x) for x in root)
        else:
            ok = is_number(root)
        env.true('returns rates', ok)
        if not ok:
            return
        for x in (root if kind == 'skellam' else (root,)):
            env.lt('positive', env.exact(0), x)
        d = residual(env, o, kind, root, t, b)
        if d is None and hidden(env):
            raise S.Unsupported('the distribution is evaluated in another way')
        env.true('the returned rates were evaluated', d is not None)
        if d is not None:
            # a given tolerance is small against the slack of a concrete run
            k = 10 ** 16 if default == 'tol' else 1
            env.le('residual within tolerance', k * d, k * tol * tol * (1 if k == 1 else 1.001))


def stuck(env, kind, n=None, sizes=None, improving=False):
    """a cumulative function that is the same everywhere: ConvergenceError"""
    tol = env.var('tol', 'unit')
    t = env.var('t', 'unit')
    o = Oracle(env, kind, 0, n=n, tol=tol, sizes=sizes, stuck=True)
    if kind == 'poisson':
        args = (t, n, tol)
        d = residual0(t, env.var('F0'))
    elif kind == 'skellam':
        u = env.var('u', 'pos')
        if env.sym:
            env.assume(t + u < 1)
            env.assume(S.ndtri(t) < S.ndtri(1 - u))
            env.assume(S.ndtri(1 - u) == -S.ndtri(u))
        args = (t, u, n, tol)
        d = residual0(t, env.var('S0_0')) + residual0(u, env.var('S0_1'))
    else:
        args = (env.var('b', 'pos'), t, tol)
        p = o.vec(0, max(sizes))[0]
        s = 0
        for x in range(sizes[1]):
            for y in range(sizes[0]):
                s = s + (p[x] * p[y] if x > y else .5 * p[x] * p[y] if x == y else 0)
        d = residual0(t, s)
    if env.sym:
        env.assume(d > tol * tol)
    elif d <= tol * tol:
        return
    foo = {'poisson': K.poisson_cdf_root, 'skellam': K.skellam_cdf_root, 'conditional': K.conditional_skellam_cdf_root}[kind]
    with o:
        root, err = attempt(foo, *args)
    env.true('stops', not isinstance(err, Stop))
    env.true('raises ConvergenceError', isinstance(err, ConvergenceError))


def residual0(a, b):
    return (a - b) * (a - b)


def invalid(env, kind, which):
    x = env.var('t')
    y = env.var('u')
    if kind == 'skellam':
        if env.sym:
            env.assume({'sum': lambda: x + y >= 1, 'first': lambda: x <= 0, 'second': lambda: y <= 0}[which]())
        f, a = K.skellam_cdf_root, (x, y, 0)
    else:
        if env.sym:
            env.assume({'low': lambda: x <= 0, 'high': lambda: x >= 1}[which]())
        f, a = (K.poisson_cdf_root, (x, 2)) if kind == 'poisson' else (K.conditional_skellam_cdf_root, (1.5, x))
    with Oracle(env, kind, 0, n=a[-1], sizes=(2, 2)):
        env.raises('rejected with ValueError', ValueError, f, *a)


def tails(env, targets, n):
    """given targets, the real distribution: tails below the resolution of 1 - target"""
    tol = 1e-8
    mode, P.MODE['sym'] = P.MODE['sym'], False        # nothing here is symbolic
    try:
        root, err = attempt(K.skellam_cdf_root, *targets, n, tol)
        if err is not None:
            env.true('gave up', True)
            return
        env.true('returns rates', len(root) == 2 and all(isinstance(x, float) and np.isfinite(x) for x in root))
        v = [K.skellam_cdf_pair(*root, n=n, tol=tol)[k, 0] for k in range(2)]
    finally:
        P.MODE['sym'] = mode
    d = sum((env.exact(float(x)) - env.exact(t)) ** 2 for x, t in zip(v, targets))
    k = 10 ** 16
    env.le('residual within tolerance', k * d, k * env.exact(tol) ** 2)
    for x in root:
        env.lt('positive', env.exact(0), env.exact(float(x)))


def cases(tier):
    T = tier == 'thorough'
    L = 6 if T else 4
    r = []
    for n in (0, 1, 3):
        r.append(Case('poisson-n%d' % n, search, kind='poisson', n=n, limit=L, paths=4000))
        r.append(Case('poisson-stuck-n%d' % n, stuck, kind='poisson', n=n))
    for n in (-2, 0, 1):
        r.append(Case('skellam-n%d' % n, search, kind='skellam', n=n, limit=L + 1, paths=4000))
        r.append(Case('skellam-stuck-n%d' % n, stuck, kind='skellam', n=n))
    for sizes in ((1, 1), (1, 2), (2, 2), (2, 3)):
        r.append(Case('conditional-%d-%d' % sizes, search, kind='conditional', sizes=sizes, limit=L + 3, paths=4000))
        r.append(Case('conditional-stuck-%d-%d' % sizes, stuck, kind='conditional', sizes=sizes))
    r.append(Case('poisson-default-n', search, kind='poisson', n=2, limit=3, default=True))
    r.append(Case('skellam-default-n', search, kind='skellam', n=0, limit=3, default=True))
    # the default tolerance is the documented one
    r.append(Case('poisson-default-tol', search, kind='poisson', n=1, limit=3, default='tol'))
    r.append(Case('skellam-default-tol', search, kind='skellam', n=0, limit=3, default='tol'))
    r.append(Case('conditional-default-tol', search, kind='conditional', sizes=(1, 1), limit=5, default='tol'))
    for t in ((0.999999994, 5.03e-35), (.9999, 1e-18), (1e-17, 1e-17), (.5, 1e-20)):
        for n in (0, 2):
            r.append(Case('tails-%g-%g-n%d' % (t + (n,)), tails, targets=t, n=n))
    for kind in ('poisson', 'conditional'):
        for w in ('low', 'high'):
            r.append(Case('invalid-%s-%s' % (kind, w), invalid, kind=kind, which=w))
    for w in ('sum', 'first', 'second'):
        r.append(Case('invalid-skellam-%s' % w, invalid, kind='skellam', which=w))
    return r
