"""Makes the real maxlike package executable on symbolic terms.

Nothing in /repo is edited.  Before maxlike is imported, a few library entry
points it calls (scipy.special, math.exp, numpy allocation / linear algebra) are
wrapped; a wrapper behaves exactly like the library function unless it is handed
a symbolic term (or, in symbolic mode, is called from a maxlike module with a
concrete argument whose exact value must not be rounded).
"""
import math
import os
import sys
import warnings
from fractions import Fraction

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
REPO = os.environ.get('VERIF_REPO', '/repo')

import numpy as np                                   # noqa: E402

try:
    import z3                                        # noqa: F401,E402
except ImportError:
    sys.path.append(VT)
    import z3                                        # noqa: F401,E402
    sys.path.remove(VT)

import scipy                                         # noqa: E402
import scipy.special as sp                           # noqa: E402
import scipy.linalg as sla                           # noqa: E402
import scipy.stats                                   # noqa: E402
try:
    import scipy.stats.mvn as smvn                   # noqa: E402
except ImportError:
    smvn = None
import pandas                                        # noqa: F401,E402

from . import sym as S                               # noqa: E402
from .sym import Sym, Unsupported                    # noqa: E402

MODE = {'sym': False, 'uf': None}

_r = {}                        # real library functions


def symbolic():
    return MODE['sym']


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        return any(isinstance(x, Sym) for x in a.ravel())
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def from_repo(depth=2):
    f = sys._getframe(depth)
    n = f.f_globals.get('__name__', '')
    return n == 'maxlike' or n.startswith('maxlike.')


class SymUfunc(object):
    """callable standing in for an elementwise library function"""

    def __init__(self, name, real, exact=True):
        self.real = real
        self.__name__ = name
        self.exact = exact

    def __call__(self, *args, **kw):
        if not MODE['sym']:
            return self.real(*args, **kw)
        if len(args) == 1 and not kw:
            x = args[0]
            if isinstance(x, Sym):
                return self._one(x)
            if hasattr(x, '__array_ufunc__') and not isinstance(x, (np.ndarray, np.generic)):
                return x.__array_ufunc__(self, '__call__', x)
            a = x if isinstance(x, np.ndarray) else np.asarray(x)
            if a.dtype == object:
                return self._elem(a)
            if self.exact and from_repo() and not kw:
                if a.ndim == 0:
                    return self._one(a.item())
                return self._elem(a)
        return self.real(*args, **kw)

    def _one(self, v):
        if not isinstance(v, Sym):
            if isinstance(v, (float, np.floating)) and not math.isfinite(v):
                return float(self.real(v))
            v = S.to_sym(v)
        if v.op == 'c' and self.__name__ not in S.UNARY:
            return S.to_sym(float(self.real(float(v.args[0]))))
        if self.__name__ == 'log' and v.op == 'c' and v.args[0] == 0:
            return -np.inf
        return S.UNARY[self.__name__](v)

    def _elem(self, a):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = self._one(a[i])
        return out if a.ndim else out[()]

    def __getattr__(self, k):
        return getattr(self.real, k)


def _xlog(x, y, log):
    # 0 times any logarithm is 0
    x, y = np.broadcast_arrays(np.asarray(x), np.asarray(y))
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v = S.to_sym(x[i])
        out[i] = S.ZERO if v.op == 'c' and v.args[0] == 0 else x[i] * log(y[i])
    return out if out.ndim else out[()]


def _wrap_special():
    for n in ('gammaln', 'loggamma', 'gamma', 'factorial', 'expit', 'logit',
              'log_expit', 'ndtri', 'ndtr', 'erf', 'psi', 'digamma'):
        real = getattr(sp, n)
        _r['sp.' + n] = real
        setattr(sp, n, SymUfunc(n, real, exact=n != 'erf'))

    def xlogy(x, y, **k):
        if MODE['sym'] and any(np.asarray(v).dtype == object for v in (x, y)):
            return _xlog(x, y, np.log)
        return _r['sp.xlogy'](x, y, **k)
    _r['sp.xlogy'] = sp.xlogy
    sp.xlogy = xlogy

    def xlog1py(x, y, **k):
        if MODE['sym'] and any(np.asarray(v).dtype == object for v in (x, y)):
            return _xlog(x, y, np.log1p)
        return _r['sp.xlog1py'](x, y, **k)
    _r['sp.xlog1py'] = sp.xlog1py
    sp.xlog1py = xlog1py

    def poch(a, m, **k):
        if MODE['sym']:
            return sp.gamma(np.add(a, m)) / sp.gamma(a)
        return _r['sp.poch'](a, m, **k)
    _r['sp.poch'] = sp.poch
    sp.poch = poch

    # distribution function of a Poisson variable (whole number of counts)
    def poisson_cdf(k, m):
        t = S.ZERO
        for i in range(int(math.floor(k)) + 1):
            t = t + S.to_sym(m) ** i / math.factorial(i)
        return S.UNARY['exp'](-S.to_sym(m)) * t

    def counts(n, shift, upper):
        real = getattr(sp, n)
        _r['sp.' + n] = real

        def f(k, m, **kw):
            if not MODE['sym'] or kw or not (has_sym(np.asarray(k)) or has_sym(np.asarray(m))):
                return real(k, m, **kw)
            k, m = np.broadcast_arrays(np.asarray(k), np.asarray(m))
            out = np.empty(k.shape, dtype=object)
            for i in np.ndindex(*k.shape):
                if isinstance(k[i], Sym) or shift and k[i] != int(k[i]):
                    raise S.Unsupported(n)
                v = poisson_cdf(k[i] - shift, m[i])
                out[i] = 1 - v if upper else v
            return out if out.ndim else out[()]
        setattr(sp, n, f)
    counts('pdtr', 0, False)
    counts('pdtrc', 0, True)
    counts('gammaincc', 1, False)
    counts('gammainc', 1, True)

    def comb(n, k, *a, **kw):
        return _r['sp.comb'](n, k, *a, **kw)
    _r['sp.comb'] = sp.comb
    S._SP['gammaln'] = _r['sp.gammaln']
    S._SP['psi'] = _r['sp.psi']


def _wrap_math():
    for n in ('exp', 'log', 'sqrt', 'lgamma', 'gamma', 'log1p', 'expm1', 'atan'):
        real = getattr(math, n)
        _r['math.' + n] = real
        sn = {'lgamma': 'gammaln', 'atan': 'arctan'}.get(n, n)

        def f(x, *a, real=real, sn=sn):
            if MODE['sym'] and not a:
                if isinstance(x, np.ndarray) and x.ndim == 0:
                    x = x.item()
                if isinstance(x, Sym) or (from_repo() and isinstance(x, (int, float, np.number))):
                    if not isinstance(x, Sym):
                        x = S.to_sym(x)
                    return S.UNARY[sn](x)
            return real(x, *a)
        setattr(math, n, f)


def _wrap_numpy_ufuncs():
    for n in ('exp', 'log', 'sqrt', 'log1p', 'expm1', 'log2', 'log10', 'exp2',
              'arctan', 'tanh', 'cbrt', 'sinh', 'cosh'):
        real = getattr(np, n)
        _r['np.' + n] = real
        setattr(np, n, SymUfunc(n, real))

    def mkpred(n, val):
        real = getattr(np, n)
        _r['np.' + n] = real

        def pred(x, *a, **k):
            if MODE['sym'] and has_sym(x if isinstance(x, (Sym, np.ndarray)) else np.asarray(x)):
                arr = np.asarray(x, dtype=object)
                out = np.empty(arr.shape, dtype=bool)
                for i in np.ndindex(*arr.shape):
                    out[i] = val if isinstance(arr[i], Sym) else real(float(arr[i]))
                return out if arr.ndim else bool(out)
            return real(x, *a, **k)
        setattr(np, n, pred)
    mkpred('isnan', False)
    mkpred('isinf', False)
    mkpred('isfinite', True)


def _is_float_dtype(d):
    if d is None:
        return True
    try:
        return np.dtype(d).kind in 'fO'
    except TypeError:
        return False


def _wrap_alloc():
    def mk(n, fillv):
        real = getattr(np, n)
        _r['np.' + n] = real

        def alloc(shape, *a, **k):
            if MODE['sym'] and from_repo():
                d = a[0] if a else k.get('dtype')
                if n == 'full':
                    v = a[0] if a else k.get('fill_value')
                    d = a[1] if len(a) > 1 else k.get('dtype')
                    if d is None and not has_sym(v) and not isinstance(v, (float, np.floating)):
                        return real(shape, *a, **k)
                    if d is not None and not _is_float_dtype(d):
                        return real(shape, *a, **k)
                    out = _r['np.empty'](shape, dtype=object)
                    out[...] = v
                    return out
                if _is_float_dtype(d):
                    out = _r['np.empty'](shape, dtype=object)
                    out.fill(fillv())
                    return out
            return real(shape, *a, **k)
        alloc.__name__ = n
        return alloc
    zero, one = (lambda: S.ZERO), (lambda: S.ONE)
    fs = {'empty': mk('empty', zero), 'zeros': mk('zeros', zero),
          'ones': mk('ones', one), 'full': mk('full', None)}

    def mklike(n, fillv):
        real = getattr(np, n)
        _r['np.' + n] = real

        def like(x, *a, **k):
            if MODE['sym'] and from_repo() and not a and not k:
                arr = np.asarray(x)
                if arr.dtype.kind in 'fO':
                    out = _r['np.empty'](arr.shape, dtype=object)
                    out.fill(fillv())
                    return out
            return real(x, *a, **k)
        like.__name__ = n
        return like
    fs.update({'zeros_like': mklike('zeros_like', zero), 'ones_like': mklike('ones_like', one),
               'empty_like': mklike('empty_like', zero)})

    def mkarr(n):
        real = getattr(np, n)
        _r['np.' + n] = real

        def asarr(x, *a, **k):
            if MODE['sym'] and (a or k):
                d = a[0] if a else k.get('dtype')
                if d is not None and d is not object:
                    try:
                        kind = np.dtype(d).kind
                    except TypeError:
                        kind = '?'
                    if kind == 'f' and has_sym(x if isinstance(x, (Sym, np.ndarray, list, tuple))
                                               else real(x)):
                        if a:
                            a = (object,) + tuple(a[1:])
                        else:
                            k = dict(k, dtype=object)
                elif d is object and from_repo():
                    # plain numbers become exact constants (python numbers have no
                    # array methods, the float64 they stand for does)
                    r = real(x, *a, **k)
                    if r.ndim == 0 and not isinstance(r[()], Sym):
                        try:
                            v = S.to_sym(r[()])
                        except Exception:
                            return r
                        if isinstance(v, Sym):
                            r = _r['np.empty']((), dtype=object)
                            r[()] = v
                    return r
            return real(x, *a, **k)
        asarr.__name__ = n
        return asarr
    fs.update({'asarray': mkarr('asarray'), 'array': mkarr('array'),
               'asanyarray': mkarr('asanyarray'),
               'ascontiguousarray': mkarr('ascontiguousarray')})

    # object einsum (numpy refuses it)
    _r['np.einsum'] = np.einsum

    def einsum(sub, *ops, **k):
        if MODE['sym'] and any(getattr(o, 'dtype', None) == object for o in ops):
            return obj_einsum(sub, ops)
        return _r['np.einsum'](sub, *ops, **k)
    fs['einsum'] = einsum
    _r['np.clip'] = np.clip

    def clip(a, lo, hi, *x, **k):
        if MODE['sym'] and from_repo() and has_sym(a) and not x and not k and \
                np.ndim(lo) == 0 and np.ndim(hi) == 0:
            def one(v):
                if isinstance(v, Sym) and v.op == 'u' and v.args[0] == 'ndtri' and lo <= -40 and hi >= 40:
                    return v            # |ndtri| < 39 in double precision
                return lo if v < lo else hi if v > hi else v
            if isinstance(a, Sym):
                return one(a)
            out = _r['np.empty'](np.shape(a), dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = one(a[i])
            return out
        return _r['np.clip'](a, lo, hi, *x, **k)
    fs['clip'] = clip

    # numpy keeps 0-d tensors as cells of object arrays where the float run
    # converts them to numbers
    def mkcat(n):
        real = getattr(np, n)
        _r['np.' + n] = real

        def cat(*a, **k):
            r = real(*a, **k)
            if MODE['sym'] and isinstance(r, np.ndarray) and r.dtype == object and from_repo():
                for i in np.ndindex(*r.shape):
                    if type(r[i]).__name__ == 'Tensor':
                        r[i] = r[i].toarray()[()]
            return r
        cat.__name__ = n
        return cat
    fs.update({n: mkcat(n) for n in ('concatenate', 'hstack', 'vstack', 'append')})

    # numpy refuses a masked reduction of object arrays without a start
    def mkred(n, start):
        real = getattr(np, n)
        _r['np.' + n] = real

        def red(a, *x, **k):
            if MODE['sym'] and 'where' in k and getattr(a, 'dtype', None) == object:
                k = dict(k)
                k.setdefault('initial', start)
            return real(a, *x, **k)
        red.__name__ = n
        return red
    fs.update({'sum': mkred('sum', 0), 'prod': mkred('prod', 1)})
    for n, f in fs.items():
        setattr(np, n, f)


def obj_einsum(sub, ops):
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        letters = [c for c in ins if c.isalpha()]
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    ops = [np.asarray(o) for o in ops]
    if '...' in sub:
        nd = max(o.ndim - len(i.replace('...', '')) for o, i in zip(ops, ins) if '...' in i)
        extra = 'ABCDEFGHIJ'[:nd]
        ins = [i.replace('...', extra[nd - (o.ndim - len(i.replace('...', ''))):]
                         if '...' in i else '') for o, i in zip(ops, ins)]
        out = out.replace('...', extra)
    size = {}
    for o, i in zip(ops, ins):
        if o.ndim != len(i):
            raise ValueError("einsum: operand rank")
        for c, n in zip(i, o.shape):
            if size.get(c, 1) == 1:
                size[c] = n
    allc = out + ''.join(sorted(set(''.join(ins)) - set(out)))
    tot = None
    for o, i in zip(ops, ins):
        # diagonal for repeated labels
        u = ''.join(sorted(set(i), key=i.index))
        if len(u) != len(i):
            arr = np.empty(tuple(size[c] for c in u), dtype=object)
            for ix in np.ndindex(*arr.shape):
                arr[ix] = o[tuple(ix[u.index(c)] for c in i)]
            o, i = arr, u
        order = sorted(range(len(i)), key=lambda t: allc.index(i[t]))
        o = o.transpose(order)
        o = o[tuple(slice(None) if c in i else None for c in allc)]
        tot = o if tot is None else tot * o
    tot = np.broadcast_to(tot, tuple(size[c] for c in allc))
    r = tot.sum(tuple(range(len(out), len(allc)))) if len(allc) > len(out) else tot
    return r


# ---------------------------------------------------------------- linear algebra
def _det(m):
    n = len(m)
    if n == 0:
        return S.ONE
    if n == 1:
        return m[0][0]
    r = S.ZERO
    for j in range(n):
        if isinstance(m[0][j], Sym) and m[0][j] is S.ZERO:
            continue
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def _rows(a):
    return [[S.to_sym(x) for x in r] for r in np.asarray(a)]


def sym_inv(a):
    m = _rows(a)
    n = len(m)
    det = _det(m)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            c = _det(minor)
            if (i + j) % 2:
                c = S.neg(c)
            out[i, j] = c / det
    return out


class LinalgHook(object):
    """how symbolic linear systems are solved; a harness may replace it"""
    inv = staticmethod(sym_inv)
    solve = None
    pinvh = None


def _wrap_linalg():
    def data(a):
        return a.data if isinstance(a, np.ma.MaskedArray) else np.asarray(a)

    def mkinv(mod, n):
        real = getattr(mod, n)
        _r['%s.%s' % (mod.__name__, n)] = real

        def inv(a, *x, **k):
            if MODE['sym'] and getattr(data(a), 'dtype', None) == object:
                if n in ('pinvh', 'pinv') and LinalgHook.pinvh is not None:
                    return LinalgHook.pinvh(data(a))
                return LinalgHook.inv(data(a))
            return real(a, *x, **k)
        setattr(mod, n, inv)
    for mod in (np.linalg, sla):
        for n in ('inv', 'pinv', 'pinvh'):
            if hasattr(mod, n):
                mkinv(mod, n)

    def mksolve(mod):
        real = mod.solve
        _r[mod.__name__ + '.solve'] = real

        def solve(a, b, *x, **k):
            if MODE['sym'] and (data(a).dtype == object or data(b).dtype == object):
                if LinalgHook.solve is not None:
                    return LinalgHook.solve(data(a), data(b))
                return LinalgHook.inv(data(a)).dot(data(b))
            return real(a, b, *x, **k)
        mod.solve = solve
    mksolve(np.linalg)
    mksolve(sla)
    rn = np.linalg.norm
    _r['np.linalg.norm'] = rn

    def norm(a, *x, **k):
        if MODE['sym'] and data(a).dtype == object and not x and not k:
            return S.sqrt(S.to_sym((data(a) * data(a)).sum()))
        return rn(a, *x, **k)
    np.linalg.norm = norm


def _wrap_mvn():
    if smvn is None:
        return
    real = smvn.mvnun
    _r['mvnun'] = real

    def mvnun(lower, upper, means, covar, *a, **k):
        if MODE['uf'] is not None:
            return MODE['uf'](lower, upper, means, covar), 0
        return real(lower, upper, means, covar, *a, **k)
    smvn.mvnun = mvnun


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, Sym))

    @property
    def dtype(cls):
        return np.dtype(object) if MODE['sym'] else np.dtype(float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatMeta):
    """stands for the builtin `float` inside maxlike modules"""
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray):
            if x.size == 1 and x.dtype == object:
                return SymFloat(x.ravel()[0])
            return float(x)
        if MODE['sym'] and not isinstance(x, (int, float, str, np.generic)) and \
                hasattr(type(x), '__float__'):
            return type(x).__float__(x)
        return float(x)


ML = {}


def load():
    """patch the libraries, import maxlike from the repository's working tree"""
    if ML:
        return ML
    assert 'maxlike' not in sys.modules
    _wrap_special()
    _wrap_math()
    _wrap_numpy_ufuncs()
    _wrap_alloc()
    _wrap_linalg()
    _wrap_mvn()
    sys.path.insert(0, REPO)
    import importlib
    import pkgutil
    import maxlike
    where = os.path.realpath(maxlike.__file__)
    assert where == os.path.realpath(os.path.join(REPO, 'maxlike', '__init__.py')), where
    for m in pkgutil.walk_packages(maxlike.__path__, 'maxlike.'):
        importlib.import_module(m.name)
    sys.path.remove(REPO)
    for n, m in list(sys.modules.items()):
        if (n == 'maxlike' or n.startswith('maxlike.')) and m is not None:
            m.__dict__.setdefault('float', SymFloat)
    ML['maxlike'] = maxlike
    ML['set_dtype'] = sys.modules['maxlike.tensor'].set_dtype
    return ML


def set_mode(sym):
    MODE['sym'] = sym
    ML['set_dtype'](object if sym else np.float64)
