"""Symbolic real-valued terms that the real maxlike code is executed on.

A Sym is an immutable, hash-consed DAG node.  numpy's object-dtype loops call
the Python operators / methods of the elements, so the unmodified maxlike
functions build these DAGs when they are fed object arrays of Syms.
"""
import math
import numbers
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
    """The engine cannot represent an operation (never a verdict)."""


_TABLE = {}
_NODES = []
HOOK = {"fork": None, "concretize": None}


def _mk(op, args):
    key = (op,) + tuple(a.id if isinstance(a, Sym) else a for a in args)
    n = _TABLE.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op = op
        n.args = args
        n.id = len(_NODES)
        _NODES.append(n)
        _TABLE[key] = n
    return n


def reset_table():
    _TABLE.clear()
    del _NODES[:]
    global ZERO, ONE, MONE
    ZERO = const(0)
    ONE = const(1)
    MONE = const(-1)


def const(x):
    return _mk('c', (Fraction(x),))


def var(name):
    return _mk('v', (name,))


def uf(name, args, orders=None):
    args = tuple(to_sym(a) for a in args)
    if orders is None:
        orders = (0,) * len(args)
    return _mk('u', (name, tuple(orders)) + args)


def to_sym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, np.integer):
        return const(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            raise Unsupported("non finite constant %r" % f)
        return const(Fraction(f))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_sym(x.item())
    return None


_NUM = (int, float, Fraction, np.number, np.bool_)


def _coerce(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, _NUM):
        f = x
        if isinstance(f, (float, np.floating)) and not math.isfinite(f):
            raise Unsupported("arithmetic between a symbolic value and %r" % float(f))
        return to_sym(x)
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype != object:
        return to_sym(x.item())
    if hasattr(x, '__array__') and not hasattr(x, '__array_ufunc__') and not hasattr(type(x), '__radd__'):
        # as a numpy scalar would: through its array
        a = np.asarray(x)
        if a.ndim == 0:
            return _coerce(a.item())
    return None


# ------------------------------------------------------------ constructors
def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] + b.args[0])
    if a.op == 'c' and a.args[0] == 0:
        return b
    if b.op == 'c' and b.args[0] == 0:
        return a
    if neg_of(a) is b or neg_of(b) is a:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _mk('+', (a, b))


def neg_of(a):
    """the node -a if it is already available syntactically (else None)"""
    if a.op == '*' and a.args[0].op == 'c' and a.args[0].args[0] == -1:
        return a.args[1]
    return None


def mul(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] * b.args[0])
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        v = a.args[0]
        if v == 0:
            return ZERO
        if v == 1:
            return b
        if b.op == '*' and b.args[0].op == 'c':
            return mul(const(v * b.args[0].args[0]), b.args[1])
        return _mk('*', (a, b))
    # pull constants out
    ca = cb = None
    if a.op == '*' and a.args[0].op == 'c':
        ca, a = a.args
    if b.op == '*' and b.args[0].op == 'c':
        cb, b = b.args
    if ca is not None or cb is not None:
        c = (ca.args[0] if ca is not None else 1) * (cb.args[0] if cb is not None else 1)
        return mul(const(c), mul(a, b))
    if a.id > b.id:
        a, b = b, a
    return _mk('*', (a, b))


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == 'c':
        if b.args[0] == 0:
            raise ZeroDivisionError("symbolic division by zero")
        return mul(const(1 / b.args[0]), a)
    if a.op == 'c' and a.args[0] == 0:
        return ZERO
    if a is b:
        return ONE
    if b.op == '*' and b.args[0].op == 'c':
        return mul(const(1 / b.args[0].args[0]), div(a, b.args[1]))
    return _mk('/', (a, b))


def powi(a, n):
    n = int(n)
    if n == 0:
        return ONE
    if n == 1:
        return a
    if a.op == 'c':
        return const(a.args[0] ** n)
    if n < 0:
        return div(ONE, powi(a, -n))
    if a.op == '^':
        return _mk('^', (a.args[0], a.args[1] * n))
    return _mk('^', (a, n))


def power(a, b):
    if b.op == 'c':
        e = b.args[0]
        if e.denominator == 1:
            return powi(a, e.numerator)
    if a.op == 'c' and a.args[0] == 1:
        return ONE
    if a.op == 'c' and a.args[0] == 0:
        if SymBool('<', neg(b)):
            return ZERO
        raise Unsupported("0 ** symbolic")
    return fn('exp', mul(b, fn('log', a)))


def fn(name, a):
    if a.op == 'c':
        v = a.args[0]
        if name == 'exp' and v == 0:
            return ONE
        if name == 'log':
            if v == 1:
                return ZERO
            if v <= 0:
                raise Unsupported("log of non positive constant %s" % v)
        if name == 'arctan' and v == 0:
            return ZERO
        if name == 'gammaln' and v in (1, 2):
            return ZERO
    return _mk('f', (name, a))


def expit(a):
    return div(ONE, add(ONE, fn('exp', neg(a))))


def sqrt(a):
    if a.op == 'c':
        v = a.args[0]
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
    return fn('exp', mul(const(Fraction(1, 2)), fn('log', a)))


def ndtri(a):
    if a.op == 'c':
        v = a.args[0]
        if v in (0, 1):
            return math.inf if v else -math.inf
        if v == Fraction(1, 2):
            return ZERO
    return uf('ndtri', (a,))


UNARY = {
    'exp': lambda a: fn('exp', a),
    'log': lambda a: fn('log', a),
    'gammaln': lambda a: fn('gammaln', a),
    'gamma': lambda a: fn('exp', fn('gammaln', a)),
    'factorial': lambda a: factorial(a),
    'expit': expit,
    'logit': lambda a: fn('log', div(a, sub(ONE, a))),
    'log_expit': lambda a: fn('log', expit(a)),
    'sqrt': sqrt,
    'arctan': lambda a: fn('arctan', a),
    'tanh': lambda a: sub(mul(const(2), expit(mul(const(2), a))), ONE),
    'sinh': lambda a: mul(const(Fraction(1, 2)), sub(fn('exp', a), fn('exp', neg(a)))),
    'cosh': lambda a: mul(const(Fraction(1, 2)), add(fn('exp', a), fn('exp', neg(a)))),
    'log1p': lambda a: fn('log', add(ONE, a)),
    'expm1': lambda a: sub(fn('exp', a), ONE),
    'exp2': lambda a: power(const(2), a),
    'log2': lambda a: div(fn('log', a), fn('log', const(2))),
    'log10': lambda a: div(fn('log', a), fn('log', const(10))),
    'square': lambda a: powi(a, 2),
    'reciprocal': lambda a: div(ONE, a),
    'negative': neg,
    'ndtri': lambda a: ndtri(a),
    'ndtr': lambda a: uf('ndtr', (a,)),
    'erf': lambda a: sub(mul(const(2), uf('ndtr', (mul(a, sqrt(const(2))),))), ONE),
    'psi': lambda a: fn('psi', a),
    'digamma': lambda a: fn('psi', a),
}
UNARY['loggamma'] = UNARY['gammaln']
UNARY['cbrt'] = lambda a: fn('exp', mul(const(Fraction(1, 3)), fn('log', a)))


def factorial(a):
    if a.op == 'c' and a.args[0].denominator == 1:
        v = a.args[0].numerator
        return const(math.factorial(v) if v >= 0 else 0)
    return fn('exp', fn('gammaln', add(a, ONE)))


class SymBool(object):
    """A comparison `node REL 0`, REL in '==', '<', '<='; or a boolean combination"""
    __slots__ = ('rel', 'node')

    def __init__(self, rel, node):
        self.rel = rel
        self.node = node

    def __bool__(self):
        if self.rel in ('==', '<', '<=', '!=') and self.node.op == 'c':
            v = self.node.args[0]
            return {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0}[self.rel]
        h = HOOK['fork']
        if h is None:
            raise Unsupported("branch on a symbolic value outside an exploration")
        return h(self)

    def __invert__(self):
        return SymBool('not', self)

    def __and__(self, other):
        if isinstance(other, (bool, np.bool_)):
            return self if other else False
        if not isinstance(other, SymBool):
            return NotImplemented
        return SymBool('and', (self, other))
    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (bool, np.bool_)):
            return True if other else self
        if not isinstance(other, SymBool):
            return NotImplemented
        return SymBool('or', (self, other))
    __ror__ = __or__

    def __repr__(self):
        if self.rel == 'not':
            return 'not(%r)' % (self.node,)
        if self.rel in ('and', 'or'):
            return '(%r %s %r)' % (self.node[0], self.rel, self.node[1])
        return '%s %s 0' % (show(self.node), self.rel)


def s_and(*cs):
    r = True
    for c in cs:
        r = c & r if isinstance(c, SymBool) else (r if c else False)
    return r


def s_or(*cs):
    r = False
    for c in cs:
        r = c | r if isinstance(c, SymBool) else (True if c else r)
    return r


def s_not(c):
    return ~c if isinstance(c, SymBool) else not c


class Sym(numbers.Number):
    __slots__ = ('op', 'args', 'id')

    def _bin(f):
        def m(self, other):
            o = _coerce(other)
            if o is None:
                return NotImplemented
            return f(self, o)
        return m

    def _rbin(f):
        def m(self, other):
            o = _coerce(other)
            if o is None:
                return NotImplemented
            return f(o, self)
        return m

    __add__ = _bin(add)
    __radd__ = _rbin(add)
    __sub__ = _bin(sub)
    __rsub__ = _rbin(sub)
    __mul__ = _bin(mul)
    __rmul__ = _rbin(mul)
    __truediv__ = _bin(div)
    __rtruediv__ = _rbin(div)
    __pow__ = _bin(power)
    __rpow__ = _rbin(power)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self < 0:
            return neg(self)
        return self

    def _cmp(rel, swap, negate=False):
        def m(self, other):
            if isinstance(other, (float, np.floating)) and not math.isfinite(other):
                # finite reals against inf / nan
                if math.isnan(other):
                    return False
                pos = other > 0
                return {('<', False): pos, ('<=', False): pos,
                        ('<', True): not pos, ('<=', True): not pos,
                        ('==', False): False}[(rel, swap)]
            o = _coerce(other)
            if o is None:
                return NotImplemented
            d = sub(o, self) if swap else sub(self, o)
            b = SymBool(rel, d)
            if d.op == 'c':
                b = bool(b)
            if negate:
                b = (not b) if isinstance(b, bool) else SymBool('!=', d)
            return b
        return m

    __lt__ = _cmp('<', False)
    __le__ = _cmp('<=', False)
    __gt__ = _cmp('<', True)
    __ge__ = _cmp('<=', True)
    __eq__ = _cmp('==', False)
    __ne__ = _cmp('==', False, True)

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        return hash(('Sym', self.id))

    def __float__(self):
        if self.op == 'c':
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.op == 'c':
            return int(self.args[0])
        h = HOOK['concretize']
        if h is None:
            raise Unsupported("int() of a symbolic value")
        return h(self)

    __trunc__ = __int__

    def __floor__(self):
        k = int(self)
        return k - 1 if self < k else k

    def __ceil__(self):
        k = int(self)
        return k + 1 if self > k else k

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round to digits")
        k = self.__floor__()
        d = self - k
        if d < Fraction(1, 2):
            return k
        if d > Fraction(1, 2):
            return k + 1
        return k + k % 2

    def rint(self):
        return self.__round__()

    # numpy scalar-ish API used by object loops / code
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    # as a numpy scalar
    ndim = 0
    size = 1
    shape = ()

    def sum(self, *a, **k):
        return self
    prod = mean = max = min = squeeze = sum

    def transpose(self, *a):
        return self

    @property
    def T(self):
        return self

    def reshape(self, *shape):
        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def flatten(self):
        return self.reshape((1,))
    ravel = flatten

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _install_unary():
    def mkm(f):
        def m(self):
            return f(self)
        return m
    for name, f in UNARY.items():
        setattr(Sym, name, mkm(f))


_install_unary()


def show(n, depth=6):
    if depth == 0:
        return '..'
    if n.op == 'c':
        return str(n.args[0])
    if n.op == 'v':
        return n.args[0]
    if n.op == 'f':
        return '%s(%s)' % (n.args[0], show(n.args[1], depth - 1))
    if n.op == 'u':
        o = ''.join(map(str, n.args[1])) if any(n.args[1]) else ''
        return '%s%s(%s)' % (n.args[0], "'" + o if o else '',
                             ', '.join(show(a, depth - 1) for a in n.args[2:]))
    if n.op == '^':
        return '%s^%d' % (show(n.args[0], depth - 1), n.args[1])
    return '(%s %s %s)' % (show(n.args[0], depth - 1), n.op, show(n.args[1], depth - 1))


ZERO = ONE = MONE = None
reset_table()


def children(n):
    if n.op in '+*/':
        return n.args
    if n.op == '^':
        return (n.args[0],)
    if n.op == 'f':
        return (n.args[1],)
    if n.op == 'u':
        return n.args[2:]
    return ()


def reach(roots):
    """nodes reachable from roots, children first"""
    seen = set()
    stack = [r for r in roots]
    out = []
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        out.append(n)
        stack.extend(children(n))
    out.sort(key=lambda n: n.id)
    return out


# ------------------------------------------------------------ differentiation
def diff(root, v, memo=None):
    """d root / d v  (v a 'v' node), by the textbook rules"""
    if memo is None:
        memo = {}
    if root.id in memo:
        return memo[root.id]
    for n in reach([root]):
        if n.id in memo:
            continue
        op = n.op
        if op == 'c':
            r = ZERO
        elif op == 'v':
            r = ONE if n is v else ZERO
        elif op == '+':
            r = add(memo[n.args[0].id], memo[n.args[1].id])
        elif op == '*':
            a, b = n.args
            r = add(mul(memo[a.id], b), mul(a, memo[b.id]))
        elif op == '/':
            a, b = n.args
            da, db = memo[a.id], memo[b.id]
            r = div(da, b)
            if db is not ZERO:
                r = sub(r, div(mul(a, db), powi(b, 2)))
        elif op == '^':
            a, k = n.args
            r = mul(mul(const(k), powi(a, k - 1)), memo[a.id])
        elif op == 'f':
            name, a = n.args
            da = memo[a.id]
            if da is ZERO:
                r = ZERO
            elif name == 'exp':
                r = mul(n, da)
            elif name == 'log':
                r = div(da, a)
            elif name == 'arctan':
                r = div(da, add(ONE, powi(a, 2)))
            elif name == 'gammaln':
                r = mul(fn('psi', a), da)
            else:
                raise Unsupported("derivative of %s" % name)
        elif op == 'u':
            r = ZERO
            name, orders = n.args[0], n.args[1]
            for i, a in enumerate(n.args[2:]):
                da = memo[a.id]
                if da is ZERO:
                    continue
                o = list(orders)
                o[i] += 1
                r = add(r, mul(uf(name, n.args[2:], tuple(o)), da))
        else:
            raise Unsupported(op)
        memo[n.id] = r
    return memo[root.id]


# ------------------------------------------------------------ substitution
def subst(roots, mapping):
    """replace 'v' nodes (dict id -> Sym) in the roots"""
    memo = {}
    for n in reach(roots):
        op = n.op
        if n.id in mapping:
            r = mapping[n.id]
        elif op in 'cv':
            r = n
        elif op == '+':
            r = add(memo[n.args[0].id], memo[n.args[1].id])
        elif op == '*':
            r = mul(memo[n.args[0].id], memo[n.args[1].id])
        elif op == '/':
            r = div(memo[n.args[0].id], memo[n.args[1].id])
        elif op == '^':
            r = powi(memo[n.args[0].id], n.args[1])
        elif op == 'f':
            r = fn(n.args[0], memo[n.args[1].id])
        else:
            r = uf(n.args[0], [memo[a.id] for a in n.args[2:]], n.args[1])
        memo[n.id] = r
    return [memo[r.id] for r in roots]


# ------------------------------------------------------------ evaluation
class EvalError(Exception):
    pass


def evaluate(roots, point, ufs=None, funcs=None):
    """numeric value of the roots at point {var name: float}"""
    from scipy import special as sp
    memo = {}
    try:
        for n in reach(roots):
            op = n.op
            if op == 'c':
                r = float(n.args[0])
            elif op == 'v':
                r = float(point[n.args[0]])
            elif op == '+':
                r = memo[n.args[0].id] + memo[n.args[1].id]
            elif op == '*':
                r = memo[n.args[0].id] * memo[n.args[1].id]
            elif op == '/':
                r = memo[n.args[0].id] / memo[n.args[1].id]
            elif op == '^':
                r = memo[n.args[0].id] ** n.args[1]
            elif op == 'f':
                x = memo[n.args[1].id]
                name = n.args[0]
                if name == 'exp':
                    r = math.exp(x)
                elif name == 'log':
                    r = math.log(x)
                elif name == 'arctan':
                    r = math.atan(x)
                elif name == 'gammaln':
                    r = float(sp_real('gammaln')(x))
                elif name == 'psi':
                    r = float(sp_real('psi')(x))
                else:
                    raise Unsupported(name)
            else:
                if ufs is None:
                    raise EvalError("no interpretation for %s" % n.args[0])
                r = float(ufs(n.args[0], n.args[1], [memo[a.id] for a in n.args[2:]]))
            memo[n.id] = r
    except (ValueError, ZeroDivisionError, OverflowError) as e:
        raise EvalError(str(e))
    return [memo[r.id] for r in roots]


_SP = {}


def sp_real(name):
    return _SP[name]
