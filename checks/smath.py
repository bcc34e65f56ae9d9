"""Scalar functions for the independent formulas, on symbolic terms or floats."""
import math

from vlib import patch as P
from vlib import sym as S
from vlib.sym import Sym

PI = math.pi


def _mk(name, real):
    def f(x):
        if isinstance(x, Sym):
            return S.UNARY[name](x)
        if P.MODE['sym']:
            return S.UNARY[name](S.to_sym(x))
        return real(x)
    return f


exp = _mk('exp', math.exp)
log = _mk('log', math.log)
atan = _mk('arctan', math.atan)
gammaln = _mk('gammaln', math.lgamma)
sqrt = _mk('sqrt', math.sqrt)


def expit(x):
    return 1 / (1 + exp(-x))
