"""C06: the function algebra evaluates to the expression it denotes."""
import numpy as np

from vlib.engine import Case
from checks.exprs import catalogue
from checks.flib import against

BOUNDS = {'quick': 'expression shapes in checks/exprs.py (sums, products, affine, compositions, index maps, collapses, '
                   'nestings up to depth 4, generated nestings of depth 2; up to nine terms, seven factors, six inner functions); feature axes <= 3, up to 2 extra axes, up to 9 parameters; components are arbitrary functions (one uninterpreted symbol per cell), Linear and Quadratic; every '
                   'real parameter, weight and offset',
          'thorough': 'as quick with 24 generated nestings'}


def value(env, build, dom):
    e = build(env)
    ps = [env.arr('p%d' % k, s, dom) for k, s in enumerate(e.pshapes)]
    spec = np.asarray(e.spec(ps))
    against(env, e.func, ps, spec, nn=e.nf, nd=e.nd, parts='v')


def cases(tier):
    return [Case(n, value, build=b, dom=d) for n, (b, d) in catalogue(tier).items()]
