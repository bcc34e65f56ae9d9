"""C07: chain, product and sum rules of the function algebra."""
import numpy as np

from vlib.engine import Case
from checks.exprs import catalogue
from checks.flib import against

BOUNDS = {'quick': 'the expressions of C06; every gradient block and every Hessian block (i, j), both i >= j and i < j; '
                   'components are arbitrary twice differentiable functions (uninterpreted symbols with formal '
                   'derivatives), every real parameter, weight and offset',
          'thorough': 'as quick with 24 generated nestings'}


def deriv(env, build, dom):
    e = build(env)
    ps = [env.arr('p%d' % k, s, dom) for k, s in enumerate(e.pshapes)]
    spec = np.asarray(e.spec(ps))
    against(env, e.func, ps, spec, nn=e.nf, nd=e.nd, parts='gh')


def cases(tier):
    return [Case(n, deriv, build=b, dom=d) for n, (b, d) in catalogue(tier).items()]
