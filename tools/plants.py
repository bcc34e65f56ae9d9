"""the planted bugs: one entry each, built and confirmed by plant.py"""
T = 'maxlike/tensor/tensor.py'
FB = 'maxlike/func/func_base.py'
FO = 'maxlike/func/func_op.py'
FF = 'maxlike/func/func.py'
FP = 'maxlike/func/func_proba.py'
SG = 'maxlike/func/sigmoid.py'
MX = 'maxlike/func/matrix.py'
TN = 'maxlike/func/tennis.py'
CP = 'maxlike/func/copula.py'
MB = 'maxlike/maxlike_base.py'
ML = 'maxlike/maxlike.py'
SK = 'maxlike/skellam.py'
PP = 'maxlike/preprocessing.py'

BUGS = []
HEAD = '''from util import *
from array import array
from maxlike.tensor import Tensor
import maxlike
from maxlike import func as F
rng = np.random.RandomState(3)
'''


def bug(id, property, edits, demo, needs, breaks, **kw):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, demo=HEAD + demo.strip('\n'),
                     needs=needs, breaks=breaks, **kw))


# ---------------------------------------------------------------- C01
bug('c01-mul-generic-div', 'C01',
    (T, '''                        return Tensor(0)
                elif op_type == TensorOp.DIV:'''.replace('                        return', '                    return'),
     '''                    return other * self.toarray()
                elif op_type == TensorOp.DIV:'''), '', '', '') if False else None

bug('c01-scalar-map', 'C01',
    (T, 'op_type.value(self.toarray(), other),', 'op_type.value(self.toarray() if self.x_map else self.values, other),'),
    '''
b = Tensor(rng.rand(2, 1, 3), x_dim=1, y_dim=1, y_map=array('b', [0]))
same(dense(b + 1.5), dense(b) + 1.5)
''', 'a tensor with a y map and no x map plus a number other than zero',
    'the number is added to the compressed values only')

# ---------------------------------------------------------------- C02
bug('c02-dot-square', 'C02',
    (T, '''        if other.n == self.x_dim:
            return self.dot_left(other)

        if (other.n > 0) & (other.n == self.y_dim):
            return self.transpose().dot_left(other)
''', '''        if (other.n > 0) & (other.n == self.y_dim):
            return self.transpose().dot_left(other)

        if other.n == self.x_dim:
            return self.dot_left(other)
'''),
    '''
s = Tensor(rng.rand(2, 2, 3), x_dim=1, y_dim=1)
o = Tensor(rng.rand(2))
same(dense(s.dot(o)), np.einsum('a,aym->ym', dense(o), dense(s)))
''', 'dot of a tensor with as many x axes as y axes and a plain vector',
    'the y axis is contracted instead of the x axis', insert=True)

# ---------------------------------------------------------------- C03
bug('c03-expand-perm', 'C03',
    (T, 'rng[p:pn] = rng[p:pn][np.argsort(where)]', 'rng[p:pn] = rng[p:pn][np.argsort(np.argsort(where))]'),
    '''
a = Tensor(rng.rand(2, 3, 4))
same(dense(a.expand([2, 0, 1], 3)), dense(a).transpose(1, 2, 0))
''', 'expand with a cyclic permutation of at least three value axes',
    'the axes are put in the inverse permutation')

bug('c03-expand-dim-perm', 'C03',
    (T, 'rng[pn:] = rng[pn:][np.argsort(where)]', 'rng[pn:] = rng[pn:][np.argsort(np.argsort(where))]'),
    '''
a = Tensor(rng.rand(2, 2, 3, 4), dim=3)
same(dense(a.expand([2, 0, 1], 3, dim=True)), dense(a).transpose(0, 2, 3, 1))
''', 'expand of the extra axes with a cyclic permutation of at least three axes',
    'the axes are put in the inverse permutation')

bug('c03-sum-cross', 'C03',
    (T, '''            idx[self.x_dim + f] = slice(None)
            val = val * np.eye(val.shape[k])[tuple(idx)]''',
     '''            idx[self.x_dim + k] = slice(None)
            val = val * np.eye(val.shape[k])[tuple(idx)]'''),
    '''
a = Tensor(rng.rand(1, 1, 1, 1, 2, 2), x_dim=2, y_dim=2, x_map=array('b', [0, 1]), y_map=array('b', [1, 0]))
same(dense(a.sum([0])), dense(a).sum(4))
same(dense(a.sum(True)), dense(a).sum((4, 5)))
''', 'summing an axis on which an x axis and a y axis of different positions are mapped',
    'the tie between the x and the y axis goes to the wrong y axis')

bug('c03-flip-dim', 'C03',
    (T, '''            # assert max(where) < self.dim
            p += self.n
''', '''            # assert max(where) < self.dim
            p = self.values.ndim - len(where)
'''),
    '''
a = Tensor(rng.rand(2, 3, 3), dim=2)
same(dense(a.flip([0], dim=True)), dense(a)[:, ::-1])
''', 'flip of an extra axis that is not the last one', 'another axis is flipped')

# ---------------------------------------------------------------- C04
bug('c04-quadratic-hess', 'C04',
    (FF, '2 * np.ones_like(params[i]) / self.s / self.s,', '2 * np.ones_like(params[i]) / self.s,'),
    '''
f = F.Quadratic(.3, 2.)
p = rng.rand(2)
same(dense(f.hess([p], 0, 0)), num_grad(lambda q: dense(f.grad(q, 0)), [p], 0), 1e-5)
''', 'a scale other than one', 'the Hessian has one factor 1/s less')

bug('c04-logistic-clip', 'C04',
    (SG, '''        f = expit(params[0])
        return grad_tensor(f * (1 - f), params, i, True)''',
     '''        f = expit(np.clip(params[0], -6, 6))
        return grad_tensor(f * (1 - f), params, i, True)'''),
    '''
f = F.Logistic()
for x in (-9., -2., .5, 7.5):
    p = np.array([x])
    g = dense(f.grad([p], 0))[0, 0]
    e = np.exp(-x) / (1 + np.exp(-x)) ** 2
    check(abs(g - e) < 1e-6 * e, (x, g, e))
''', 'a parameter beyond -6 or 6', 'the gradient saturates there')

bug('c04-arctan-hess', 'C04',
    (SG, 'return hess_tensor(-2 * x / (1 + x * x) ** 2,', 'return hess_tensor(-2 * np.abs(x) / (1 + x * x) ** 2,'),
    '''
f = F.ArcTan()
p = np.array([-.7, .4])
same(dense(f.hess([p], 0, 0)), num_grad(lambda q: dense(f.grad(q, 0)), [p], 0), 1e-5)
''', 'a negative parameter', 'the Hessian has the wrong sign there')

# ---------------------------------------------------------------- C05
bug('c05-lognb-grad', 'C05',
    (FP, '''            x / m - (x + self.r) / (self.r + m),
            params, i, True, dim=1)''', '''            x / m - (x + 1) / (self.r + m),
            params, i, True, dim=1)'''),
    '''
f = F.LogNegativeBinomial(5, 2.5)
p = np.array([.7, 1.9])
same(dense(f.grad([p], 0)), num_grad(lambda q: dense(f(q)), [p], 0), 1e-5)
''', 'a dispersion other than one', 'the gradient is that of r = 1 in the numerator')

bug('c05-lognb-norm', 'C05',
    [(FP, '''        vec += gammaln(self.r + x)
        vec -= gammaln(self.r)
''', '''        vec += gammaln(self.r + x)
        vec -= gammaln(np.floor(self.r))
''')],
    '''
from scipy.stats import nbinom
for r in (1., 2., 3., 2.4, .6):
    f = F.LogNegativeBinomial(5, r)
    m = np.array([.8])
    same(np.exp(dense(f([m]))[0]), nbinom.pmf(np.arange(5), r, r / (r + .8)), 1e-9)
''', 'a dispersion that is not an integer', 'the normalising constant is wrong',
    count={'''        vec += gammaln(self.r + x)
        vec -= gammaln(self.r)
''': 2})

# ---------------------------------------------------------------- C06
bug('c06-affine-offset', 'C06',
    (FB, 'self.b = a * base.b + b', 'self.b = base.b + b'),
    '''
f = F.X()
p = rng.rand(3)
same(dense(((f + 2.) * 3. + 1.)([p])), (p + 2) * 3 + 1)
same(dense((5. - (f + 2.))([p])), 5 - p - 2)
''', 'an affine transform of an affine transform with an offset', 'the inner offset is not scaled')

bug('c06-product-dims', 'C06',
    (FO, '''                    atom.dim_map(dim_map))
        else:
            self.atoms.append(FuncWrap(''', '''                    atom.dim_map)
        else:
            self.atoms.append(FuncWrap('''),
    '''
inner = F.Product(1, 1)
inner.add(F.Poisson(3), 0, 0, 0)
outer = F.Product(1, 2)
outer.add(inner, [0], [0], [1])
outer.add(F.Poisson(4), 1, 0, 0)
a, b = np.array([.3, .9]), np.array([1.2, .5])
same(dense(outer([a, b])), dense(F.Poisson(4)([b]))[:, :, None] * dense(F.Poisson(3)([a]))[:, None, :])
''', 'a product inside a product with a non trivial map of the extra axes',
    'the extra-axis map of the outer product is ignored')

# ---------------------------------------------------------------- C07
bug('c07-compose-hess-t', 'C07',
    (FB, '''                    f_hess = self.f.hess(g_val, l, k).transpose()
''', '''                    f_hess = self.f.hess(g_val, l, k)
'''), '''
from maxlike.func.func_base import Func, Compose
class G(Func):
    # f(u, v) = sum_ab u_a W_ab v_b
    W = np.array([[1., 2.], [-3., .5]])
    def __call__(self, params):
        u, v = [np.asarray(p) for p in params]
        return Tensor(u @ self.W @ v)
    def grad(self, params, i):
        u, v = [np.asarray(p) for p in params]
        return Tensor(self.W @ v if i == 0 else u @ self.W, x_dim=1)
    def hess(self, params, i, j):
        if i == j:
            return Tensor(np.zeros((2, 2)), x_dim=1, y_dim=1)
        return Tensor(self.W if i == 0 else self.W.T, x_dim=1, y_dim=1)

h = Compose(G(), [F.Exp(), F.Vector([1., -2.]) ])
p, q = np.array([.3, -.4]), np.array(.7)
class E(Func):
    def __call__(self, params):
        return Tensor(np.exp(np.asarray(params[0])))
    def grad(self, params, i):
        return Tensor(np.diag(np.exp(np.asarray(params[0]))), x_dim=1)
    def hess(self, params, i, j):
        v = np.zeros((2, 2, 2))
        for k in range(2):
            v[k, k, k] = np.exp(np.asarray(params[0])[k])
        return Tensor(v, x_dim=1, y_dim=1)
class Sq(E):
    def __call__(self, params):
        return Tensor(np.asarray(params[0]) ** 2)
    def grad(self, params, i):
        return Tensor(np.diag(2 * np.asarray(params[0])), x_dim=1)
    def hess(self, params, i, j):
        v = np.zeros((2, 2, 2))
        for k in range(2):
            v[k, k, k] = 2
        return Tensor(v, x_dim=1, y_dim=1)
h = Compose(G(), [E(), Sq()])
same(dense(h.hess([p], 0, 0)), num_grad(lambda x: dense(h.grad(x, 0)), [p], 0), 1e-5)
''', 'a composition whose outer function has a non symmetric cross Hessian between two arguments',
    'the cross term is transposed')

bug('c08-compose-eval-l', 'C08',
    (FB, 'h = f_hess[l][k].transpose() if l > k else f_hess[k][l]', 'h = f_hess[max(k, l)][min(k, l)]'),
    BUGS[-1]['demo'].split(HEAD)[1].replace('dense(h.hess([p], 0, 0))', 'dense(h.eval([p])[2][0][0])'),
    'one-pass evaluation of a composition whose outer function has a non symmetric cross Hessian',
    'the cross term is transposed')

bug('c07-affine-null', 'C07',
    (FB, '''        return self.a * self.base.hess(params, i, j)
''', '''        return abs(self.a) * self.base.hess(params, i, j)
'''), '''
f = 1. - F.Exp()
p = np.array([.3, .8])
same(dense(f.hess([p], 0, 0)), num_grad(lambda x: dense(f.grad(x, 0)), [p], 0), 1e-5)
''', 'an affine transform with a negative factor', 'the Hessian keeps the sign of the base')

# ---------------------------------------------------------------- C08
bug('c08-lognb-eval', 'C08',
    (FP, '''        vec -= (x + self.r) * np.log(self.r + m)
        val = Tensor(vec, dim=1)''', '''        vec -= (x + self.r) * np.log1p(m)
        val = Tensor(vec, dim=1)'''), '''
f = F.LogNegativeBinomial(4, 2.5)
p = [np.array([.3, .8])]
same(dense(f.eval(p)[0]), dense(f(p)))
''', 'a dispersion other than one, and the one-pass evaluation', 'the value returned by eval is another one')

# ---------------------------------------------------------------- C09
# ---------------------------------------------------------------- C10
bug('c10-markov-h22', 'C10',
    (MX, 'H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2', 'H22[..., x, y_] += s2 * f2 * hm22 + 2 * f1 * dm2'),
    '''
sk = .5 + rng.rand(3, 3) / 2
f = F.MarkovMatrix(3, 4, sk)
p = [np.array([.3, .5]), np.array([.7, .4])]
same(dense(f.hess(p, 1, 1)), num_grad(lambda q: dense(f.grad(q, 1)), p, 1), 1e-4)
''', 'a skew that is not symmetric', 'the second derivative in the second rate uses the skew of the first')

bug('c10-vector-skew', 'C10',
    [(MX, '''                f2 = self.skew[2 * self.size - 2 - x]
                m = M[..., x].copy()
                M[..., x_] += m * s2 * f2''', '''                f2 = self.skew[x]
                m = M[..., x].copy()
                M[..., x_] += m * s2 * f2''')],
    '''
sk = .5 + rng.rand(5) / 2
f = F.MarkovVector(3, 4, sk)
a, b = np.array([.3]), np.array([.7])
same(dense(f([a, b]))[0], dense(f([b, a]))[0, ::-1])
''', 'a skew that is not symmetric', 'exchanging the rates does not mirror the distribution')

# ---------------------------------------------------------------- C11
bug('c11-grad-offset', 'C11',
    (MX, '''                           y * rng_y[None, :] + c) == s
            val.append(ones * filt)''', '''                           y * rng_y[None, :]) + c == s
            val.append(ones * filt)'''),
    '''
f = F.CollapseMatrix([(1, 1, -2, 1), (1, -1, 1, 0)])
p = [rng.rand(3, 3)]
same(dense(f.grad(p, 0)), num_grad(lambda q: dense(f(q)), p, 0), 1e-5)
''', 'a condition with an offset', 'the gradient selects other cells than the value')

bug('c11-nonsquare', 'C11',
    (MX, '''        rng_x = np.arange(arr.shape[-2])
        rng_y = np.arange(arr.shape[-1])
        val = []''', '''        rng_x = np.arange(arr.shape[-2])
        rng_y = np.arange(arr.shape[-1]) + (arr.shape[-2] > arr.shape[-1])
        val = []'''),
    '''
f = F.CollapseMatrix()
m = rng.rand(4, 2)
x, y = np.indices(m.shape)
same(dense(f([m])), [m[x > y].sum(), m[x == y].sum(), m[x < y].sum()])
''', 'a matrix with more rows than columns', 'the cells are shifted by one column')

# ---------------------------------------------------------------- C12
MLE = '''
def mle(cls, X, N, **kw):
    m = cls(**kw)
    s = F.Sum(1)
    s.add(F.X(), 0, 0)
    m.model = s
    m.add_param(np.array([.3, -.2, .5]))
    m.X = Tensor(np.array(X, float))
    m.N = Tensor(np.array(N, float))
    return m
'''
bug('c12-reg-args', 'C12',
    (MB, '            g -= h([params[k] for k in param_map])', '            g -= h([params[k] for k in sorted(param_map)])'),
    MLE + '''
from maxlike.func.func_base import Func
class D(Func):
    def __call__(self, params):
        return Tensor((np.asarray(params[0]) ** 2).sum() - (np.asarray(params[1]) ** 3).sum())
    def grad(self, params, i):
        p = np.asarray(params[i])
        return Tensor(2 * p if i == 0 else -3 * p * p, x_dim=1)
    def hess(self, params, i, j):
        return Tensor(0)
m = mle(maxlike.Poisson, [1, 2, 3], [1, 1, 1])
m.add_param(np.array([.5, .2]))
p, q = np.array([.1, .7, -.4]), np.array([.3, .9])
a = m.g((p, q))
m.add_regularization([1, 0], D())
same(a - m.g((p, q)), ((q ** 2).sum() - (p ** 3).sum()) / 3, 1e-9)
''', 'a regularization of two parameters given in descending order', 'its arguments are exchanged')

# ---------------------------------------------------------------- C13
DER = MLE + '''
def ders(m, p):
    def grad(q):
        y, d, h = m.model.eval(q)
        return [dense(g) for g in m.grad_like(q, y, d)]
    y, d, h = m.model.eval(p)
    same(grad(p)[0], num_grad(lambda q: float(m.like(q, m.model(q))), p, 0), 1e-5)
    same(dense(m.hess_like(p, y, d, h)[0][0]), num_grad(lambda q: grad(q)[0], p, 0), 1e-5)
'''
bug('c13-nb-hess', 'C13',
    (ML, 'delta2 = (self.X + r * self.N) * s * s - self.X + delta', 'delta2 = (self.X + self.N) * s * s - self.X + delta'),
    DER + '''
m = mle(maxlike.NegativeBinomial, [2, 0, 1], [3, 1, 4], scale=2.5)
ders(m, [np.array([.1, .7, -.4])])
''', 'a scale other than one', 'the Hessian is that of r = 1')

# ---------------------------------------------------------------- C14
CON = MLE + '''
from maxlike.func.func_base import Func
class Lin(Func):
    """sum of w * p over the arguments"""
    def __init__(self, *ws):
        self.ws = ws
    def __call__(self, params):
        return Tensor(sum((w * np.asarray(p)).sum() for w, p in zip(self.ws, params)))
    def grad(self, params, i):
        return Tensor(np.asarray(self.ws[i]) * np.ones(np.shape(params[i])), x_dim=np.ndim(params[i]))
    def hess(self, params, i, j):
        return Tensor(np.zeros(np.shape(params[i]) + np.shape(params[j])), x_dim=1, y_dim=1)
'''
bug('c14-repeated-arg', 'C14',
    (MB, '                hess_c[k][idx] += grad_g[i].sum().values', '                hess_c[k][idx] = grad_g[i].sum().values + 0 * hess_c[k][idx]'),
    CON + '''
m = mle(maxlike.Poisson, [1, 2, 3], [1, 1, 1])
m.add_constraint([0, 0], Lin(1., 2.))
y, d, h = m.model.eval(m.params)
H = m.flat_hess(m.params, y, d, h)
same(H[3], [3, 3, 3, 0])
''', 'a constraint on the same parameter twice', 'only the last argument contributes to the border')

# ---------------------------------------------------------------- C15
bug('c15-fixed-offset', 'C15',
    (MB, '''                shaped_array.append(Param(data, mask=p.mask))
                s_0 = s_1
                f_0 = f_1''', '''                shaped_array.append(Param(data, mask=p.mask))
                s_0 = s_1
                f_0 += p.mask.any(-1).sum()'''),
    '''
m = maxlike.Poisson()
m.add_param(np.array([[1., 2.], [3., 4.]]), np.array([[True, True], [False, False]]))
m.add_param(np.array([5., 6.]), np.array([True, False]))
q = m._reshape_params(np.concatenate([p.compressed() for p in m.params]))
for a, b in zip(q, m.params):
    same(a.values, b.values)
''', 'a matrix parameter with two fixed entries in the same row followed by another parameter with fixed entries',
    'fixed entries receive the value of another one')

# ---------------------------------------------------------------- C16
FIT = '''
class M(maxlike.Poisson):
    """a fit of scripted objectives"""
    def __init__(self, gs, steps):
        maxlike.Poisson.__init__(self)
        self.gs, self.steps, self.n = list(gs), list(steps), 0
        self.model = lambda p: None
        self.params = ()
        self.add_param(np.array([1., 2.]), np.array([False, True]))
    def g(self, params, y=None):
        return self.gs.pop(0)
    def newton_step(self, params):
        return np.array(self.steps[0]), self.gs.pop(0), np.zeros(1), -np.eye(1)
from maxlike.maxlike_base import ConvergenceError
'''
bug('c16-accept-within-tol', 'C16',
    (MB, '                    if g >= prev_g:', '                    if g >= prev_g - tol:'),
    FIT + '''
m = M([-1., -1.005, -.9, -.9, -.9] + [-.9] * 20, [[.1]])
m.fit(tol=1e-2)
check(abs(m.params[0].values[0] - (1 - .05)) < 1e-12 or m.params[0].values[0] != .9, m.params[0].values)
''', 'a trial step that decreases the objective by less than the tolerance', 'it is accepted')

bug('c16-one-sided', 'C16',
    (MB, '''                if abs(prev_g / g - 1) < tol:
                    self.params = params
                    self.flat_hess_ = hess''', '''                if prev_g / g - 1 < tol:
                    self.params = params
                    self.flat_hess_ = hess'''),
    FIT + '''
m = M([1., 2., 2., 4., 4., 4.] + [4.] * 20, [[.1]])
m.fit(tol=1e-2)
same(m.params[0].values[0], 1 - .3)
''', 'a positive objective', 'convergence is reported after the first accepted step')

bug('c16-params-early', 'C16',
    (MB, '''                    if g >= prev_g:
                        flat_params = new_flat_params
                        break''', '''                    if g >= prev_g:
                        flat_params = new_flat_params
                        self.params = params
                        break'''),
    FIT + '''
m = M([-4., -2., -2.] + [-9.] * 30, [[.1]])
try:
    m.fit(tol=1e-2)
    check(False, 'converged')
except ConvergenceError:
    pass
same(m.params[0].values, [1., 2.])
''', 'an accepted step followed by a failure to improve', 'the failed fit leaves other parameters', insert=True)

# ---------------------------------------------------------------- C17
bug('c17-bic-constraints', 'C17',
    [(MB, '''        k += nb_extra_params
        k -= len(self.constraint)
        n = self.N.sum(sum_val=True, sum_dim=True).values
        l = self.g(self.params)
        return k * np.log(n) / n - 2 * l''', '''        k += nb_extra_params
        k -= min(len(self.constraint), 1)
        n = self.N.sum(sum_val=True, sum_dim=True).values
        l = self.g(self.params)
        return k * np.log(n) / n - 2 * l''')],
    CON + '''
m = mle(maxlike.Poisson, [1, 2, 3], [1, 4, 1])
a = m.bayesian_information_criterion()
m.add_constraint([0], Lin(1.))
m.add_constraint([0], Lin(2.))
same(a - m.bayesian_information_criterion(), 2 * np.log(6.) / 6, 1e-9)
''', 'two or more constraints', 'only one of them is subtracted from the degrees of freedom')

# ---------------------------------------------------------------- C18
# ---------------------------------------------------------------- C19
bug('c19-mid-derivative', 'C19',
    (SK, 'return v[:, :-1].sum(1) + 0.5 * v[:, -1]', 'return v.sum(1) - np.array([0.5, 1]) * v[:, -1]'),
    '''
from maxlike.skellam import *
e = 1e-6
for n in (0, 1, 3):
    f, d = poisson_mid_cdf(1.3, n)
    same(d, (poisson_mid_cdf(1.3 + e, n)[0] - poisson_mid_cdf(1.3 - e, n)[0]) / (2 * e), 1e-5)
''', 'the derivative of the mid cumulative function', 'the last entry is not halved in the derivative row')

# ---------------------------------------------------------------- C20
bug('c20-give-up', 'C20',
    (SK, '''    while e > abs(tol):
        skellam = skellam_cdf_pair(a, b, n, tol)''', '''    while e > abs(tol) and (count < max_steps or e > 1e-2):
        skellam = skellam_cdf_pair(a, b, n, tol)'''),
    '''
import maxlike.skellam as S
real = S.skellam_cdf_pair
def slow(a, b, n=0, tol=1e-8):
    return np.array([[.3005, -.5, .1], [.4, .1, -.5]])
S.skellam_cdf_pair = slow
try:
    r = S.skellam_cdf_root(.3, .4)
    check(False, r)
except S.ConvergenceError:
    pass
S.skellam_cdf_pair = real
a, b = S.skellam_cdf_root(.3, .4)
same(real(a, b)[:, 0], [.3, .4], 1e-7)
''', 'a search that stalls near the target', 'a pair of rates out of tolerance is returned instead of an error', insert=True)

# ---------------------------------------------------------------- C21
bug('c21-unsorted', 'C21',
    [(PP, '''        if add_axis is not None:
            axis = sorted(set(axis).union(add_axis))
        shape = (len(axis))''', '''        if add_axis is not None:
            axis = axis + [a for a in add_axis if a not in axis]
        shape = (len(axis))''')],
    '''
import pandas as pd
from maxlike.preprocessing import prepare_series
r, axis = prepare_series(pd.Series([1, 2, 4], index=[3, 1, 3]), {'X': 'sum'}, [2, 1])
check(list(axis) == [1, 2, 3], axis)
same(r['X'], [2, 0, 5])
''', 'extra labels that do not come after the observed ones', 'the axis is not sorted')

bug('c21-count', 'C21',
    [(PP, 'np.insert(X, -1, X.sum(-1) == False, 1),', 'np.insert(X, -1, series.values == size - 1, 1),')],
    '''
import pandas as pd
from maxlike.preprocessing import df_count
r = df_count(pd.Series([0, 1, 5, 2, 3]), 3)
check((r.values.sum(1) == 1).all(), r)
''', 'an observation above size - 1', 'it is marked in no category')

# ---------------------------------------------------------------- C22
bug('c22-flip-map', 'C22',
    (T, '''            mappings = array('b')
            mappings += self.x_map
            mappings += self.y_map''', '''            mappings = self.x_map
            mappings += self.y_map'''),
    '''
a = Tensor(rng.rand(1, 1, 2, 2), x_dim=1, y_dim=1, x_map=array('b', [0]), y_map=array('b', [0]))
d = dense(a)
a.flip([1])
check(list(a.x_map) == [0] and list(a.y_map) == [0], (a.x_map, a.y_map))
same(dense(a), d)
''', 'flipping a tensor that has an x map and a y map', 'the x map of the operand grows')

bug('c22-skew', 'C22',
    [(MX, '''        M = np.zeros(s1.shape + (self.size, self.size))
        D1 = np.zeros_like(M)''', '''        M = np.zeros(s1.shape + (self.size, self.size))
        self.skew[-1, -1] *= .5
        D1 = np.zeros_like(M)''')],
    '''
sk = np.ones((3, 3))
f = F.MarkovMatrix(3, 4, sk)
p = [np.array([.3]), np.array([.7])]
f.eval(p)
same(sk, 1)
''', 'one-pass evaluation', 'the skew given by the caller is changed', insert=True)

# ================================================================ second batch
bug('c01-add-perm-map', 'C01',
    (T, '''            if (self.x_map == other.x_map) & \\
                    (self.y_map == other.y_map):
                return Tensor(''', '''            if (sorted(self.x_map) == sorted(other.x_map)) & \\
                    (self.y_map == other.y_map):
                return Tensor('''),
    '''
a = Tensor(rng.rand(1, 1, 2, 2), x_dim=2, x_map=array('b', [0, 1]))
b = Tensor(rng.rand(1, 1, 2, 2), x_dim=2, x_map=array('b', [1, 0]))
same(dense(a + b), dense(a) + dense(b))
''', 'two addends with two x axes mapped to the same value axes in a different order',
    'the sum takes the map of the first addend for both')

bug('c01-0d-maps', 'C01',
    (T, '                other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)',
     '                other.x_dim, other.y_dim, other.dim, other.x_map, other.x_map)'),
    '''
a = Tensor(rng.rand(1, 1, 2, 2), x_dim=1, y_dim=1, x_map=array('b', [0]), y_map=array('b', [1]))
same(dense(Tensor(3.) * a), 3 * dense(a))
''', 'a 0-d tensor times a tensor with different x and y maps', 'the product takes the x map for y')

bug('c02-dot-y', 'C02',
    (T, '            return self.transpose().dot_left(other.transpose()).transpose()\n',
     '            return self.transpose().dot_left(other.transpose())\n'),
    '''
s = Tensor(rng.rand(4, 2, 3), x_dim=1, y_dim=1)
o = Tensor(rng.rand(5, 2), y_dim=1)
r = s.dot(o)
same(dense(r), np.einsum('xnm,yn->xym', dense(s), dense(o)))
''', 'dot of a tensor with a factor that only has y axes', 'the result is transposed')

bug('c02-generic-ydim', 'C02',
    (T, '''            return GenericTensor(
                other.x_dim, self.y_dim, self.n, dim,
                [self.dot_left(el) for el in other.elements])''', '''            return GenericTensor(
                other.x_dim, self.y_dim, self.n, self.dim,
                [self.dot_left(el) for el in other.elements])'''),
    '''
s = Tensor(rng.rand(2, 2), x_dim=1)
a = Tensor(rng.rand(1, 2, 3), x_dim=1, x_map=array('b', [0]), dim=1)
b = Tensor(rng.rand(2, 2), x_dim=1)
g = a + b
r = s.dot_left(g) * np.array([1., 2.])
same(dense(r), np.einsum('xne,nm->xme', dense(g), dense(s)) * np.array([1., 2.])[None, :, None])
''', 'a sum of tensors with extra axes contracted by a tensor without', 'the result is taken for one without extra axes')

bug('c06-flip-order', 'C06',
    (FO, '        return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\\\n                 expand(self.dim_map, self.n_dim, dim=True)',
     '        return x.flip(self.feat_flip).expand(self.feat_map, self.n_feat).\\\n                 expand(self.dim_map, self.n_dim, dim=True)'),
    '''
from maxlike.func.func_op import FuncWrap
c = rng.rand(2, 3)
f = FuncWrap(F.Constant(c), None, [1, 0], 2, feat_flip=[0])
same(dense(f([])), c.T[::-1])
''', 'a feature flip together with a map that exchanges features', 'the other feature is flipped')

bug('c09-set-clamp', 'C09',
    (TN, '        p = np.minimum(p, 1 - 1e-10)\n        p = np.maximum(p, 1e-10)\n',
     '        p = np.minimum(p, 1 - 1e-3)\n        p = np.maximum(p, 1e-3)\n'),
    '''
from maxlike.func.tennis import Set
f = Set()
p, t = np.array([.9999]), np.array([.7])
same(dense(f([p, t]))[0, 0], .9999 ** 6, 1e-9)
''', 'a game probability very close to one', 'the probability is cut at 0.999')

bug('c12-logistic-clip', 'C12',
    (ML, '        return -(self.N * np.log(1 + np.exp(-y)) +', '        return -(self.N * np.log(1 + np.exp(np.minimum(-y, 30))) +'),
    MLE + '''
m = mle(maxlike.Logistic, [2, 0, 1], [3, 1, 4])
p = np.array([.1, -40., -.4])
X, N = np.array([2, 0, 1]), np.array([3, 1, 4])
e = (-(N * np.logaddexp(0, -p) + (N - X) * p)).sum() / 8
same(m.g((p,)), e, 1e-9)
''', 'a model value below -30', 'the overflow guard cuts the log-likelihood')

bug('c12-nb-scale', 'C12',
    (ML, '                r * np.log(r) - gammaln(r) +', '                r * np.log(r) * (self.N > 0) - gammaln(r) +') , '', '', '') if False else None

bug('c13-floor', 'C13',
    (ML, '        return [(self.N * d / y).sum() for d in der]', '        return [(self.N * d / np.maximum(y, 1e-3)).sum() for d in der]'),
    DER + '''
m = maxlike.NormalizedFinite()
s = F.Sum(1, 1)
s.add(F.Poisson(3), 0, 0, 0)
m.model = s
m.N = Tensor(np.array([[1., 2., 3.], [0., 1., 1.]]), dim=1)
p = [np.array([1e-2, 1.3])]
y, d, h = m.model.eval(p)
def like(q):
    return float(m.like(q, m.model(q)))
same(dense(m.grad_like(p, y, d)[0]), num_grad(like, p, 0, 1e-6), 1e-4)
''', 'a probability below 0.001', 'its contribution to the gradient is cut')

bug('c13-poisson-clip', 'C13',
    (ML, '        delta = self.X - self.N * np.exp(y)\n', '        delta = self.X - self.N * np.exp(np.minimum(y, 20))\n'),
    DER + '''
m = mle(maxlike.Poisson, [2, 0, 1], [3, 1, 4])
y, d, h = m.model.eval([np.array([.1, 21., -.4])])
g = dense(m.grad_like([np.array([.1, 21., -.4])], y, d)[0])
same(g[1], -np.exp(21.), 1e-9)
''', 'a model value above 20', 'the gradient saturates while the log-likelihood does not')

bug('c13-zip-grad', 'C13',
    (ML, '        delta = self.X - self.N * exp_y / (1 + (self.s - 1) * np.exp(-exp_y))\n        return',
     '        delta = self.X - self.N * exp_y / (1 + (self.s - 1) * np.exp(-np.minimum(exp_y, 4)))\n        return'),
    DER + '''
m = mle(maxlike.ZeroInflatedPoisson, [2, 0, 1], [3, 1, 4], s=3)
m.Z = Tensor(np.array([1., 1., 3.]))
p = [np.array([.1, 2.2, -.4])]
y, d, h = m.model.eval(p)
same(dense(m.grad_like(p, y, d)[0]), num_grad(lambda q: float(m.like(q, m.model(q))), p, 0), 1e-4)
''', 'a mean above 4', 'the zero inflation term of the gradient is cut')

bug('c14-reg-sorted', 'C14',
    [(MB, '''        for param_map, h in self.reg:
            args = [params[k] for k in param_map]
            grad_h = h.grad(args)''', '''        for param_map, h in self.reg:
            args = [params[k] for k in sorted(param_map)]
            grad_h = h.grad(args)''')],
    CON + '''
class Sq(Func):
    def __call__(self, params):
        return Tensor((np.asarray(params[0]) ** 2).sum() - (np.asarray(params[1]) ** 3).sum())
    def grad(self, params, i):
        p = np.asarray(params[i])
        return Tensor(2 * p if i == 0 else -3 * p * p, x_dim=1)
    def hess(self, params, i, j):
        return Tensor(0)
m = mle(maxlike.Poisson, [1, 2, 3], [1, 1, 1])
m.add_param(np.array([.5, .2, .1]))
y, d, h = m.model.eval(m.params)
g0 = m.flat_grad(m.params, y, d)
m.add_regularization([1, 0], Sq())
g1 = m.flat_grad(m.params, y, d)
p, q = [np.asarray(x) for x in m.params]
same(g0 - g1, np.concatenate([-3 * p * p, 2 * q]))
''', 'a regularization of two parameters given in descending order', 'the gradient is taken at exchanged arguments')

bug('c16-stale-hess', 'C16',
    (MB, '''                if not (self.converged and
                        hasattr(self, 'flat_hess_') and''', '''                if not (hasattr(self, 'flat_hess_') and'''),
    '''
from maxlike.maxlike_base import ConvergenceError
m = maxlike.Poisson()
s = F.Sum(1)
s.add(F.X(), 0, 0)
m.model = s
m.add_param(np.zeros(2))
kw = dict(X=np.array([2., 3.]), N=np.ones(2))
m.flat_hess_ = np.array([[-100., 0], [0, -100.]])
for k in kw:
    m.__dict__[k] = Tensor(kw[k])
try:
    m.fit(method='broyden', max_steps=1, tol=1e9, **kw)
except ConvergenceError:
    check(False)
same(m.params[0].values, [1., 2.])
''', 'a Broyden fit of a model that has a Hessian but is not converged', 'the first step uses the old Hessian')

bug('c16-broyden-early', 'C16',
    (MB, '''                    params = self._reshape_params(flat_params)
                    g = self.g(params)

                    if verbose > 0:
                        print(k + 1, g)
''', '''                    self.params = params = self._reshape_params(flat_params)
                    g = self.g(params)

                    if verbose > 0:
                        print(k + 1, g)
'''),
    '''
from maxlike.maxlike_base import ConvergenceError
m = maxlike.Poisson()
s = F.Sum(1)
s.add(F.X(), 0, 0)
m.model = s
m.add_param(np.zeros(2))
try:
    m.fit(method='broyden', max_steps=1, tol=1e-12, X=np.array([2., 3.]), N=np.ones(2))
    check(False)
except ConvergenceError:
    pass
same(m.params[0].values, [0., 0.])
''', 'a Broyden fit that reaches the step limit', 'the failed fit leaves other parameters')

bug('c17-fisher-cov', 'C17',
    (MB, '        return self._reshape_matrix(self.flat_hess_, 0)', '        return self._reshape_matrix(np.triu(self.flat_hess_) + np.triu(self.flat_hess_, -1).T - np.diag(np.diag(self.flat_hess_)), 0)'),
    '''
m = maxlike.Poisson()
m.add_param(rng.rand(3))
H = rng.rand(3, 3)
H = -(H @ H.T)
m.flat_hess_ = H
same(m.fisher_matrix()[0][0], H)
''', 'any', 'entries below the diagonal are doubled')

bug('c18-amh-negative', 'C18',
    (CP, 'return x * y / (1 - self.rho * (1 - x) * (1 - y))', 'return x * y / (1 - abs(self.rho) * (1 - x) * (1 - y))'),
    '''
from maxlike.func.copula import AkiMikhailHaq
x, y = np.array([.2, .8]), np.array([.4, .6])
same(dense(AkiMikhailHaq(-.5)([x, y]))[0, 0], .08 / (1 + .5 * .8 * .6))
''', 'a negative parameter', 'its sign is lost')

bug('c18-clayton-big', 'C18',
    (CP, '''        return np.power(
            np.power(x, -self.a) + np.power(y, -self.a) - 1,
            -1 / self.a)''', '''        return np.power(
            np.power(x, -self.a) + np.power(y, -self.a) - min(self.a, 1),
            -1 / self.a)'''),
    '''
from maxlike.func.copula import Clayton
x, y = np.array([.2, .8]), np.array([.4, .6])
same(dense(Clayton(.5)([x, y])).sum(-1), x, 1e-9)
''', 'a parameter below one', 'the margins are wrong')

bug('c19-vec-int', 'C19',
    (SK, '    dcurve = np.append(-1, curve[:-1] - curve[1:])', '    dcurve = np.append(-curve[:1], curve[:-1] - curve[1:] * (a != 1))'),
    '''
from maxlike.skellam import *
same(poisson_vector(1., 4)[1], np.exp(-1.) * (np.array([0, 1, 1, .5]) - np.array([1, 1, .5, 1 / 6.])))
''', 'a rate of exactly one', 'the derivative row is wrong')

bug('c20-count-accept', 'C20',
    (SK, '''                scale_factor *= .5
        count += 1
        if count > max_steps:
            raise ConvergenceError(
                "Error: no convergence after %d steps" % max_steps)
    return a


def skellam_cdf_root''', '''                scale_factor *= .5
        count += abs(target - new_f) < abs(e)
        if count > max_steps:
            raise ConvergenceError(
                "Error: no convergence after %d steps" % max_steps)
    return a


def skellam_cdf_root'''),
    '''
import signal
import maxlike.skellam as S
S.poisson_cdf = lambda a, n: np.array([.4, -.3])
signal.alarm(20)
try:
    r = S.poisson_cdf_root(.3)
    check(False, r)
except S.ConvergenceError:
    pass
''', 'a search that never improves', 'it never ends')


# ------------------------------------------------ third batch: histories, sizes
bug('c04-exp-cache', 'C04',
    [(FF, '''    def __call__(self, params):
        return Tensor(np.exp(params[0]))

    def grad(self, params, i):
        f = Tensor(np.exp(params[0]))
        return grad_tensor(f, params, i, True, dim=f.dim)
''', '''    def __call__(self, params):
        self._val = Tensor(np.exp(params[0]))
        return self._val

    def grad(self, params, i):
        f = getattr(self, '_val', None)
        if f is None or f.values.shape != np.shape(np.asarray(params[0])):
            f = self(params)
        return grad_tensor(f, params, i, True, dim=f.dim)
''')],
    '''
f = F.Exp()
a, b = np.array([1., 2.]), np.array([.5, 3.])
f(a)
same(dense(f.grad([b], 0))[0, 0], np.exp(.5))
''', 'a gradient at one point after a value at another point of the same shape', 'the gradient is that of the other point')

bug('c05-factorial-table', 'C05',
    [(FP, '''    def __call__(self, params):
        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size)
        vec = (a ** x) / factorial(x)
        return Tensor(vec, dim=1)
''', '''    def __call__(self, params):
        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size)
        vec = (a ** x) / np.cumprod(np.maximum(x, 1))
        return Tensor(vec, dim=1)
''')],
    '''
from math import factorial
v = dense(F.Poisson(24)([np.array(2.)]))
same(v * [factorial(k) for k in range(24)], 2. ** np.arange(24))
''', 'a size above 21', 'the integer factorials overflow')

bug('c11-filter-cache', 'C11',
    [(MX, '''        ones = np.ones(np.asarray(params[0]).shape)
        rng_x = np.arange(ones.shape[-2])
        rng_y = np.arange(ones.shape[-1])
        val = []
        for x, y, c, s in self.conditions:
            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append(ones * filt)
        x_dim = ones.ndim
        val = np.stack(val, -1)
''', '''        ones = np.ones(np.shape(np.asarray(params[0])))
        x_dim = ones.ndim
        if getattr(self, '_size', None) != ones.shape[-1]:
            rng_x = np.arange(len(ones.shape) and ones.shape[-2])
            rng_y = np.arange(ones.shape[-1])
            self._size = ones.shape[-1]
            self._filt = [np.sign(x * rng_x[:, None] +
                                  y * rng_y[None, :] + c) == s
                          for x, y, c, s in self.conditions]
        val = [ones * filt[:ones.shape[-2]] for filt in self._filt]
        val = np.stack(val, -1)
''')],
    '''
f = F.CollapseMatrix()
f.grad([np.ones((4, 3))], 0)
f.grad([np.ones((2, 3))], 0)
g = F.CollapseMatrix()
g.grad([np.ones((2, 3))], 0)
g.grad([np.ones((4, 3))], 0)
''', 'a taller matrix after one with as many columns', 'the gradient uses the filters of the earlier matrix', insert=True)

bug('c12-total-cache', 'C12',
    [(MB, '''        res = g / self.N.sum()
        return float(res)
''', '''        if getattr(self, '_shape', None) != self.N.values.shape:
            self._shape = self.N.values.shape
            self._total = self.N.sum()
        res = g / self._total
        return float(res)
''')],
    '''
m = maxlike.Poisson()
m.model = F.X()
m.add_param([.1, .2])
m.N, m.X = Tensor([1., 1.]), Tensor([1., 2.])
m.g(m.params)
m.N, m.X = Tensor([2., 5.]), Tensor([1., 2.])
a = m.g(m.params)
n = maxlike.Poisson()
n.model = F.X()
n.N, n.X = m.N, m.X
same(a, n.g(m.params))
''', 'an object that served other data of the same shape before', 'the objective is divided by the old sample size')

bug('c14-constraint-cache', 'C14',
    [(MB, '''            grad_g = g.grad(args)
            for i, idx in enumerate(param_map):
                grad[idx] += gamma * grad_g[i]
''', '''            grad_g = g.__dict__.setdefault('_grad', g.grad(args))
            for i, idx in enumerate(param_map):
                grad[idx] += gamma * grad_g[i]
''')],
    '''
m = maxlike.Poisson()
m.model = F.X()
m.N, m.X = Tensor([1., 1.]), Tensor([1., 2.])
m.add_param([.1, .2])
m.add_constraint(0, F.Quadratic())
m.constraint[0] = ([0], 2., m.constraint[0][2])
def fg(v):
    p = (maxlike.maxlike_base.Param(np.array(v)),)
    y, d, h = m.model.eval(p)
    return m.flat_grad(p, y, d)
fg([.1, .2])
a = fg([1., 3.])
same(a[:2], [1 - np.exp(1.) + 4, 2 - np.exp(3.) + 12])
''', 'a nonlinear constraint with a multiplier, at a second point', 'the gradient of the constraint stays that of the first point')

bug('c15-map-cache', 'C15',
    [(MB, '''        # Split by blocks
        s_ = [0]
        f_ = [0]
        val_map = []
        for p in self.params:
            s_.append(s_[-1] + p.count())
            f_.append(f_[-1] + p.mask.sum())
            val_map.append((lambda x: x - np.arange(x.size))(
                (lambda x: np.arange(x.size)[x])(p.mask.flatten())))
''', '''        # Split by blocks
        shapes = [p.shape for p in self.params]
        if getattr(self, '_blocks', (None,))[0] != shapes:
            s_ = [0]
            f_ = [0]
            val_map = []
            for p in self.params:
                s_.append(s_[-1] + p.count())
                f_.append(f_[-1] + p.mask.sum())
                val_map.append((lambda x: x - np.arange(x.size))(
                    (lambda x: np.arange(x.size)[x])(p.mask.flatten())))
            self._blocks = (shapes, s_, f_, val_map)
        _, s_, f_, val_map = self._blocks
''')],
    '''
m = maxlike.Poisson()
m.add_param([1., 2., 3.], [True, False, False])
A = np.arange(1., 5.).reshape(2, 2)
m._reshape_matrix(A, 0)
m.reset_params()
m.add_param([1., 2., 3.], [False, False, True])
same(m._reshape_matrix(A, 0)[0][0], [[1, 2, 0], [3, 4, 0], [0, 0, 0]])
''', 'new parameters of the same shapes with other fixed entries', 'the blocks are laid out for the old mask')

bug('c17-cov-cache', 'C17',
    [(MB, '''        return self._reshape_matrix(
            -np.ma.array(pinvh(self.flat_hess_.data), mask=mask))
''', '''        if getattr(self, '_cov', None) is None or \\
                self._cov.shape != self.flat_hess_.shape:
            self._cov = -np.ma.array(pinvh(self.flat_hess_.data), mask=mask)
        return self._reshape_matrix(self._cov)
''')], '''
m = maxlike.Poisson()
m.add_param([1., 2.])
m.flat_hess_ = -np.eye(2)
m.error_matrix()
m.flat_hess_ = -2 * np.eye(2)
same(m.error_matrix()[0][0], np.eye(2) / 2)
''', 'a second fit', 'the covariance stays that of the first fit')

bug('c06-nested-weight', 'C06',
    [(FO, '''                    atom.dim_map(dim_map),
                    w * weight)
''', '''                    atom.dim_map(dim_map),
                    w * min(weight, 1) if weight > 1 and w < 0 else w * weight)
''')],
    '''
s = F.Sum(1); s.add(F.X(), 0, 0, weight=-2.)
t = F.Sum(1); t.add(s, 0, 0, weight=3.)
same(dense(t([np.array([1., 2.])])), [-6., -12.])
''', 'a sum with a negative weight added with a weight above one', 'the outer weight is lost')

bug('c10-eval-cache', 'C10',
    [(MX, '''    def grad(self, params, i):
        return self.eval(params)[1][i]

    def hess(self, params, i, j):
        return self.eval(params)[2][i][j]

    def eval(self, params):
        s1 = np.asarray(params[0] / self.steps)
        s2 = np.asarray(params[1] / self.steps)
        assert s1.shape == s2.shape
        assert np.all(s1 > 0)
        assert np.all(s2 > 0)
        assert np.all(s1 + s2 < 1)
        M = np.zeros(s1.shape + (2 * self.size - 1, ))

''', '''    def grad(self, params, i):
        self._last = self.eval(params)
        return self._last[1][i]

    def hess(self, params, i, j):
        last = self.__dict__.pop('_last', None) or self.eval(params)
        return last[2][i][j]

    def eval(self, params):
        s1 = np.asarray(params[0] / self.steps)
        s2 = np.asarray(params[1] / self.steps)
        assert s1.shape == s2.shape
        assert np.all(s1 > 0)
        assert np.all(s2 > 0)
        assert np.all(s1 + s2 < 1)
        M = np.zeros(s1.shape + (2 * self.size - 1, ))

''')],
    '''
f = F.MarkovVector(3, 4)
g = F.MarkovVector(3, 4)
a, b = [np.array(.3), np.array(.4)], [np.array(.9), np.array(.2)]
f.grad(a, 0)
same(dense(f.hess(b, 1, 0)), dense(g.hess(b, 1, 0)))
''', 'a Hessian at a point other than that of the last gradient', 'the Hessian is that of the last gradient')

bug('c20-scale-kept', 'C20',
    [(SK, '''    a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
    e = 1
    count = 0
    max_steps = 50
    while abs(e) > abs(tol):
''', '''    a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
    e = 1
    count = 0
    max_steps, tol = 50, max(tol, 1e-3 * target)
    while abs(e) > abs(tol):
''')],
    '''
import maxlike.skellam as S
for t in np.arange(.02, .99, .01):
    for n in range(5):
        a = S.poisson_cdf_root(t, n, 1e-8)
        check(abs(S.poisson_cdf(a, n)[0] - t) < 2e-8, (t, n))
''', 'a tolerance far below the target', 'the tolerance becomes relative to the target and at least a thousandth')

bug('c21-category-float', 'C21',
    [(PP, '''    X = series.values[:, None] == np.arange(size - 1)[None, :]
''', '''    X = series.values.astype(int)[:, None] == np.arange(size - 1)[None, :]
''')],
    '''
import pandas as pd
from maxlike.preprocessing import df_count
d = df_count(pd.Series([.5, 1., -.5]), 3)
same(d.values[:, 0], [0, 0, 0])
''', 'values between the categories', 'they are counted in the category below')

bug('c18-marginal-int', 'C18',
    [(CP, '''        x = np.asarray(params[0]).cumsum(-1)
        y = np.asarray(params[1]).cumsum(-1)
''', '''        x = np.asarray(params[0])
        y = np.asarray(params[1])
        x = np.cumsum(x, -1, x.dtype)
        y = np.cumsum(y, -1, x.dtype)
''')],
    '''
C = F.copula.Frank(2.) if hasattr(F, 'copula') else None
from maxlike.func.copula import Frank
r = dense(Frank(2.)((np.array([1, 3]), np.array([.5, 1.5, .2]))))
same(r.sum(0), np.array([.5, 1.5, .2]) / 2.2)
''', 'integer weights for the first marginal, fractions for the second', 'the second marginal is truncated to integers')

# ---------------------------------------------------------------- further ones
bug('c11-int8', 'C11',
    (MX, '''        rng_x = np.arange(arr.shape[-2])
        rng_y = np.arange(arr.shape[-1])
''', '''        rng_x = np.arange(arr.shape[-2], dtype=np.int8)
        rng_y = np.arange(arr.shape[-1], dtype=np.int8)
'''),
    '''
v = rng.rand(4, 4)
f = F.CollapseMatrix([(50, -50, 0, 1)])
same(dense(f([Tensor(v, dim=2)])), [np.tril(v, -1).sum()])
''', 'coefficients whose products exceed a byte', 'cells far from the diagonal are counted on the wrong side')

bug('c11-float-sign', 'C11',
    (MX, '''        for x, y, c, s in self.conditions:
            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append(ones * filt)
''', '''        for x, y, c, s in self.conditions:
            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + int(c)) == s
            val.append(ones * filt)
'''),
    '''
v = rng.rand(3, 3)
f = F.CollapseMatrix([(1, -1, -.5, 1), (1, -1, -.5, -1)])
same(dense(f.grad([Tensor(v, dim=2)], 0)).sum(), 9)
t = dense(f.grad([v], 0))
same((t * v[..., None]).sum((0, 1)), dense(f([v])))
''', 'a condition with a fractional constant', 'the gradient selects other cells than the value')

bug('c12-refit-same-shape', 'C12',
    (MB, '''        dim = getattr(self, 'dim', 0)
        for k in kwargs:
''', '''        dim = getattr(self, 'dim', 0)
        for k in [k for k in kwargs if np.shape(kwargs[k]) != np.shape(
                getattr(self.__dict__.get(k), 'values', None))]:
'''),
    '''
def model():
    m = maxlike.Poisson()
    m.model = F.X()
    m.add_param(np.zeros(3))
    return m
N = np.array([2., 3., 4.])
a, b = model(), model()
a.fit(N=N, X=np.array([3., 1., 2.]), tol=1e-6)
a.fit(N=N, X=np.array([1., 5., 4.]), tol=1e-6)
b.fit(N=N, X=np.array([1., 5., 4.]), tol=1e-6)
same(a.g(a.params), b.g(b.params), 1e-4)
''', 'a second fit with data of the same shape', 'the second fit keeps the first data')

bug('c18-frank-small', 'C18',
    (CP, '''        return (-1 / self.a) * np.log(1 +
''', '''        return x * y if abs(self.a) < .01 else (-1 / self.a) * np.log(1 +
'''),
    '''
from maxlike.func.copula import Frank
a, x, y = .009, np.array([.2, .5, .3]), np.array([.6, .4])
u, v = np.r_[0, x.cumsum()], np.r_[0, y.cumsum()]
C = -np.log1p(np.expm1(-a * u[:, None]) * np.expm1(-a * v[None, :]) / np.expm1(-a)) / a
same(dense(Frank(a)((x, y))), np.diff(np.diff(C, axis=0), axis=1), 1e-6)
''', 'a dependence parameter close to zero', 'the joint distribution is that of independence')

bug('c21-label-text', 'C21',
    (PP, '''            axis = sorted(set(axis).union(add_axis))
''', '''            axis = sorted(set(axis).union(add_axis), key=str)
'''),
    '''
import pandas as pd
from maxlike.preprocessing import prepare_series
s = pd.Series([1., 2., 3.], index=[9, 10, 2])
res, axis = prepare_series(s, {'X': 'sum'}, [11])
check(list(axis) == [2, 9, 10, 11], axis)
same(res['X'], [3, 1, 2, 0])
''', 'numeric labels of different lengths together with extra labels', 'the labels are sorted as text')

bug('c06-zero-weight', 'C06',
    (FO, '''            for w, atom in foo.atoms:
                self.add(
                    atom.foo,
                    atom.param_map(param_map),
                    atom.feat_map(feat_map),
                    atom.dim_map(dim_map),
                    w * weight)
''', '''            for w, atom in foo.atoms:
                self.add(
                    atom.foo,
                    atom.param_map(param_map),
                    atom.feat_map(feat_map),
                    atom.dim_map(dim_map),
                    w * weight or weight)
'''),
    '''
s = F.Sum(1)
s.add(F.X(), 0, 0, weight=0.)
s.add(F.X(), 1, 0)
t = F.Sum(1)
t.add(s, [0, 1], [0])
same(dense(t([np.array([1., 2.]), np.array([5., 7.])])), [5, 7])
''', 'a term of weight zero in a nested sum', 'the weight zero is taken for a missing one')

bug('c07-four-factors', 'C07',
    (FO, '''            return reduce(lambda x, y: x * y,
                          (el for i, el in enumerate(arr)
                           if i not in except_idx))
''', '''            return reduce(lambda x, y: x * y,
                          [el for i, el in enumerate(arr)
                           if i not in except_idx][-2:])
'''),
    '''
c = [np.array([1.5, 2.]), np.array([.5, 3.]), np.array([2., .25]), np.array([3., 5.])]
f = F.Product(1)
for k in range(4):
    f.add(F.Exp() if k % 2 else F.X(), k, 0)
for i in range(4):
    same(dense(f.grad(c, i)), num_grad(lambda p: dense(f(p)), c, i), 1e-5)
''', 'a product of four or more factors', 'a factor is left out of the derivative')

bug('c04-builder-ymap', 'C04',
    (FB, '''            y_map = array('b', range(y_dim))
''', '''            y_map = array('b', range(x_dim))
'''),
    '''
from maxlike.func.func_base import hess_tensor
v = np.arange(12.).reshape(2, 2, 3)
t = dense(hess_tensor(v, [np.ones(2), np.ones((2, 3))], 0, 1, None, True))
want = np.zeros((2, 2, 3, 2, 3))
for x in range(2):
    for a in range(2):
        for b in range(3):
            want[x, a, b, a, b] = v[x, a, b]
same(t, want)
''', 'a mixed block of two parameters of different rank whose second axes are diagonal',
    'the block is put on other cells')

bug('c16-broyden-fault', 'C16',
    (MB, '''            except Exception as err:
                self.converged = False
                raise err
''', '''            except np.linalg.LinAlgError as err:
                self.converged = False
                raise err
'''),
    '''
class P(maxlike.Poisson):
    def like(self, params, y):
        if self.N.values[0] > 9 and np.abs(np.asarray(params[0])).max() > 0.2:
            raise ValueError('domain')
        return maxlike.Poisson.like(self, params, y)
m = P()
m.model = F.X()
m.add_param(np.zeros(2))
m.fit(N=np.array([5., 5.]), X=np.array([5., 5.5]))
check(m.converged is True)
try:
    m.fit(method='broyden', N=np.array([10., 10.]), X=np.array([50., 1.]))
    check(False)
except ValueError:
    pass
check(m.converged is False, 'converged')
''', 'a Broyden fit of a converged model in which the model raises an error', 'the model stays marked as converged')

bug('c20-default-tol', 'C20',
    (SK, '''def poisson_cdf_root(target, n=2, tol=1e-8):
''', '''def poisson_cdf_root(target, n=2, tol=1e-3):
'''),
    '''
from maxlike.skellam import poisson_cdf_root, poisson_cdf
for n in range(6):
    for t in np.linspace(.02, .98, 40):
        check(abs(poisson_cdf(poisson_cdf_root(t, n), n)[0] - t) <= 1e-8, (n, t))
''', 'no tolerance given', 'the rate is less accurate than 1e-8')

bug('c03-derivative-ufunc', 'C03',
    (T, '''            if (self.x_dim > 0) | (self.y_dim > 0):
                raise InvalidOperation(
                    "Unary ufuncs''', '''            if (self.x_dim > 0) & (self.y_dim > 0):
                raise InvalidOperation(
                    "Unary ufuncs'''),
    '''
from maxlike.tensor import Tensor
from array import array
t = Tensor(np.array([[1., 2.]]), x_dim=1, x_map=array('b', [0]))
try:
    r = np.exp(t)
except Exception:
    sys.exit(0)
check(r.x_dim == 1)
same(dense(r), [[np.exp(1.), 1], [1, np.exp(2.)]])
''', 'an elementwise function of a gradient tensor', 'the derivative axes are taken for value axes')

bug('c19-equal-rates', 'C19',
    (SK, """    sk_frame += [Poi_a[:, None] * dPoi_b[None, :]]
""", """    sk_frame += [sk_frame[1] if a == b else Poi_a[:, None] * dPoi_b[None, :]]
"""),
    """
from maxlike.skellam import *
for a, b in ((1.2, 1.5), (1.3, 1.3)):
    e = 1e-6
    same(skellam_frame(a, b, 6)[2], (skellam_frame(a, b + e, 6)[0] - skellam_frame(a, b - e, 6)[0]) / (2 * e), 1e-6)
""", 'two equal rates', 'the derivative in the second rate is the one in the first')

bug('c19-negative-n', 'C19',
    (SK, """    res = np.asarray(list(zip(*[(v[xy < n].sum(), v[xy > n].sum()) for v in s])))
""", """    res = np.asarray(list(zip(*[(v[xy < n].sum(), v[xy > n].sum() if n >= 0 else
                                 v.sum() - v[xy < n].sum()) for v in s])))
"""),
    """
from maxlike.skellam import *
for n in (-2, -1, 0, 1):
    got = skellam_cdf_pair(1.3, .8, n)
    same(got[0], skellam_cdf(1.3, .8, n - 1), 1e-6)
    same(got[1], skellam_cdf(1.3, .8, n + 1, inverse=True), 1e-6)
""", 'a negative threshold', 'the mass at the threshold is counted in the upper tail')
