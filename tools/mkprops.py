import json, os
T='maxlike/tensor/tensor.py'; FB='maxlike/func/func_base.py'; FO='maxlike/func/func_op.py'; FF='maxlike/func/func.py'
FP='maxlike/func/func_proba.py'; SG='maxlike/func/sigmoid.py'; MX='maxlike/func/matrix.py'; TN='maxlike/func/tennis.py'
CP='maxlike/func/copula.py'; MB='maxlike/maxlike_base.py'; ML='maxlike/maxlike.py'; SK='maxlike/skellam.py'; PP='maxlike/preprocessing.py'
def P(id,title,statement,over,q,why,files,mech,obs):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
props=[
P('C01','Tensor arithmetic equals dense array arithmetic',
 'For any two operands (tensors with or without diagonal index maps, sums of such tensors, numpy arrays, numbers) whose shapes are compatible, the dense array of a+b, a-b, a*b, a/b (for tensor operands and divisor maps the library accepts) and -a equals the same elementwise operation on their dense arrays, in either operand order. Compressed (diagonal) storage and the special handling of 0, 1 and scalars never change the represented values.',
 ['inputs','configurations'],'all real entries (divisors non-zero), over the enumerated layouts (x/y/n/extra axes, diagonal maps, sizes 1-3) and operator orders',
 'tests/tensor_test.py checks a handful of integer layouts with one random value each; the value special cases (0, 1, scalar, mapped+mapped) and most layout pairs are never combined',
 [T],[('Tensor.bin_op / GenericTensor.bin_op',T),('arr_take_diag / arr_expand_cross_diag',T),('__array_ufunc__ reflected operators',T)],['Tensor.toarray()']),
P('C02','Tensor inner products equal dense contractions',
 'dot, dot_left and dot_right of tensors (dense, with diagonal maps, or sums of such) represent exactly the dense contraction of the shared axes, batched over the common value axes and extra axes. The compressed storage of either factor never changes the contracted values.',
 ['inputs','configurations'],'all real entries, over the enumerated layouts of the two factors (including diagonal maps on either side and the extra axis)',
 'the tests contract a few fixed layouts; the mapped/mapped and extra-axis combinations are marked NOT COVERED in the source itself',
 [T],[('Tensor.dot_left / dot_right / dot',T),('GenericTensor.dot*',T)],['Tensor.toarray()']),
P('C03','Tensor reductions and reshapes commute with densification',
 'Summing value/extra axes, expanding and permuting axes, flipping, transposing, dropping the extra axis and applying elementwise functions to a tensor give a tensor whose dense array is that same operation applied to the dense array of the original. Sums of tensors behave as the tensor they represent, and an axis that is broadcast in one addend counts with its full size.',
 ['inputs','configurations'],'all real entries, over the enumerated layouts and axis arguments',
 'tests use a few fixed shapes and random numbers; which axes are diagonal-mapped when an axis is summed, expanded or permuted is a combinatorial space they sample thinly',
 [T],[('Tensor.sum/expand/flip/transpose/drop_dim',T),('GenericTensor.sum/expand/...',T)],['Tensor.toarray()']),
P('C04','Elementary functions have exact first and second derivatives',
 'For Linear, Quadratic, X, Constant, Scalar, Vector, Exp, Log, Logistic, ArcTan and the Sigmoid factory, the value is the documented formula at every parameter value and the reported gradient and Hessian are its exact first and second partial derivatives with respect to every parameter entry. This holds for scalar and array parameters and for every pair of parameters.',
 ['inputs'],'all real parameter values in the domain, parameter shapes up to 2x2, every parameter index',
 'tests only compare eval() with __call__/grad/hess at one or two points; the derivatives themselves are compared to finite differences for a few likelihoods at one point',
 [FF,SG,FB],[('grad/hess of each Func',FF),('grad_tensor/hess_tensor layout',FB)],['Func.__call__/grad/hess/eval']),
P('C05','Count-distribution functions: exact formulas and derivatives',
 'The Poisson vector equals lambda^x/x! for x below the size, the (log) negative binomial vector equals the logarithm of its probability mass function (and, as a composition with Exp, the mass function itself), and their gradients and Hessians are the exact derivatives in the mean parameter. Consecutive negative-binomial and Poisson entries therefore satisfy the distributions\' recurrences for every mean and dispersion.',
 ['inputs'],'all positive means and dispersions (symbolic), sizes up to 5, parameter shapes up to 2x2',
 'the tests evaluate size-10 vectors at two or three integer points',
 [FP],[('Poisson, LogNegativeBinomial, NegativeBinomial',FP)],['Func.__call__/grad/hess/eval']),
P('C06','Function algebra evaluates to the expression it denotes',
 'Sums with weights, products, affine transforms (f+b, b-f, a*f, -f), compositions f(g1,..,gn), index-mapped wrappings and collapses of arbitrary component functions evaluate exactly to the mathematical expression they were built from. Nesting a sum in a sum, a product in a product or an affine in either (which the library flattens) never changes the value, including weights, offsets and the parameter, feature and extra-axis maps.',
 ['inputs','programs'],'arbitrary component functions (uninterpreted), all real weights/offsets/parameters, over the enumerated expression shapes and index maps',
 'tests build a few concrete expressions and check numbers at one point; flattening with weights and offsets is not exercised',
 [FB,FO],[('Affine',FB),('Compose.__call__',FB),('Sum.add/Product.add flattening',FO),('FuncWrap._expand',FO)],['Func.__call__']),
P('C07','Function algebra obeys the chain, product and sum rules',
 'For any expression built from arbitrary twice differentiable component functions by sum, product, affine, composition, index mapping and collapse, the reported gradient and Hessian blocks are the exact first and second derivatives of the expression\'s value with respect to every entry of every parameter. This includes parameters shared by several components and parameters absent from some of them.',
 ['inputs','programs'],'arbitrary component functions with symbolic value/first/second derivatives, all real weights and parameters, enumerated expression shapes',
 'tests compare against finite differences for a few whole models at one point with one tolerance',
 [FB,FO],[('Compose.grad/hess/eval',FB),('Sum/Product grad/hess/eval',FO),('FuncWrap.grad/hess/eval',FO)],['Func.grad/hess/eval']),
P('C08','One-pass evaluation agrees with separate evaluation',
 'For every function object, eval(params) returns exactly the value, the list of gradients and the lower-triangular list of Hessian blocks that calling the function, grad and hess separately return.',
 ['inputs','programs'],'all real parameter values, every exported function class and the enumerated combinator expressions',
 'func_test.py compares the two at one or two integer points for a subset of the classes',
 [FB,FO,FF,FP,SG,MX],[('FuncMeta default eval / overridden eval',FB)],['Func.eval vs Func.__call__/grad/hess']),
P('C09','Tennis score probabilities are consistent and differentiable',
 'Game, tiebreak and set score probabilities are the exact probabilities of winning with each score under independent points (games), so that the winning probability at p plus the winning probability at 1-p is one and every entry lies in [0,1]. Their gradients and Hessians are the exact derivatives, for scalar parameters and parameters of any feature shape.',
 ['inputs'],'every probability in (0,1) (symbolic), scalar, 1-D and 2-D parameters',
 'tennis_test.py checks sums and finite differences at a small grid of scalar or 1-D values',
 [TN],[('Game, TieBreak, Set',TN)],['Func.__call__/grad/hess']),
P('C10','Markov chain functions conserve probability and differentiate exactly',
 'The Markov matrix and vector functions return the distribution after the given number of steps of the skewed birth chain started at the origin: total mass is exactly one, every entry is non-negative for admissible rates, and exchanging the two rates mirrors the distribution. The gradients and Hessians are the exact derivatives with respect to both rates.',
 ['inputs','histories'],'all admissible positive rates and symbolic skews, sizes up to 4 and up to 4 steps',
 'matrix_test.py compares to finite differences at one or two points',
 [MX],[('MarkovMatrix/MarkovVector step loops',MX)],['Func.__call__/grad/hess/eval']),
P('C11','CollapseMatrix sums exactly the cells selected by its conditions',
 'For each condition (A,B,C,s) the collapse of a joint matrix is the sum of exactly the cells (x,y) with sign(A*x+B*y+C)=s, so the default conditions (x>y, x=y, x<y) partition the total mass; a caller-supplied list of conditions is honoured. The reported gradient is the exact derivative with respect to each cell, for any number of leading feature axes.',
 ['inputs','configurations'],'all real matrices up to 3x3 (with up to 3 feature axes) and symbolic integer-free condition coefficients enumerated in a bound',
 'only the default conditions with one feature axis are tested',
 [MX],[('CollapseMatrix',MX)],['CollapseMatrix.__call__/grad']),
P('C12','Log-likelihood values match the statistical models',
 'For aggregated data, the reported objective of each model class (Poisson, zero-inflated Poisson, logistic, finite, normalized finite, negative binomial) is the exact total log-likelihood of its documented distribution divided by the total sample size, minus the regularization terms divided by the same. It is exact when every cell holds one observation; when a cell aggregates several, it is exact up to terms that depend on the data alone.',
 ['inputs'],'all admissible data, model outputs and scale parameters (symbolic) on up to 2x2 cells and 3 categories',
 'tests compare one fitted data set to stored numbers',
 [ML,MB],[('like() of each class',ML),('MaxLike.g',MB)],['MaxLike.like, MaxLike.g']),
P('C13','Log-likelihood gradient and Hessian are exact',
 'For each model class and any twice differentiable model function, the reported gradient and Hessian blocks of the log-likelihood are the exact first and second derivatives of the reported log-likelihood with respect to every parameter entry, at every parameter value and for all data.',
 ['inputs','programs'],'arbitrary model functions (uninterpreted), symbolic data, scale and parameters, on up to 2x2 cells and 3 categories',
 'tests compare to finite differences at a single point per model with loose tolerances',
 [ML],[('grad_like/hess_like of each class',ML)],['MaxLike.grad_like/hess_like']),
P('C14','Flat gradient/Hessian assembly respects masks, constraints and penalties',
 'The flat gradient and Hessian used by the optimizer are exactly the derivatives of log-likelihood + multiplier * constraints - regularization, restricted to the free entries in parameter order, bordered by one row and column per constraint. The flat Hessian is symmetric, and fixed entries contribute no row or column.',
 ['inputs','configurations'],'symbolic likelihood blocks, masks enumerated, constraints and regularization over enumerated parameter maps',
 'tests fit whole models with one or two masks; block placement errors that keep the optimum are invisible to them',
 [MB],[('flat_grad/flat_hess',MB),('add_constraint/add_regularization',MB)],['MaxLike.flat_grad/flat_hess']),
P('C15','Free/fixed parameter flattening round-trips',
 'Flattening the parameters and reshaping them back is the identity for every mask; reshaping a new free vector writes exactly the free entries, in order, and leaves every fixed entry at its given value. Flat matrices are reshaped to blocks whose free entries are the matrix entries and whose fixed entries carry the fill value.',
 ['inputs','configurations'],'all real values, all masks of up to 2-3 parameters of shapes up to 2x2',
 'tests use two masks on 1-D parameters',
 [MB],[('_reshape_array/_reshape_params/_reshape_matrix',MB),('Param',MB)],['Param, MaxLike._reshape_params, fisher_matrix']),
P('C16','The fit never worsens the objective and never reports false convergence',
 'Whatever values the objective and its derivatives take, a Newton fit tries the full Newton step of the free entries first and then positive shorter multiples of it, only ever accepts steps that do not decrease the objective, returns success only when the relative change of the objective is below tolerance, stores the parameters and Hessian of that last accepted step, and marks the model as converged. Fixed entries keep their values. If it cannot succeed (every trial decreases the objective, or the step limit is reached), it raises ConvergenceError, the stored parameters are unchanged and the model is marked not converged. A Broyden fit starts with the Newton step, keeps an inverse Hessian estimate that satisfies the secant condition, and stops successfully only within tolerance.',
 ['histories','inputs'],'all sequences of objective values, steps and tolerances (arbitrary objective function) up to 3 outer steps',
 'tests only run fits that converge',
 [MB],[('fit (Newton and Broyden loops)',MB),('newton_step',MB)],['MaxLike.fit, .params, .converged, ConvergenceError']),
P('C17','Standard errors, covariance and information criteria are exact',
 'The error matrix is the inverse of the negated flat Hessian, block-reshaped; standard errors are the square roots of its diagonal over the free parameters; the Fisher matrix blocks are the flat Hessian. AIC and BIC equal the documented formulas in the number of free parameters, constraints, sample size and mean log-likelihood.',
 ['inputs','configurations'],'all symmetric invertible Hessians of size up to 4 with and without constraints and masks',
 'tests compare stored numbers for models that all have constraints',
 [MB],[('error_matrix/std_error/fisher_matrix',MB),('akaine_/bayesian_information_criterion',MB)],['MaxLike.error_matrix, std_error, AIC, BIC']),
P('C18','Copulas return a joint distribution with the given marginals',
 'For any unnormalized positive marginals, each copula returns a joint matrix whose row and column sums are the normalized marginals and whose total is one; entries are the mixed second differences of the documented copula formula. Independence parameters give exactly the product of the marginals, exchanging the marginals transposes the result, and entries are non-negative for admissible parameters.',
 ['inputs'],'all positive marginals of length 2-3, symbolic copula parameters',
 'copula_test.py checks a few fixed marginals and parameters',
 [CP],[('copulaWrap',CP),('Clayton/Gumbel/Frank/AkiMikhailHaq/Gaussian',CP)],['Copula.__call__']),
P('C19','Poisson/Skellam primitives and their derivative rows are exact',
 'The Poisson vector is e^-a a^k/k!, the Skellam frame is the product of two such vectors, the (mid) cumulative functions are its exact partial sums over the stated region, and every derivative row returned with them is the exact derivative with respect to the rate it belongs to. With X counted at the first rate and Y at the second, skellam_cdf is P(Y-X<=n) (or P(Y-X>=n) when inverted) and the pair function returns P(Y-X<n) and P(Y-X>n), over a support that leaves out at most the tolerance of the probability (tol2size alone is the normal approximation of its size).',
 ['inputs'],'all positive rates (symbolic), sizes up to 5, thresholds enumerated',
 'skellam_test.py checks round trips at a few values',
 [SK],[('poisson_vector/poisson_cdf/skellam_frame/skellam_cdf_pair',SK)],['maxlike.skellam functions']),
P('C20','Root finders return a solution within tolerance or raise',
 'Each root finder, whatever the cumulative function does along the way, either returns positive rates at which the cumulative function it evaluates is within tolerance of the target (a tolerance in (0, 1)), or raises ConvergenceError; it never returns an error object or another non-solution, never evaluates non-positive rates and always terminates within its step limit. Targets outside the admissible range are rejected with ValueError.',
 ['inputs','histories'],'arbitrary cumulative-function values at every iterate (the cdf is an unconstrained oracle), symbolic targets and tolerance, iteration bound reduced to a stated number of steps',
 'tests only cover targets that converge quickly',
 [SK],[('poisson_cdf_root/skellam_cdf_root/conditional_skellam_cdf_root',SK)],['maxlike.skellam root functions']),
P('C21','Preprocessing aggregates every observation into exactly its cell',
 'prepare_series and prepare_dataframe return arrays indexed by the sorted labels (extended by the requested extra labels) in which each cell holds the requested aggregation of exactly the observations with those labels, and empty cells hold zero; totals are preserved. df_count marks exactly one category per observation: its value when below size-1 and the last category otherwise.',
 ['inputs','configurations'],'all real observation values and weights for every assignment of up to 3-4 observations to labels',
 'tests use one CSV data set',
 [PP],[('prepare_series/prepare_dataframe/df_count',PP)],['maxlike.preprocessing functions']),
P('C22','Operations do not modify their operands',
 'Arithmetic, contraction, reduction and reshaping of tensors, evaluation of functions and likelihoods, and assembly of the flat gradient and Hessian leave every operand (tensors, parameters, data, index maps, function objects) with the values it had before. Tensor and parameter objects reject attribute assignment and in-place writes to their values.',
 ['inputs','histories'],'all real entries over the enumerated layouts and operations; each operation repeated gives the same result',
 'tests never look at operands after an operation',
 [T,MB,FB],[('read-only values, __setattr__ guards',T),('Param',MB)],['operands before/after each operation']),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in props:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
