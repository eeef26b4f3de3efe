"""Writes /verif/properties.jsonl."""
import json
import os

L = 'LinearResponseVariationalBayes/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (pid, statement.count('. '))
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [L + f for f in files],
                          'mechanism': [{'name': n, 'where': L + w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': L + w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Free, vector and full values of a parameter are inverse parameterizations',
     'For every parameter type and container, reading the free value of a feasible value and writing it back '
     'reproduces that value, and writing a free vector and reading the free value back reproduces that free '
     'vector. The same holds for the vector representation, and all three representations always describe the '
     'same value, whichever of them was written last.',
     ['inputs', 'configurations', 'histories'],
     'every parameter type, size, shape and bound configuration; every feasible value; every sequence of writes '
     'through any representation',
     'The tests write two or three fixed values per type and compare one read; they do not vary bounds, diagonal '
     'offsets, array ranks, nesting or the order in which representations are written.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'],
     [('constrain / unconstrain', 'Parameters.py'), ('pack_posdef_matrix / unpack_posdef_matrix', 'MatrixParameters.py'),
      ('constrain_simplex_matrix / unconstrain_simplex_matrix', 'SimplexParams.py'),
      ('get_perpendicular_subspace', 'ProjectionParams.py')],
     [('parameter value', 'the constrained value an object holds', 'Parameters.py')],
     ['get', 'get_free', 'get_vector'])

prop('C02', 'Every free vector gives a feasible value; defaults are feasible',
     'Whatever real free vector is written, the value a parameter then holds satisfies its declared constraints: '
     'bounds, simplex rows non-negative with sum one, symmetric positive definite matrices above the diagonal '
     'bound, orthogonality to the excluded directions. A parameter constructed without a value starts at one '
     'of the declared shape strictly inside its constraints. Huge free coordinates approach the boundary without producing invalid '
     'numbers as long as their exponential is representable, and for simplexes in all cases.',
     ['inputs', 'configurations'],
     'every free vector, including extreme magnitudes, and every legal constructor configuration',
     'The tests check feasibility at one or two mild points and never at default values or at large magnitudes.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'NormalParams.py',
      'GammaParams.py', 'WishartParams.py', 'DirichletParams.py'],
     [('constrain', 'Parameters.py'), ('get_inbounds_value', 'Parameters.py'),
      ('unpack_posdef_matrix', 'MatrixParameters.py'), ('constrain_simplex_matrix', 'SimplexParams.py'),
      ('projection basis', 'ProjectionParams.py')], (), ['get', 'get_vector'])

prop('C03', 'A container concatenates its members in order and keeps them apart',
     'The free vector, vector, names and sizes of a container are the concatenation, in insertion order and '
     'through any depth of nesting, of those of its members, and the index ranges it reports and the index '
     'parameter made from it identify exactly where each member lives. Writing a member changes the '
     'corresponding coordinates only, and writing the container delivers to each member exactly its own slice.',
     ['inputs', 'configurations', 'histories'],
     'every sequence of member insertions with any mixture of types and nesting, and every sequence of reads and '
     'writes at any level',
     'The tests use a single fixed container, whose members are mostly of the same size, so that mixed up '
     'offsets (free and vector sizes differ for simplexes and subspaces) go unnoticed.',
     ['ParameterDictionary.py', 'Parameters.py', 'SparseObjectives.py'],
     [('push_param, set_free, get_free, set_vector, get_vector', 'ParameterDictionary.py'),
      ('set_free_offset, set_vector_offset', 'Parameters.py'), ('make_index_param', 'SparseObjectives.py')],
     [('index ranges', 'where each member lives in the free vector and the vector', 'ParameterDictionary.py')],
     ['get_free', 'get_vector', 'free_indices_dict', 'vector_indices_dict', 'names', 'dictval'])

prop('C04', 'Sparse derivatives of the free-to-vector map are exact',
     'For every parameter type and container, the sparse Jacobian (rows: vector entries, columns: free entries) '
     'and the list of sparse Hessians (one per vector entry, in vector order, over free entries) equal the '
     'first and second derivatives of the map from free vector to vector at the requested point. They are '
     'functions of the requested point only, whatever value the parameter currently holds.',
     ['inputs', 'configurations', 'histories'],
     'every parameter type, configuration, nesting and free vector; every preceding history',
     'The tests compare against automatic differentiation at one point per type, with the parameter already '
     'holding that point, and for symmetric layouts in which transposed or permuted entries coincide.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'],
     [('free_to_vector_jac / free_to_vector_hess', 'Parameters.py'),
      ('constrain_grad_from_moment / constrain_hess_from_moment', 'SimplexParams.py'),
      ('block layout of matrix arrays', 'MatrixParameters.py'),
      ('free_to_vector_jac_offset / free_to_vector_hess_offset / offset_sparse_matrix', 'Parameters.py')],
     (), ['free_to_vector_jac', 'free_to_vector_hess'])

prop('C05', 'A vector Hessian converts exactly to a free Hessian',
     'Given any gradient and Hessian of a function with respect to the vector value at a point, the conversion '
     'returns the Hessian of that function with respect to the free value there: the Jacobian sandwich plus the '
     'gradient-weighted second derivatives of the constraint map. The Hessian may be dense or in any sparse '
     'format, and the result does not depend on the value the parameter held before.',
     ['inputs', 'configurations'],
     'every parameter configuration, free point, gradient vector and symmetric Hessian, dense or sparse',
     'The tests use one quadratic objective on one container at one point.',
     ['Parameters.py'],
     [('convert_vector_to_free_hessian', 'Parameters.py')], (), ['convert_vector_to_free_hessian'])

prop('C06', 'Illegal arguments are rejected and change nothing',
     'Writing a free vector, vector or value of the wrong size or shape, or an asymmetric matrix, to any '
     'non-scalar parameter or container raises an error and leaves every value unchanged, and so does reading the '
     'free value of a parameter that is outside its bounds or not positive definite. Constructing a parameter '
     'with inconsistent bounds, a negative diagonal bound, inconsistent dimensions or a value of the wrong shape '
     'raises an error.',
     ['inputs', 'configurations', 'histories'],
     'every illegal size, shape, matrix and out-of-bounds position, at every level of nesting and in every state',
     'The tests try one wrong size per type, never shapes with the right number of entries, later positions of a '
     'vector or the state after the failure.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'],
     [('size and shape guards of set, set_free, set_vector', 'Parameters.py'),
      ('shape guards', 'MatrixParameters.py'), ('unconstrain_array / unconstrain_scalar', 'Parameters.py'),
      ('container size guards', 'ParameterDictionary.py')], (), ['raised exception', 'get', 'get_vector'])

prop('C07', 'Copies and derived objects are independent; derivatives have no side effect',
     'A deep copy of a parameter and the index parameter made from it share no state with the original: no '
     'sequence of writes or derivative calls on one is visible in the other. A parameter does not share memory '
     'with free vectors passed in or returned, and asking a parameter for the derivatives of its constraint map '
     'leaves every value numeric and as it was.',
     ['histories', 'inputs', 'configurations'],
     'every interleaving of copies, writes, derivative calls and buffer overwrites over any parameter type',
     'The tests deep copy parameters but never write to the copy and look at the original, nor ask a copy for a '
     'derivative.',
     ['Parameters.py', 'MatrixParameters.py', 'SparseObjectives.py', 'ParameterDictionary.py'],
     [('derivative functions bound at construction', 'Parameters.py'),
      ('derivative functions bound at construction', 'MatrixParameters.py'),
      ('make_index_param', 'SparseObjectives.py')], (), ['get', 'get_vector', 'get_free'])

prop('C08', 'Objective evaluations depend on their arguments only and leave numeric values',
     'Every evaluation of an objective or of one of its derivatives returns a result determined by its arguments '
     'alone, whatever evaluations, writes or failed evaluations came before. Afterwards the parameter holds, as '
     'plain numbers, exactly the point that was passed in (the preconditioned point for conditioned '
     'evaluations), also when the evaluation raised an error.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of evaluations, derivative requests, parameter writes and failing evaluations in either '
     'coordinate system',
     'The tests call each derivative once on a fresh objective and never let the objective function fail.',
     ['SparseObjectives.py'],
     [('cache_free_and_eval / cache_vector_and_eval', 'SparseObjectives.py'),
      ('fun_free_hvp / fun_vector_hvp', 'SparseObjectives.py')],
     [('bound parameter', 'the parameter the objective reads its point from', 'SparseObjectives.py')],
     ['return values', 'get', 'get_vector', 'get_free'])

prop('C09', 'Objective derivatives agree with the function in every coordinate system',
     'Gradient, Hessian, Jacobian and Hessian-vector products of an objective equal the derivatives of its value '
     'in the coordinates in which they are requested: vector, free, or preconditioned free coordinates for any '
     'dense or sparse, possibly asymmetric preconditioner. Extra positional and keyword arguments reach the '
     'function unchanged, and mapping a preconditioned optimum back is the inverse of the change of variables.',
     ['inputs', 'configurations'],
     'every parameter configuration, point, direction, preconditioner and set of extra arguments',
     'The tests use one objective, for which a symmetric preconditioner hides transpositions.',
     ['SparseObjectives.py'],
     [('autograd wrappers', 'SparseObjectives.py'), ('fun_free_*_cond', 'SparseObjectives.py'),
      ('safe_matmul', 'SparseObjectives.py')], (), ['return values'])

prop('C10', 'Two-parameter derivatives: right block, right orientation, right coordinates',
     'For a function of two parameters, the partial gradients and the cross second derivatives equal those of the '
     'function in the coordinates named by the request, free or vector separately for each parameter, with the '
     'first-named parameter in the rows and the other in the columns. Afterwards both parameters hold, as plain '
     'numbers, the points passed in.',
     ['inputs', 'configurations', 'histories'],
     'every pair of parameter configurations, including different sizes, every point and every sequence of '
     'requests, failing ones included',
     'The tests use one pair of parameters and one point per request.',
     ['SparseObjectives.py'],
     [('TwoParameterObjective', 'SparseObjectives.py')], (), ['return values', 'get_vector'])

prop('C11', 'Converter Jacobians are exact and restore both parameters',
     'For a converter that writes an output parameter as a function of an input parameter, the four conversions '
     'and the four Jacobians equal the converted value and its derivative in the requested coordinates of input '
     'and output (rows: output, columns: input). A Jacobian request leaves the input parameter at the point '
     'passed in and the output parameter at the value it held before, both as plain numbers, also when the '
     'converter fails.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'every pair of parameter configurations, point, converter and sequence of requests',
     'The tests check one converter whose input and output coincide in size, on fresh parameters.',
     ['SparseObjectives.py', 'MatrixParameters.py'],
     [('ParameterConverter', 'SparseObjectives.py')], (), ['return values', 'get_vector'])

prop('C12', 'Linear hyperparameter sensitivity equals the derivative of the optimum',
     'The reported sensitivity of an optimum to hyperparameters equals the derivative given by the implicit '
     'function theorem, in the declared coordinates (free or vector) of both, with a supplied Hessian or '
     'hyperparameter part used as declared, at the base point last set. Predictions at new hyperparameters are '
     'the first-order expansion about that base point, exact when the optimum is linear in the hyperparameters, '
     'and output predictions apply the output map to them or its linearisation as requested.',
     ['inputs', 'configurations', 'histories'],
     'every parameter configuration, base point, coordinate choice, supplied Hessian and order of re-basing, '
     'predicting and evaluating',
     'The tests compare against a re-optimised answer for one model with a loose tolerance.',
     ['ModelSensitivity.py', 'SparseObjectives.py'],
     [('ParametricSensitivityLinearApproximation', 'ModelSensitivity.py'),
      ('ParametricSensitivity', 'SparseObjectives.py')],
     [('base point', 'optimum and hyperparameter at which derivatives are taken', 'ModelSensitivity.py')],
     ['get_dinput_dhyper', 'predict_input_par_from_hyperparameters', 'predict_output_par_from_hyperparameters'])

prop('C13', 'The derivative-term algebra generates the full chain rule',
     'Differentiating and consolidating the terms of the expansion of the optimality condition yields, at every '
     'order, each pattern of derivatives exactly once with its multivariate chain-rule coefficient, and '
     'evaluation multiplies every term by the matching mixed directional derivative. Consolidation never changes '
     'the value of a set of terms, in whatever order and multiplicity they come.',
     ['inputs', 'programs'],
     'every order of differentiation and every multiset and ordering of terms',
     'The tests check orders one to three of one scalar-like example, and consolidation of a single pair.',
     ['ModelSensitivity.py'],
     [('DerivativeTerm.differentiate', 'ModelSensitivity.py'), ('consolidate_terms', 'ModelSensitivity.py'),
      ('generate_two_term_derivative_array / append_jvp', 'ModelSensitivity.py')],
     (), ['eta_orders', 'eps_order', 'prefactor', 'evaluate'])

prop('C14', 'Taylor series of the optimum has the exact derivatives of the optimum',
     'The k-th directional derivative of the optimum with respect to the hyperparameters, for every k up to the '
     'declared order, and the Taylor series assembled from them, equal those of the implicitly defined optimum, '
     'in the declared coordinates, with or without the base value, at any allowed truncation. Orders outside the '
     'allowed range are rejected, and every evaluation leaves both parameters at the base point, also when the objective fails.',
     ['inputs', 'configurations', 'histories'],
     'every objective, direction, order, truncation, coordinate choice and sequence of evaluations and re-basing',
     'The tests compare a second- or third-order series with a re-optimised answer on one model with a loose '
     'tolerance, which cannot tell a wrong high-order coefficient.',
     ['ModelSensitivity.py'],
     [('ParametricSensitivityTaylorExpansion', 'ModelSensitivity.py'), ('evaluate_terms', 'ModelSensitivity.py'),
      ('evaluate_dketa_depsk', 'ModelSensitivity.py')],
     [('derivative list', 'one evaluator per order, built on the lower ones', 'ModelSensitivity.py')],
     ['evaluate_dkinput_dhyperk', 'evaluate_taylor_series'])

prop('C15', 'Repeated optimisation stops for the right reason and reports that state',
     'Repeated optimisation starts each round at the result of the previous one, stops after the first round in '
     'which the step, the change in value or the gradient is below its tolerance or when the round limit is '
     'reached, and reports the last point, the three convergence verdicts of the last round, and every requested '
     'intermediate result in order. The provided minimisers return the optimum in the original coordinates '
     'whether or not they precondition.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of points an optimiser may return, every tolerance triple and round limit, with and without '
     'an initial optimisation',
     'The tests run one well-behaved objective to convergence and look at the final point only.',
     ['OptimizationUtils.py'],
     [('repeatedly_optimize', 'OptimizationUtils.py'),
      ('minimize_objective_trust_ncg / minimize_objective_bfgs', 'OptimizationUtils.py')],
     [('loop state', 'current point, value and convergence flags', 'OptimizationUtils.py')],
     ['return values', 'starting points passed to the optimiser'])

prop('C16', 'Preconditioner is the inverse square root of the clamped Hessian',
     'For any square matrix whose clamped eigenvalues are positive, the computed pair is the symmetric part of the matrix with eigenvalues clamped to the '
     'requested range, and the symmetric positive definite inverse square root of that clamped matrix. '
     'Installing it on an objective evaluates the Hessian at the requested free point, or uses the one supplied, '
     'so that the conditioned Hessian there has only unit eigenvalues where nothing was clamped.',
     ['inputs', 'configurations'],
     'every matrix, including indefinite and asymmetric ones, with any combination of eigenvalue bounds',
     'The tests use two positive definite matrices.',
     ['OptimizationUtils.py'],
     [('get_sym_matrix_inv_sqrt', 'OptimizationUtils.py'), ('set_objective_preconditioner', 'OptimizationUtils.py')],
     (), ['return values', 'fun_free_hessian_cond'])

prop('C17', 'The evaluation log records every logged evaluation in order',
     'The log holds exactly the values and points logged since it was last reset, in order, together with their '
     'number and the most recent pair, and it reports on every k-th evaluation counted from the reset, to the '
     'installed callback if there is one. Only evaluations that ask for it are logged, and resetting forgets '
     'everything except the reporting interval and the callback.',
     ['histories'],
     'every sequence of logged and unlogged evaluations, resets, interval changes and callback changes',
     'The tests log a few evaluations and never reset, change the interval or install a callback mid-way.',
     ['SparseObjectives.py', 'OptimizationUtils.py'],
     [('Logger', 'SparseObjectives.py'), ('fun_free verbose', 'SparseObjectives.py')],
     [('log', 'points, values, counter', 'SparseObjectives.py')],
     ['x_array', 'val_array', 'iter', 'x', 'value', 'callback'])

prop('C18', 'Masked inverse-Hessian solves cover every coordinate exactly once',
     'The masks produced for a vector, whether by fixed-length blocks or by recursive halving of any starting '
     'mask, are disjoint, cover exactly the coordinates asked for in order, and respect the requested length '
     'limit. Solving against masks records, mask by mask and in order, the masked vector and the inverse Hessian '
     'applied to it, so that the solutions of a partition add up to the solution for the whole vector.',
     ['inputs', 'histories', 'configurations'],
     'every vector length, starting mask and length limit; every sequence of solves and resets; every positive '
     'definite Hessian and preconditioner',
     'The tests split two fixed masks and solve one system.',
     ['ConjugateGradient.py'],
     [('split_vector / recursive_split / get_masks', 'ConjugateGradient.py'),
      ('ConjugateGradientSolver', 'ConjugateGradient.py')],
     [('solver history', 'vectors, masks, solutions, infos', 'ConjugateGradient.py')],
     ['masks', 'vecs', 'hinv_vecs', 'cg_infos'])

prop('C19', 'Sparse placement and serialisation of matrices lose nothing',
     'Placing a small dense matrix at given row and column indices of a large matrix yields a sparse matrix with '
     'exactly those entries (adding up where an index is repeated) and zero elsewhere. Packing a sparse matrix '
     'and unpacking it, in memory or through text, reproduces its shape, values and type for any sparsity '
     'pattern, including empty rows and explicit zeros, and leaves the matrix packed as it was. A product of '
     'matrices and the dense form of a matrix do not depend on whether they are stored sparsely or densely.',
     ['inputs', 'configurations'],
     'every matrix, index vector, dimension and sparsity pattern',
     'The tests pack one matrix and place one square symmetric block.',
     ['SparseObjectives.py'],
     [('get_sparse_sub_matrix / get_sparse_sub_hessian', 'SparseObjectives.py'),
      ('pack_csr_matrix / json_pack_csr_matrix', 'SparseObjectives.py'),
      ('safe_matmul / compress', 'SparseObjectives.py')], (), ['return values'])

prop('C20', 'Entropies and moments of the exponential families satisfy their exact identities',
     'Entropies and expectations of normal, lognormal, gamma, beta, Dirichlet, multinoulli and Wishart '
     'distributions equal their mathematical values for all legal parameters: they reduce to one another where '
     'families coincide, add over independent components, scale correctly, and agree with closed forms where '
     'those exist. Array versions act on each component independently in the documented layout.',
     ['inputs', 'configurations'],
     'every legal parameter value, dimension and array shape',
     'The tests compare with sampling or scipy at one point per family, sometimes for sums over components only.',
     ['ExponentialFamilies.py'],
     [('entropies', 'ExponentialFamilies.py'), ('expectations', 'ExponentialFamilies.py'),
      ('multivariate_digamma / multivariate_gammaln', 'ExponentialFamilies.py')], (), ['return values'])

prop('C21', 'Bayesian regression updates equal the exact conjugate posterior',
     'The natural parameters, least-squares coefficients and conjugate posterior of a linear regression equal the '
     'exact ones for scalar or full noise information, any number of observations and regressors, and any array '
     'of independent regressions or of replicates sharing a design. A posterior used as the next prior gives the '
     'same result as one update with all the data.',
     ['inputs', 'configurations', 'histories'],
     'every design, response, noise information, prior, array layout and batching of the data',
     'The tests check one random design per layout.',
     ['regression_utils.py'],
     [('get_nat_params_from_likelihood', 'regression_utils.py'), ('get_mvn_from_nat_params', 'regression_utils.py'),
      ('mat_mul_last2dims / matvec_mul_last2dims', 'regression_utils.py')], (), ['return values'])

prop('C22', 'Prior terms, normal log density and numeric expectations are exact',
     'Expected log priors equal, up to their documented constants, the expectation of the log density under the '
     'stated moments, the normal log density equals its formula including the normalising constant, and updating '
     'from natural parameters inverts them. Numerical expectations integrate polynomials exactly with suitable '
     'nodes, logistic terms are the stated averages over the draws for every array layout, and logit-normal '
     'expectations respect the symmetry between success and failure.',
     ['inputs', 'configurations'],
     'every argument value and array shape and every set of nodes or draws',
     'The tests check a few of these at one point each and none of the array layouts.',
     ['ExponentialFamilies.py', 'Modeling.py'],
     [('priors', 'ExponentialFamilies.py'), ('get_e_fun_normal', 'ExponentialFamilies.py'),
      ('get_e_logistic_term', 'Modeling.py'), ('univariate_normal_log_prob', 'Modeling.py')], (), ['return values'])

prop('C23', 'Distribution parameters honour their arguments and track their current value',
     'A distribution parameter object has exactly the members, shapes and lower bounds its constructor arguments '
     'ask for, and each moment and entropy it reports is that of the distribution described by its current '
     'value, after any sequence of writes through any representation of it or of an enclosing container. Moments and '
     'entropies can be differentiated with autograd in the free parameters, giving their exact derivatives. Setting '
     'a moment parameterization from another parameter reproduces its moments.',
     ['histories', 'configurations', 'inputs'],
     'every constructor configuration and sequence of writes and reads',
     'The tests set each object once and read each moment once.',
     ['NormalParams.py', 'GammaParams.py', 'WishartParams.py', 'DirichletParams.py'],
     [('moment methods', 'NormalParams.py'), ('moment methods', 'GammaParams.py'),
      ('moment methods', 'WishartParams.py'), ('moment methods', 'DirichletParams.py')],
     (), ['e', 'e_outer', 'var', 'cov', 'e_exp', 'e_log', 'entropy'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
