#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

F1 = 'mfs/one_dim/filtering.py'; Q1 = 'mfs/one_dim/quadtures.py'; M1 = 'mfs/one_dim/moments.py'
PD = 'mfs/one_dim/pdf_approximations.py'; S1 = 'mfs/one_dim/ss_models.py'
FN = 'mfs/multi_dims/filtering.py'; QN = 'mfs/multi_dims/quadratures.py'; MN = 'mfs/multi_dims/moments.py'
MI = 'mfs/multi_dims/multi_indices.py'; SN = 'mfs/multi_dims/ss_models.py'
G = 'mfs/classical_filters_smoothers/gfs.py'; CQ = 'mfs/classical_filters_smoothers/quadratures.py'
SMC = 'mfs/classical_filters_smoothers/smc.py'; RS = 'mfs/classical_filters_smoothers/resampling.py'
BF = 'mfs/classical_filters_smoothers/brute_force.py'; U = 'mfs/utils.py'

prop('C01', 'One-dimensional moment filters carry out the exact Bayes recursion',
     'At every time step, each of the three one-dimensional moment filters (raw, central, scaled central) returns the moments, of every order kept, of the density proportional to likelihood times prediction, where the prediction integrates the supplied conditional moments under the quadrature rule of the previous posterior and the posterior integrals use the quadrature rule of the prediction. Reported means and scales are the posterior mean and posterior standard deviation, and the returned moments are centred and scaled by exactly those. This holds with and without the numerically stable option, for any number of steps.',
     ['inputs', 'histories', 'configurations'], 'all model callbacks, initial moments of any even length, measurement sequences of any length and shape, stable on/off',
     'Tests run a few linear/Gaussian models with zero initial mean, the stable option off, and compare up to loose tolerances; they cannot cover every callback, order or history.',
     [F1, Q1, U], [('prediction and update inside the scan body of the three filters', F1), ('moment quadrature', Q1), ('modified Cholesky used by the stable option', U)],
     ['returned moments, means, scales'])
prop('C02', 'Multidimensional moment filters carry out the exact Bayes recursion',
     'At every time step, each of the three multidimensional moment filters (raw, central, scaled central) returns, in the order of the supplied multi-indices, the moments of the density proportional to likelihood times prediction, both integrated with the multidimensional moment quadrature of the current moments. Reported means and scales are the per-coordinate posterior means and standard deviations by which the returned moments are centred and scaled; the conditional-moment callback receives multi-indices or positions according to its declared signature. A moment vector whose length differs from the number of multi-indices is rejected with an error.',
     ['inputs', 'histories', 'configurations'], 'all dimensions, orders, callbacks of both signatures, initial moments, measurement sequences, stable on/off',
     'Tests use d=2, N<=3, one model and stable=False; other dimensions, the stable branch and the positional signature in combination are never executed.',
     [FN, QN, U], [('scan bodies of the three filters', FN), ('multidimensional quadrature', QN), ('modified Cholesky', U)],
     ['returned moments, means, scales, raised errors'])
prop('C03', 'Every filter reports the exact negative log-likelihood of the data',
     'The negative log-likelihood returned by a filter equals minus the sum over time steps of the logarithm of the one-step predictive density of the measurement under that filter\'s own prediction: the quadrature mean of the likelihood for moment filters, the predictive Gaussian density for Kalman-type and sigma-point filters, the average unnormalised weight for the bootstrap particle filter. Gaussian filters report the running total after each step, the others the final total; it starts from zero and every step is counted exactly once.',
     ['inputs', 'histories', 'configurations'], 'all models, measurement dimensions, sequence lengths and options',
     'Tests compare nell for scalar measurements only and never for vector measurements or with optional flags.',
     [F1, FN, G, SMC], [('nell accumulation in each scan body', F1), ('nell accumulation', FN), ('log density helpers', G), ('log of mean weight', SMC)],
     ['returned negative log-likelihood'])
prop('C04', 'One-dimensional moment quadrature is the Gauss rule of the moments',
     'Given moments m_0..m_{2n-1}, the one-dimensional moment quadrature returns n weights and n nodes that are the squared first components of the eigenvectors and the eigenvalues of the multiplication operator expressed in the polynomial basis orthonormal under those moments, the nodes being mapped back by scale and mean. The stable option changes only the factorisation of the moment matrix, and sorting changes only the order. The alternative three-term-recurrence (Golub--Welsch) rule is the Gauss rule with one node fewer of the same moments, and the expectation and characteristic function computed from moments use the same moments without shifting or dropping any order.',
     ['inputs', 'configurations'], 'all moment vectors, means, scales, and option settings',
     'Tests check exactness on a handful of distributions with unit moments; they do not run the stable path in one dimension or general mean/scale pairs.',
     [Q1, U, M1], [('Gram/Hankel construction, orthonormalisation and eigen-decomposition', Q1), ('modified Cholesky', U), ('characteristic function', M1)],
     ['weights and nodes'])
prop('C05', 'Multidimensional moment quadrature combines all coordinate operators correctly',
     'Given moments and their Gram/Hankel index tables, the multidimensional moment quadrature returns one node per combination of eigenvalues of the d multiplication operators, and the weight of a combination is the product of the first component of the first eigenvector, the inner products of successive eigenvectors, and the first component of the last eigenvector. Nodes and weights list the combinations in the same order, the nodes are mapped back with the mean and scale when given, and the stable option only changes the factorisation.',
     ['inputs', 'configurations'], 'all dimensions, orders, moments, index tables, mean/scale presence, options',
     'Tests only use small d and compare a few integrals; weights and nodes being permuted consistently for every d, n is not observable from them.',
     [QN, U], [('orthonormalisation, Cartesian products and weights', QN), ('modified Cholesky', U)], ['weights and nodes'])
prop('C06', 'Multi-index sets are complete, duplicate-free and graded-lexicographic',
     'For every dimension and every lower/upper degree, the generated multi-indices are exactly the non-negative integer vectors with degree in that range, each once, in graded lexicographic order; the reported size is their number; and the reported position of a multi-index is its row in that list (counted from the lower degree when one is given).',
     ['inputs', 'configurations'], 'all dimensions, degrees and multi-indices',
     'Tests enumerate a few (d, N); size, position and successor are separate formulas that could disagree for other dimensions or non-zero lower degree.',
     [MI], [('closed-form size, position formula, successor rule', MI)], ['sizes, positions, generated arrays'])
prop('C07', 'Index tables and extractors address the right joint moments',
     'The Gram and Hankel index tables point, at row r and column c, to the position of the sum of the r-th and c-th basis multi-indices (plus one unit in coordinate i for the i-th Hankel table). Extracting a moment, the mean vector, the covariance matrix or a marginal from an ordered moment array (with any number of leading axes) returns the entries of the corresponding multi-indices.',
     ['inputs', 'configurations'], 'all dimensions, orders, coordinates and batch shapes',
     'Tests cover few dimensions and only symmetric situations where a swapped coordinate can go unnoticed.',
     [MI, MN], [('Gram/Hankel table generation', MI), ('extraction and marginalisation', MN)], ['index tables, extracted moments'])
prop('C08', 'Moment representations convert exactly and invertibly',
     'Converting raw to central, central to raw, raw to scaled central, and scaled central to central moments follows the binomial and scaling identities for every order and every mean and scale, so converting forth and back is the identity. Scaled-central moments to cumulants, and partial/complete Bell polynomials on which it rests, follow their defining recurrences.',
     ['inputs'], 'all moment vectors, lengths, means, scales',
     'Tests check normal and uniform examples of fixed length; identities must hold for every vector and order.',
     [M1, U], [('binomial sums and scaling', M1), ('Bell polynomial recurrences', U)], ['converted moments, cumulants'])
prop('C09', 'Closed-form moments of normal and uniform laws are exact for every order',
     'The closed-form raw and central moments of scalar normals, of multivariate normals (by both the combinatorial and the generating-function method) and of independent uniforms equal the true expectation for every order or multi-index, mean and covariance; odd central moments vanish.',
     ['inputs'], 'all orders, multi-indices, means, covariances, bounds',
     'Tests compare low orders against a few numbers.',
     [M1, MN], [('scalar normal moments', M1), ('Kan formulas, MGF derivatives, uniform moments', MN)], ['returned moments'])
prop('C10', 'One-dimensional conditional-moment functions describe one transition law',
     'Each one-dimensional factory (Euler-Maruyama, Taylor moment expansion, Taylor expansion with normal closure) returns five functions that are the raw moments, the moments about a given centre, the same divided by the scale to the moment\'s own order, the mean, and the mean and variance of one and the same transition law for the given drift, dispersion and time step. They vectorise states along the first and orders along the second output axis.',
     ['inputs', 'configurations'], 'all drifts, dispersions, steps, expansion orders, states, moment orders, centres and scales',
     'The scaled variants of the Euler and normal-closure factories are not tested at all; the rest only on linear models.',
     [M1], [('three factories', M1)], ['values of the five returned functions'])
prop('C11', 'Multidimensional conditional-moment functions describe one transition law',
     'Each multidimensional factory (Euler-Maruyama, Taylor moment expansion, Taylor expansion with normal closure) returns five functions that are the raw moments, the moments about a given centre, the same divided by each scale to that coordinate\'s own order, the mean vector, and the mean and covariance diagonal of one and the same transition law. Moments are addressed by the given multi-indices (or positions in them), and states vectorise along the first output axis.',
     ['inputs', 'configurations'], 'all drifts, dispersions, steps, expansion orders, states, multi-indices, centres and scales',
     'Tests use d=2 with particular dispersion shapes; per-coordinate scales and non-square dispersions are not varied.',
     [MN], [('three factories', MN)], ['values of the five returned functions'])
prop('C12', 'The Kalman filter and smoother are exact for every linear Gaussian model',
     'For every transition, noise and measurement matrix, initial law and data of any state and measurement dimension, the Kalman filter returns at each step the exact conditional mean and covariance of the state given the measurements so far, and the Rauch-Tung-Striebel smoother returns the exact conditional mean and covariance given all measurements, ending with the last filtering result.',
     ['inputs', 'histories', 'configurations'], 'all matrices, dimensions (including vector measurements), lengths',
     'Tests use scalar measurements and diagonal-like models only.',
     [G], [('prediction, update and smoothing steps', G)], ['means and covariances'])
prop('C13', 'Extended Kalman filters and smoothers linearise the given model correctly',
     'The extended Kalman filter and smoother propagate the mean through the model and the covariance through its Jacobian at the current mean plus the model covariance, and the continuous-discrete versions integrate the corresponding mean and covariance equations (forward for filtering, backward from the end for smoothing) over one time step per measurement with the classical fourth-order Runge-Kutta rule. Measurement updates use the measurement Jacobian at the predicted mean, in either differentiation mode, for any measurement dimension.',
     ['inputs', 'histories', 'configurations'], 'all differentiable models, dimensions, steps, data, Jacobian modes',
     'Tests only use linear models, where evaluating a Jacobian at the wrong point is invisible.',
     [G, CQ], [('EKF/EKS scan bodies and update', G), ('Runge-Kutta', CQ)], ['means and covariances'])
prop('C14', 'Sigma-point filters and smoothers match moments under the given rule',
     'The sigma-point filters and smoothers compute, with the supplied sigma-point rule placed at the current mean and Cholesky factor of the current covariance, the predictive mean and covariance (law of total covariance), the cross-covariances, and the resulting Gaussian conditioning, for discrete and continuous-discrete models, any dimensions, and both settings of the constant-measurement-covariance option when the covariance is indeed constant.',
     ['inputs', 'histories', 'configurations'], 'all models, sigma-point rules, dimensions, data, options',
     'Tests use linear models with scalar measurements where many wrong moment formulas coincide.',
     [G, CQ], [('sigma-point prediction/update/smoothing and ODEs', G), ('sigma-point placement and expectation', CQ)], ['means and covariances'])
prop('C15', 'Integration rules have their stated order and normalisation',
     'The Runge-Kutta steps satisfy all order conditions of a fourth-order method for the joint mean and covariance system, with the filtering inputs held fixed in the backward version. The cubature and Gauss-Hermite rules have weights and points that integrate the standard normal density (product rule over all coordinates, unit total weight), points are placed at mean plus Cholesky factor times unit points, and expectations are the weighted sums over points.',
     ['inputs', 'configurations'], 'all vector fields, steps, dimensions and orders, integrands',
     'Order conditions and product structure for every dimension/order cannot be sampled; tests check a few expectations.',
     [CQ], [('Runge-Kutta steps, sigma-point factories and expectation', CQ)], ['propagated means/covariances, points, weights, expectations'])
prop('C16', 'Particle filters weight and resample particles correctly',
     'At every step the bootstrap filter weights propagated particles by the likelihood of the current measurement, and the general particle filter by likelihood times transition over proposal density of the new particle given its ancestor; weights are normalised to one and the returned particles are the propagated ones at the indices drawn by the resampling scheme (or the continuous inverse of the weighted distribution when requested). Systematic, stratified and multinomial resampling invert the cumulative weights at the points (i+u)/n with one common, n separate, or n sorted uniforms, always giving valid indices.',
     ['inputs', 'histories', 'configurations'], 'all samplers, densities, data, particle counts, weights, random draws',
     'Tests only use stratified resampling with a bootstrap-equal proposal, where wrong density arguments cancel.',
     [SMC, RS], [('weighting and resampling', SMC), ('inverse-CDF resampling', RS)], ['particles, indices'])
prop('C17', 'Random keys are never reused',
     'No library routine consumes the same random key in two independent draws, nor draws from a key it also splits: initial, transition, resampling, component-choice and noise draws, and the draws of different time steps, always come from distinct keys derived from the caller\'s key. No routine draws randomness from anything but the key it is given.',
     ['inputs', 'histories', 'programs'], 'all call sequences, lengths and particle counts',
     'Reused keys still give plausible samples; statistical tests at fixed seeds cannot see the dependence.',
     [SMC, RS, U, S1, SN], [('key splitting', SMC), ('samplers and simulators', U), ('model simulators', SN)], ['keys handed to random draws and callbacks'])
prop('C18', 'The brute-force filter solves prediction and Bayes update on the grid',
     'The brute-force grid filter propagates the density between measurements by the selected method (Fokker-Planck operator with Euler steps, or Chapman-Kolmogorov integral with Euler-Maruyama or Taylor-expansion Gaussian transition) using the requested number of substeps that together span the measurement interval, then multiplies by the likelihood and normalises to unit integral at every step. Unknown methods are rejected with an error.',
     ['inputs', 'histories', 'configurations'], 'all drifts, dispersions, likelihoods, grids, data, methods, substep counts',
     'Tests compare one linear model within coarse tolerance and constant dispersion, hiding derivative terms.',
     [BF], [('prediction operators and update', BF)], ['returned densities'])
prop('C19', 'Density reconstructions follow their defining expansions',
     'Gram-Charlier, Legendre, saddle-point and inverse-Fourier reconstructions, the truncated cumulant-generating function, the probabilist Hermite polynomials, and the characteristic function of a tabulated density evaluate their defining expressions for every order, interval, mean and scale. In particular the Legendre expansion reproduces the given moments on any interval and the saddle point solves the saddle-point equation.',
     ['inputs', 'configurations'], 'all moment/cumulant vectors, evaluation points, intervals, means, scales',
     'The saddle-point and Legendre tests assert nothing beyond the unit interval; series identities hold per order.',
     [PD, U, M1], [('expansions', PD), ('Hermite/Bell polynomials', U), ('characteristic functions', M1)], ['density values'])
prop('C20', 'LDL, modified Cholesky and Lanczos factorisations reproduce their input',
     'The LDL factorisation returns a unit lower-triangular factor and diagonal whose product is the input; the modified Cholesky factor is the lower-triangular factor scaled by the square roots of the pivots, with negative pivots replaced by a small positive value relative to the matrix norm (or the given one). The Lanczos recursion and its Ritz values/vectors follow the three-term recurrence for the given start vector.',
     ['inputs', 'configurations'], 'all symmetric matrices of any size, start vectors, iteration counts',
     'Tests use a few random positive-definite matrices; negative pivots and other sizes are not reached.',
     [U], [('ldl, modified Cholesky, Lanczos', U)], ['factors'])
prop('C21', 'Gaussian sums are consistent distributions',
     'A Gaussian-sum object built from means, (co)variances and weights stores the mean, (co)variance and raw, central and scaled moments of exactly the mixture whose density it evaluates and whose samples it draws; the log density is the logarithm of the density.',
     ['inputs', 'configurations'], 'all component counts, parameters, orders, dimensions',
     'Tests use symmetric two-component mixtures at low order.',
     [U, M1, MN], [('mixture construction, pdf, logpdf, sampler', U)], ['attributes, pdf, logpdf, sampler'])
prop('C22', 'SDE utilities: discretisation, simulation and information bound are exact',
     'Discretising a linear SDE returns the exact transition matrix and the exact integrated covariance; simulating an SDE advances the state by the given conditional mean and a square root of the conditional covariance over substeps that together span each interval, recording the state at the end of every interval; the posterior Cramer-Rao recursion evaluates the Tichavsky information recursion with Hessians of the given log densities. Vectorising a list of functions returns all their values in order.',
     ['inputs', 'histories', 'configurations'], 'all matrices, models, step counts, dimensions, log densities',
     'Tests check a few linear models.',
     [U], [('discretise, simulate, information recursion', U)], ['returned matrices and trajectories'])
prop('C23', 'Shipped state-space models are self-consistent',
     'Each shipped model\'s simulator draws trajectories and measurements from the same drift, dispersion, initial law, emission and time grid that the model exports for filtering: the simulated steps are a consistent scheme for the exported drift and dispersion over the exported time step, and the measurement probability function is that of the simulated measurement given the exported emission.',
     ['inputs', 'configurations'], 'all parameters, keys and orders',
     'No test compares simulator and exported model functions.',
     [S1, SN], [('model factories', S1), ('model factories', SN)], ['simulated paths vs exported functions'])
prop('C24', 'Library calls are pure: no mutation, no hidden state',
     'No library function modifies arrays or containers passed by the caller, keeps state between calls (module-level or attribute caches, mutable defaults, memoisation of array-dependent results), or depends on anything but its arguments; repeating a call with equal arguments gives equal results whatever was called before.',
     ['inputs', 'histories', 'programs'], 'all call histories',
     'Tests call functions in a fixed order and never compare arguments before and after.',
     ['mfs/'], [('effects of every function', 'mfs/')], ['arguments and module state after calls'])
prop('C25', 'Filters stay traceable and differentiable end to end',
     'The likelihood and estimates of every filter and smoother can be traced and differentiated with respect to the model parameters, initial state and data: on the path from these inputs to the outputs there is no conversion to host numbers, no host-library call on traced values, no Python branching on traced values, and no operation that cuts, rounds or re-routes gradients. The only exceptions are the discrete resampling choices.',
     ['inputs', 'programs'], 'all inputs and compositions with jit, grad, vmap',
     'Tests jit some filters; gradients are checked on one example.',
     [F1, FN, G, SMC, Q1, QN, U, M1, MN], [('operations on the dataflow path', 'mfs/')], ['jit/grad of outputs'])
prop('C26', 'Filtering is causal and smoothing is anchored at the last filtering result',
     'A filtering result at step k depends on the measurements only through the first k of them and on every one of these; a smoothing result at step k depends on filtering results from step k on, and the last smoothing result equals the last filtering result. Outputs have one entry per measurement, in measurement order.',
     ['inputs', 'histories'], 'all filters, models and measurement sequences',
     'Tests compare final numbers, not dependence.',
     [F1, FN, G, SMC, BF], [('scan direction, inputs and stacking', G)], ['dependence of outputs on data'])
prop('C27', 'Experiment readers load what experiment writers save',
     'Every result file and array name read by the post-processing and plotting scripts is written, under the same file name for the same option values and with the same array name, by some experiment script. What a script saves depends on every option and Monte Carlo run that names the file. Options used by a script are declared; run files start existing scripts with options and values they accept, create the folders the scripts write to, and never remove files that are read outside the run file.',
     ['configurations', 'programs'], 'all experiment configurations: every option assignment of every script, every run file',
     'Scripts are not tested at all.',
     ['dardel/', 'reproduce_paper_plots/'], [('np.savez / np.load sites', 'dardel/'), ('plot readers', 'reproduce_paper_plots/'), ('run files', 'dardel/*.sh')], ['file names, array keys, options'])
prop('C28', 'Moment filters converge to the true filter as the order grows',
     'As the number of moments increases, filtering expectations and likelihoods converge to those of the true filtering distribution.',
     ['inputs', 'histories'], 'all models in the paper\'s class', 'An asymptotic statement.',
     [F1, FN], [('quadrature', Q1)], [])
prop('C29', 'Results stay accurate in floating point',
     'Filtering and quadrature results stay finite and close to their exact-arithmetic values for well-posed problems of practical order and length.',
     ['inputs', 'histories'], 'all well-posed inputs', 'Depends on conditioning and rounding of runtime values.',
     [F1, FN, Q1, QN], [('stable option', U)], [])
prop('C30', 'Particle filters are statistically consistent',
     'As the number of particles grows, particle estimates and likelihoods converge to the true ones.',
     ['inputs', 'histories'], 'all models and keys', 'A statement in probability over an asymptotic regime.',
     [SMC, RS], [('weights and resampling', SMC)], [])
prop('C31', 'Scripts, notebooks and the library call each other correctly',
     'Every call made by the experiment scripts, plotting scripts, example notebooks and library functions to functions of the repository binds to the signature of the function that the name denotes at that point (number and names of arguments), receives and unpacks as many results as that function returns, imports only names that exist, and uses only attributes and methods that the library objects have. This holds under every option assignment a script accepts.',
     ['configurations', 'programs'], 'all scripts, notebooks and library functions, all option assignments',
     'Scripts and notebooks are not run by the tests, and library branches that tests do not take are not executed.',
     ['dardel/', 'reproduce_paper_plots/', 'examples/', 'mfs/'], [('call sites', 'dardel/'), ('call sites', 'examples/'), ('signatures and return values', 'mfs/')], ['TypeError / ValueError / AttributeError / NameError at call sites'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
