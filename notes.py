NOTE["C06"] = "Every method of NaturalNormal, symbolic dimension, precision and lam, all reading orders; library linear algebra and the noise source are assumed by contract."
NOTE["C13"] = "ESS construction, move, _draw (recursive, own contract), _sample (retry loop invariant) and sample (any number of samples, traced or not), symbolic dimension, bracket, slice height and attempt limit; the log-likelihood and the noise source are arbitrary functions. Progress display values are unconstrained."
NOTE["C07"] = "construct_terms, q_u_optimal, q_z_optimal and their mean-field versions for any number of data, any dimensions, any integrals with the symmetry of the model's integrals; the values of the integrals are C03/C04."
NOTE["C08"] = "MeanField.elbo (all collapse options, prior and conditioned, any posterior index), Structured.log_Z_u, elbo_collapsed_z, elbo, elbo_gibbs (any number of sweeps), any number of samples; the coordinate-ascent fit and the optimal factors enter through their contracts (C12, C07), the latter re-checked at each call site."
NOTE["C09"] = "Both schemes, before conditioning, after one step and at any posterior index, any number of stored and requested samples; the optimal factor enters through its contract (C07), re-checked at the call site."
NOTE["C10"] = "kernel_approx, kernel samples and predictions of both schemes (prior and conditioned, given and default lags), prior samples with and without normalisation, and GPCM.k_h in both forms; symbolic dimensions, times, sample counts; integrals, closest_psd (C15), summaries (C16) and the noise source by contract."
NOTE["C05"] = "The constructors of GPCM (causal or not), CGPCM and RGPCM and the registration of their parameters, with symbolic window, scale, data range, caps and numbers of points (given, automatic, extended), the kernels at lag zero and the inducing variances computed through the real exppoly code; learned values are arbitrary values satisfying their constraints."
NOTE["C11"] = "Storing, reading and conditioning at an arbitrary posterior index, any sequence by induction over the operations, both schemes; ignore_qs over all documented options; what fitting writes, for every scheme; probmods and varz enter by contract."
NOTE["C12"] = "The real fit of each scheme on a symbolic model at an arbitrary posterior index, any data, dimensions and numbers of iterations; loops by inference of loop-carried values; the optimisers of varz and the jit by contract; convergence of the optimisers is not claimed."
NOTE["C16"] = "summarise_samples for ranks 1 to 3 and any number of samples (levels of the bands are read from the verified expressions), autocorr for any series, lags and options; quantile, permutation and correlate of numpy by contract. The variance in decibels is unconstrained."
NOTE["C17"] = "save followed by load, any number of saved names and any receiving set of names: a generic saved name is restored on every path; pickle and varz by contract."
NOTE["C18"] = "hessian, maximum_a_posteriori and laplace_approximation for any dimension and uninterpreted densities; derivatives of jax, the optimiser of varz and closest_psd (C15) by contract; that the optimiser finds a mode is not claimed."
NOTE["C14"] = "estimate_psd on a symbolic kernel, spacing, length and padding (given, default, none), plain and in decibels, off-origin grids; the discrete Fourier transform and its frequencies by contract."
NOTE["C15"] = "closest_psd on a symbolic square matrix in spectral form, both modes; the singular value decomposition by contract with an obligation at the call that its vectors are determined; optimality of clipping per eigenvalue, its reduction (Higham) assumed."
NOTE["C03"] = "compute_K_u, compute_K_z, compute_i_hx, compute_I_ux, compute_I_uz, compute_I_hz of both models executed through the real exppoly code on symbolic parameters, inducing points and times (given, omitted, paired, crossed); entries equal the closed forms of the defining Gaussian integrals, whose coefficients are read off from the specified integrand; the closed forms of the Gaussian integrals and bvn_cdf of lab are assumed."
NOTE["C01"] = "Factor, Term and Poly: constructors, arithmetic, eval, substitute, collect_for, reject, highest_power, is_function_of, is_constant, equality, const and var, on terms with any number of factors and polynomials with any number of terms; collections by enumerations of their distinct values."
NOTE["C02"] = "Every method of ExpPoly on an arbitrary concave quadratic exponent whose coefficients are arbitrary functions of the other variables: whole line (one, two and three variables in any order; more variables repeat the same step), half line and quadrant, boxes with every combination of finite, symbolic and infinite limits in one and two variables, operations on arbitrary exponents, refusal of every other degree and of exponents that are not jointly quadratic; polynomials enter through the contracts that C01 proves."
NOTE["C04"] = "compute_K_u, compute_K_z, compute_i_hx, compute_I_ux, compute_I_uz, compute_I_hz and invert_perm on a symbolic rough model with any list of distinct features in any order: entries equal the integrals of the defining integrands (antiderivatives verified by differentiation), the double integral in every sign cell of its limits, the Gram matrix of the features for K_z, every group of features."
