"""Writes /verif/properties.jsonl (the single place where the properties are stated)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                observe_at=observe, hook_needed=None,
            ),
        )
    )


I, C, H, PR = "inputs", "configurations", "histories", "programs"
EP, GP, RG, AP, MO, NN, UT, SA = ("gpcm/exppoly.py", "gpcm/gpcm.py", "gpcm/rgpcm.py",
    "gpcm/approx.py", "gpcm/model.py", "gpcm/normal.py", "gpcm/util.py", "gpcm/sample.py")

prop("C01", "Polynomial arithmetic agrees with evaluation",
     "Evaluating a sum, difference, negation, product or non-negative integer power of polynomials (and the product, scaling or negation of exponentiated polynomials) at any point gives the same number as combining the values of the operands at that point. This includes mixed polynomial/number arithmetic on either side, repeated variables, cancelling terms, zero and one, and the power zero.",
     [I, PR], "all real coefficients and evaluation points; all small polynomial shapes (up to 3 terms in up to 3 variables, powers up to 3) and operator combinations",
     "The tests multiply and add a few literal polynomials; merging of equal factors/terms depends on the coincidences of variables and powers and on the coefficients being arbitrary tensors.",
     [EP], [("Poly/Term/Factor operators", EP), ("merging of common factors and terms", EP)], ["Poly.eval", "ExpPoly.eval"])
prop("C02", "Substitution and translation mean evaluation at the substituted value",
     "Substituting a polynomial for a variable in a polynomial or exponentiated polynomial, and then evaluating, gives the value obtained by evaluating the original with that variable set to the value of the substituted polynomial. Translating a variable by a polynomial gives the value at the variable plus that polynomial; variables other than the substituted one are untouched, also when the inserted polynomial mentions the substituted variable itself.",
     [I, PR], "all real coefficients and points; bounded shapes, including self-referential and multi-variable insertions",
     "Tests substitute one or two literal polynomials.",
     [EP], [("substitute", EP), ("translate_var", EP)], ["Poly.substitute", "ExpPoly.substitute", "ExpPoly.translate_var"])
prop("C03", "Collecting, rejecting and degrees decompose a polynomial exactly",
     "For every polynomial and variable, the rejected part plus the sum over powers k of (the coefficient collected for that variable to the power k) times the variable to the power k evaluates to the original polynomial; the collected and rejected parts no longer depend on the variable; and the highest power, function-of and constant queries agree with which powers really occur. Sums of the same monomials are merged, so the order in which a polynomial was put together changes neither its equality nor the hashes of its terms.",
     [I, PR], "all real coefficients; bounded polynomial shapes; every construction order",
     "Tests look at single instances of each query.",
     [EP], [("collect_for/reject/highest_power/is_function_of/is_constant", EP), ("_merge_common_terms, __eq__, __hash__", EP)], ["Poly.collect_for", "Poly.reject", "Poly.highest_power", "Poly.__eq__"])
prop("C04", "Integrating exponentiated quadratics over the real line is exact",
     "Integrating an exponentiated polynomial over all values of one or several variables gives the exact value of that (convergent) Gaussian integral as a function of the remaining variables, whatever the coefficients, cross terms and order of the variables. The constant in front scales the result linearly.",
     [I], "all real coefficients with negative definite quadratic part, all values of the remaining variables; one to three integration variables with all cross terms",
     "Tests compare a handful of random coefficient draws with numerical quadrature.",
     [EP], [("ExpPoly.integrate/_integrate", EP)], ["ExpPoly.integrate"])
prop("C05", "Integrals over half-lines, quadrants and boxes are exact",
     "Integrating an exponentiated polynomial over one or two variables from minus infinity to zero, or over a box whose limits are numbers, tensors, polynomials in other variables, or infinite (below, above or on both sides), gives the exact value of the integral. An infinite limit means minus infinity as a lower and plus infinity as an upper limit, whatever its sign.",
     [I, C], "all real coefficients with negative definite quadratic part, all limits, every finite/infinite combination of limits for one and two variables",
     "Tests sample a few coefficient draws, and never use an infinite upper limit with a finite lower one.",
     [EP], [("integrate_box, integrate_half, _integrate_half1, _integrate_half2, is_inf", EP)], ["ExpPoly.integrate_half", "ExpPoly.integrate_box"])
prop("C06", "Ill-posed symbolic requests are rejected, never answered",
     "Integrating over a variable whose dependence is not exactly quadratic, or whose quadratic coefficient depends on another variable, raises an error instead of returning a number (once integrated over, a variable is gone: asking for the same whole-line integral twice is an error too); so do factors with power below one, negative powers of polynomials, and adding or multiplying terms and factors that cannot be merged. Well-posed requests of the same shapes are never rejected.",
     [I, PR], "all polynomial shapes up to total degree 4 in up to three variables, with arbitrary coefficients",
     "Tests try one or two instances of each error.",
     [EP], [("degree guards in _integrate*, Factor.__init__, Poly.__pow__, Term.__add__, Factor.__mul__", EP)], ["ExpPoly.integrate", "ExpPoly.integrate_half", "Factor", "Poly.__pow__"])
prop("C07", "GPCM and CGPCM prior covariances match the generative process",
     "The filter kernel of the GPCM is the scaled window-times-EQ covariance alpha_t^2 exp(-alpha (t^2 + t'^2) - gamma (t - t')^2); the covariance of the filter's inducing variables is that kernel at the inducing inputs; and the covariance of the noise's inducing variables is the covariance of white noise smoothed with the Gaussian inter-domain transform. For the default transform scale the inducing variables of the noise have unit variance.",
     [I], "all positive hyperparameters and all inducing inputs (bounded number of inducing points)",
     "Tests compare against Monte Carlo or quadrature for one configuration.",
     [GP], [("k_h, k_xs, compute_K_u, compute_K_z", GP)], ["GPCM.compute_K_u", "GPCM.compute_K_z"])
prop("C08", "The GPCM's cross-covariance integrals equal their definitions",
     "For the acausal model, i_hx(t,t') , I_ux(t,t'), I_hz(t) and I_uz(t) equal the integrals over all time of the products of the filter kernel and the inter-domain kernel that define them, entry by entry, for every time, inducing input and hyperparameter. Leaving a time argument out is the same as passing zero and drops exactly that axis.",
     [I, C], "all positive hyperparameters, times and inducing inputs; every combination of given/omitted time arguments; bounded array sizes",
     "Tests check one hyperparameter setting with quadrature.",
     [GP, EP], [("compute_i_hx, compute_I_ux, compute_I_hz, compute_I_uz", GP)], ["GPCM.compute_i_hx", "GPCM.compute_I_ux", "GPCM.compute_I_hz", "GPCM.compute_I_uz"])
prop("C09", "The CGPCM's integrals respect causality exactly",
     "For the causal model the same four quantities equal their defining integrals restricted to the past of each time (up to the smaller of two times, or up to t in both integration variables), so nothing of the noise after the time of interest contributes. This holds for every ordering of times and inducing inputs.",
     [I, C], "all positive hyperparameters, times and inducing inputs in every order; bounded array sizes",
     "Tests check one hyperparameter setting with quadrature.",
     [GP, EP], [("compute_i_hx, compute_I_ux, compute_I_hz, compute_I_uz with causal=True", GP)], ["CGPCM.compute_i_hx", "CGPCM.compute_I_ux", "CGPCM.compute_I_hz", "CGPCM.compute_I_uz"])
prop("C10", "RGPCM prior covariances match the OU and Fourier-feature priors",
     "The covariance of the RGPCM's filter inducing variables is the stationary Ornstein-Uhlenbeck covariance with decay gamma, and the covariance of its variational Fourier features is the diagonal (b-a)/2 divided by the Matern-1/2 spectral density at each feature's frequency (doubled for the zeroth feature) plus the rank-one term that couples exactly the cosine features. This holds for every set and order of features.",
     [I, C], "all positive hyperparameters, all inducing inputs, supports a<b, and feature index sets/orders up to the bound",
     "Tests check one setting against a Monte Carlo/quadrature estimate.",
     [RG], [("compute_K_u, compute_K_z, psd_matern_12", RG)], ["RGPCM.compute_K_u", "RGPCM.compute_K_z"])
prop("C11", "RGPCM i_hx and I_ux equal their defining integrals",
     "i_hx(t,t') and I_ux(t,t') of the RGPCM equal the defining (double) integrals of the causal exponential filter kernel against the Matern-1/2 kernel of the noise, for every sign and ordering of the times and inducing inputs. Omitting a time argument is the same as passing zero and drops exactly that axis.",
     [I, C], "all positive decays with gamma < alpha (and the generic case gamma - alpha != +-lambda), all orderings of two times and two non-negative inducing inputs",
     "Tests check one ordering/hyperparameter setting by quadrature; the implementation is piecewise in signs and orderings.",
     [RG], [("integral_abcd, integral_abcd_lu, compute_I_ux, compute_i_hx", RG)], ["RGPCM.compute_I_ux", "RGPCM.compute_i_hx"])
prop("C12", "RGPCM I_hz equals its defining integrals for every feature pair",
     "Every entry of I_hz(t) of the RGPCM equals the integral over the past of t of the squared window times the product of the two features' covariances with the noise, including the part before the start of the basis' support, for cosine-cosine, sine-sine, cosine-sine pairs and the constant feature. The result is symmetric in the two features and follows the order in which the features are listed.",
     [I, C], "all positive hyperparameters, a < t, every pair of features and every ordering of the feature list up to the bound",
     "Tests check one configuration with features in natural order.",
     [RG], [("compute_I_hz, _I_hx_0_cos, _I_hx_0_sin, invert_perm", RG)], ["RGPCM.compute_I_hz"])
prop("C13", "RGPCM I_uz equals its defining integrals for every feature",
     "Every entry of I_uz(t) of the RGPCM equals the integral, over the stretch of the past of t reached by the inducing input, of the windowed filter covariance times the feature, for constant, cosine and sine features and for times whose reached stretch lies within the basis' support. The result follows the order in which the features are listed.",
     [I, C], "all positive hyperparameters with gamma < alpha, a <= t - t_u <= t, every feature and every ordering of the feature list up to the bound",
     "Tests check one configuration with features in natural order.",
     [RG], [("compute_I_uz, _integral_lu0, _integral_luk_leq_M, _integral_luk_g_M", RG)], ["RGPCM.compute_I_uz"])
prop("C14", "Default hyperparameters realise the requested window, scale and unit power",
     "Given a window length and a length scale, each model derives its decays by the documented conversions (and converting a scale to a factor and back is the identity), defaults its scales so that the prior power of the process, i_hx(0,0), is one and the noise transform has unit power, and never overrides a value that was given explicitly. The RGPCM keeps its transform's decay strictly below the window's decay.",
     [I, C], "all positive window, scale and explicit parameter values; every combination of given/omitted parameters",
     "Tests construct two or three models.",
     [GP, RG], [("GPCM.__init__, RGPCM.__init__, scale_to_factor, factor_to_scale", GP)], ["model.alpha", "model.alpha_t", "model.gamma", "model.omega", "model.omega_t", "model.lam", "compute_i_hx"])
prop("C15", "Inducing points cover the filter and the data with the documented counts",
     "Default inducing inputs of the filter are equally spaced, start and end at the documented multiples of the filter's extent (both sides plus origin for the acausal model, two extra points left of the origin for the causal model, from the origin for the rough model), and their number follows two per wiggle up to the cap; default inducing inputs of the noise (for data of at least two points) are equally spaced over the data, extended on the documented sides by at least the filter length on the same grid. Given inputs and counts are used as they are, and the reported counts always equal the lengths of the arrays.",
     [I, C], "all window/scale/time-span values within the bounded counts; every combination of given/omitted arguments and caps",
     "Tests check the largest inducing input of one configuration per model.",
     [GP, RG], [("GPCM.__init__, RGPCM.__init__", GP)], ["model.t_u", "model.n_u", "model.t_z", "model.n_z", "model.a", "model.b", "model.ms"])
prop("C16", "Only the intended parameters are learnable, within their constraints",
     "Instantiating a model registers as trainable exactly the noise, window, scale and inducing parameters that are not fixed by the user, under constraints that contain their initial values (positive parameters positive, inducing inputs around the origin within 1.5 times their range); at the initial values instantiation reproduces the model's own parameters. For the RGPCM every admissible parameter setting keeps the transform's decay below the window's decay.",
     [I, C], "all parameter values, all combinations of the fix_* switches, all admissible settings of the learnable variables",
     "Tests fit one model for a few iterations and never inspect which variables may move.",
     [GP, RG, MO], [("__prior__", GP), ("__prior__", RG)], ["model().ps", "model.vs.names"])
prop("C17", "Natural-parameter normals report the right moments",
     "A normal given by (precision times mean, precision) reports mean, variance and second moment that satisfy precision*mean = lam, precision*variance = identity and second moment = variance + mean mean^T, and its dimension; converting from and to a mean/variance normal round-trips both ways. Reading one moment never changes another, in any order of access, and the given parameters are left as they were.",
     [I, H], "all vectors and positive-definite matrices up to the dimension bound; every order of accessing the cached moments",
     "Tests use a few random matrices.",
     [NN], [("mean/var/m2/from_normal/to_normal caches", NN)], ["NaturalNormal.mean", "NaturalNormal.var", "NaturalNormal.m2", "NaturalNormal.to_normal", "NaturalNormal.from_normal"])
prop("C18", "KL divergence and log-density of natural-parameter normals are exact",
     "The KL divergence between two natural-parameter normals equals 0.5 (tr(P2 S1) - log det(P2 S1) + (m1-m2)^T P2 (m1-m2) - d), which is zero exactly for equal distributions, and the log-density equals the Gaussian log-density of the corresponding mean and variance.",
     [I], "all pairs of parameters up to the dimension bound",
     "Tests use a few random pairs.",
     [NN], [("kl, logpdf", NN)], ["NaturalNormal.kl", "NaturalNormal.logpdf"])
prop("C19", "Sampling natural-parameter normals has exactly the right distribution",
     "Each sample is the mean plus a linear map of the standard-normal draws whose outer product is exactly the variance; different columns of a multi-sample draw use different noise and share the mean. The random state is threaded through: a given state determines the sample and the state returned is the advanced one.",
     [I, H], "all parameters up to the dimension bound, all noise draws, one to three samples",
     "Tests compare empirical moments within Monte Carlo error.",
     [NN], [("sample", NN)], ["NaturalNormal.sample"])
prop("C20", "Conditional posteriors q(u|z) and q(z|u) are the exact optima",
     "Given a value of z, the returned posterior of u is proportional, as a function of u, to the prior of u times the exponentiated expected Gaussian log-likelihood of all observations; and the same with u and z interchanged. This holds for every model that supplies the four integrals, every noise level and any number of observations.",
     [I], "arbitrary symmetric integral terms, covariances, data, noise and conditioning values; bounded numbers of observations and inducing variables",
     "Tests only run a fit and compare predictions loosely.",
     [AP], [("construct_terms, q_u_optimal, q_z_optimal, _q_optimal", AP)], ["Approximation.q_u_optimal", "Approximation.q_z_optimal"])
prop("C21", "Mean-field coordinate updates maximise the mean-field bound",
     "The mean-field update of q(u) given q(z) (and of q(z) given q(u)) is the exact maximiser of the mean-field evidence bound over that factor: its natural parameters are the prior's plus the expected data terms under the other factor's first and second moments. Hence coordinate ascent alternates such exact updates and stores the last pair as the model's posterior.",
     [I, H], "arbitrary integral terms, priors, data, noise and other-factor moments; bounded sizes; bounded number of ascent steps",
     "Tests check that fitting runs.",
     [AP], [("q_u_optimal_mean_field, q_z_optimal_mean_field, _fit_mean_field_ca", AP)], ["Approximation.q_u_optimal_mean_field", "Approximation.q_z_optimal_mean_field", "model.fit"])
prop("C22", "The mean-field ELBO is the expected log-likelihood minus the KL terms",
     "The mean-field ELBO equals the sum over observations of the expected Gaussian log-likelihood under the factorised posterior minus KL(q(u)||prior of u) minus KL(q(z)||prior of z); collapsing over z (or u) equals the same bound with that factor replaced by its optimal update, and any other collapse request is refused.",
     [I, C], "arbitrary integral terms, priors, posteriors, data and noise; bounded sizes; all collapse options",
     "Tests compare nothing but finite values.",
     [AP, NN], [("MeanField.elbo", AP)], ["model.elbo", "MeanField.elbo"])
prop("C23", "The structured bound integrates z out exactly",
     "The log-normaliser used by the structured approximation equals the log of the integral over z of the prior of z times the exponentiated expected log-likelihood given u, for every u. The structured ELBO is the average of this over the posterior samples of u minus the KL of q(u) to its prior, and the Gibbs objective is this quantity plus the prior log-density of u at the final Gibbs sample.",
     [I, H], "arbitrary integral terms, covariances, data, noise and u; bounded sizes; one to three samples and Gibbs steps",
     "Tests compare nothing but finite values.",
     [AP], [("log_Z_u, elbo_collapsed_z, elbo_gibbs, Structured.elbo", AP)], ["Structured.log_Z_u", "Structured.elbo_collapsed_z", "Structured.elbo_gibbs", "model.elbo"])
prop("C24", "Predictions are the exact posterior-predictive moments",
     "Predicted means and variances at every time are the first moment and the central second moment of the process under the current posterior over u and z (exactly for mean field; averaged over the stored samples of u with the optimal q(z|u) for structured), plus the observation noise variance. In particular, predictions under the prior are mean zero with the process' prior power plus noise. Where predictions are averages over draws, repeated predictions take fresh ones.",
     [I, C], "arbitrary integral terms, priors, posteriors and noise; bounded sizes; both approximations; prior and posterior; several samples",
     "Tests compare predictions with data loosely for one dataset.",
     [AP], [("_predict_moments, Structured.predict, MeanField.predict", AP)], ["model.predict"])
prop("C25", "Approximate and sampled kernels follow from the filter's inducing variables",
     "The approximate kernel for inducing values u is i_hx(t,t') - tr(K_u^-1 I_ux(t,t')) + u^T K_u^-1 I_ux(t,t') K_u^-1 u for every pair of times; its average over the prior of u is i_hx(t,t'). Kernel samples evaluate this at lag zero versus each requested lag for samples of u from the current prior or posterior, and function samples are drawn from the (optionally normalised) kernel matrix plus observation noise. Repeated sampling takes fresh draws.",
     [I, C], "arbitrary integrals, covariances, u and times; bounded sizes; normalised or not; prior and posterior",
     "Tests estimate the prior power by Monte Carlo.",
     [MO, AP], [("kernel_approx, _sample_kernel, sample, sample_kernel", MO)], ["model.kernel_approx", "model.sample_kernel", "model.sample"])
prop("C26", "Conditioning turns the fitted posterior into the next prior",
     "After k conditionings the current prior is the (k-1)-st fitted posterior (the model's own prior only before the first), the current posterior is a fresh one, terms are rebuilt from the newly given data, and earlier posteriors are never modified. The variables excluded from optimisation are exactly the previous posteriors and/or the requested current ones.",
     [H, C], "all histories of conditioning and assigning posteriors up to the bound; all option combinations; arbitrary values",
     "Tests condition once.",
     [AP, MO], [("condition, p_u/q_u/p_z/q_z, ignore_qs, sample setters", AP)], ["model.condition", "Approximation.p_u", "Approximation.q_u", "Approximation.ignore_qs"],
     [("_q_i", "index of the current variational posterior", AP)])
prop("C27", "Every documented fitting scheme runs and stores what it computed",
     "Each documented scheme name selects its approximation and runs its documented stages on the documented variables: coordinate ascent before and after gradient steps where named, gradient steps on the (collapsed) bound with the iteration budget split as documented, never moving previous posteriors. Afterwards the stored posterior is the one the last stage produced, an unknown scheme is refused, and scheme names are case-insensitive.",
     [C, H], "all scheme names, iteration counts and optimiser outcomes (the optimiser is an arbitrary update of the variables it was told to move)",
     "Tests exercise the default scheme of each model; other documented schemes are never run.",
     [AP, MO], [("fit dispatch, AbstractGPCM.__prior__", AP)], ["model.fit", "model.approximation"])
prop("C28", "Elliptical slice sampling only accepts points on the slice",
     "Every state the elliptical slice sampler moves to is a combination cos(theta) x + sin(theta) y of the previous state and a fresh prior sample with theta inside the bracket, has log-likelihood strictly above the drawn slice height, and the stored log-likelihood belongs to the stored state; rejected proposals shrink the bracket towards theta zero without ever excluding it. A failed sweep (too many rejections) leaves the state unchanged and is retried.",
     [I, H], "arbitrary likelihood values, prior samples, angles and slice heights; all accept/reject histories up to the bound",
     "Tests compare sample moments with Monte Carlo error.",
     [SA], [("ESS._draw, _draw_proposal, _draw_bracket, _sample, move", SA)], ["ESS.sample", "ESS.x", "ESS.log_lik_x"])
prop("C29", "Autocorrelation estimates equal their definition",
     "The autocorrelation estimate at lag k is the sum of products of the centred series with itself shifted by k, divided by the number of products (or by the length, with the triangular window), normalised by lag zero unless covariances are asked for, for the requested number of lags. The series is left as it was, and earlier estimates have no influence.",
     [I, C], "all series up to the length bound; all option combinations",
     "Tests do not exercise this function except through the sampler's progress report.",
     [UT], [("autocorr", UT)], ["autocorr"])
prop("C30", "Estimated power spectra are non-negative, even and carry the right power",
     "The estimated PSD is the magnitude of the real Fourier transform of the zero-padded, symmetrised kernel at non-negative frequencies in ascending order, scaled so that the total power over all (positive and negative) frequencies equals the kernel at lag zero, for every kernel and time spacing (for a given amount of zero padding, in exact arithmetic); a grid not starting at zero is refused and decibels are ten times the base-ten logarithm. The kernel given is left as it was, and earlier estimates have no influence.",
     [I, C], "all kernels with positive lag zero up to the length bound, all time spacings and zero paddings; dB or not",
     "Tests only check that a PSD can be predicted.",
     [UT], [("estimate_psd", UT)], ["estimate_psd", "model.predict_psd"])
prop("C31", "Projection onto PSD matrices is the nearest one (and its inverse)",
     "The projection of a matrix is the nearest positive semi-definite matrix to its symmetric part: the negative eigenvalues are set to zero and everything else is kept; with inversion (of a matrix that is not exactly singular), the strictly positive eigenvalues are inverted. In particular a PSD matrix is returned unchanged.",
     [I], "all real matrices up to the dimension bound, including repeated and opposite eigenvalues",
     "Tests use random matrices, whose eigenvalues are distinct in magnitude.",
     [UT], [("closest_psd", UT)], ["closest_psd"])
prop("C32", "The minimum-phase transform keeps the magnitude spectrum and is minimum phase",
     "The minimum-phase version of a filter is real, has the same length and the same magnitude spectrum as the filter, and is the one whose log-spectrum is causal (folded cepstrum), hence applying the transform twice changes nothing and the sign of the filter is irrelevant up to the magnitude.",
     [I], "all real filters with non-vanishing spectrum up to the length bound",
     "Tests do not exercise this function directly.",
     [UT], [("min_phase", UT)], ["min_phase", "model.predict_filter"])
prop("C33", "Sample summaries are the statistics they claim to be",
     "Summarising samples returns the inputs, the sample mean, the sample variance, and lower/upper error bounds that are the 32/68, 2.5/97.5 and 0.15/99.85 per cent quantiles over samples at each input (mean and bounds in decibels when asked), all samples transposed to input-major order, and up to three distinct actual samples among them. Inverting a permutation composes with it to the identity in both orders. The samples given are left as they were.",
     [I, C], "all sample tensors up to the size bound, all permutations up to the size bound",
     "Tests do not exercise these helpers directly.",
     [UT], [("summarise_samples, collect, invert_perm", UT)], ["summarise_samples", "invert_perm"])
prop("C34", "Hessians and Laplace approximations are exact for the given density",
     "The Hessian of a smooth scalar function at a column vector is the symmetric matrix of its second derivatives there (anything but a column vector is refused); the Laplace approximation is centred at the point found by maximising the density and has as covariance the inverse of the negative Hessian there (where that is positive definite), of the evaluation density if one is given.",
     [I, C], "all polynomial densities up to the degree/dimension bound and all points",
     "Tests do not exercise these functions.",
     [UT], [("hessian, maximum_a_posteriori, laplace_approximation", UT)], ["hessian", "maximum_a_posteriori", "laplace_approximation"])
prop("C35", "Saving and loading a model round-trips every variable",
     "Loading a file written by save into a model of the same class makes every saved variable have the saved value, whether or not the receiving model had that variable yet, and leaves other variables alone; the constraint of variables that already existed is kept, and variables that are new to the receiving model (whose constraint is unknown) are not visible to optimisers. Saving to an existing file replaces it.",
     [I, H], "all variable values within their constraints; fresh, partially and fully initialised receiving models",
     "Tests do not save or load.",
     [MO], [("save, load", MO)], ["model.save", "model.load"])
prop("C36", "Filter predictions come from the posterior over the same filter kernel",
     "For the GPCM and the CGPCM, the kernel the filter predictions condition on agrees with the model's filter covariance at all pairs of inputs, so that conditioning reproduces the sampled inducing values of the current posterior at the inducing inputs and is the exact Gaussian conditional elsewhere; for the causal model the predicted filter is moreover zero at negative inputs. Filter predictions summarise such samples on the requested grid, as they are or in minimum-phase form starting at zero. Repeated predictions take fresh draws.",
     [I, C], "all positive hyperparameters, inputs and inducing values (bounded sizes); both options",
     "Tests only check that a filter can be predicted.",
     [GP, MO], [("k_h(), predict_filter", GP)], ["model.k_h", "model.predict_filter"])
prop("C37", "Kernel, PSD and Fourier predictions summarise the posterior samples",
     "predict_kernel summarises exactly the samples sample_kernel returns on the requested (or default) grid; predict_psd summarises the PSDs of those samples in decibels over the frequencies of the grid; predict_fourier returns the marginal means and variances of the noise's inducing variables under the current prior or posterior, for both approximations (in closed form for the mean-field one, from samples of the noise drawn given the stored samples of u for the structured one).",
     [I, C], "arbitrary samples, grids and posteriors (bounded sizes); both approximations; default and given grids",
     "Tests only check that some of these run for one model.",
     [MO, AP], [("predict_kernel, predict_psd, predict_fourier, sample_kernel, predict_z", MO)], ["model.predict_kernel", "model.predict_psd", "model.predict_fourier"])
prop("N01", "Fitting converges to a good optimum",
     "Given enough iterations every fitting scheme converges, and the fitted hyperparameters explain the data at least as well as the initial ones.",
     [H, C], "all datasets, schemes and iteration counts",
     "Tests fit one small dataset.", [AP], [("fit", AP)], ["model.fit"])
prop("N02", "Numerical results are accurate to working precision at production sizes",
     "With hundreds of inducing points and thousands of observations, the covariances remain numerically positive definite and bounds and predictions are accurate to working precision.",
     [I], "all datasets and sizes in double precision",
     "Tests use small sizes.", [GP, RG, AP], [("B.epsilon regularisation, Cholesky factorisations", AP)], ["model.elbo", "model.predict"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
