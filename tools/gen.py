#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing the table below)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, F, ME, P, T, U, UN, S, PL = ("pxmcmc/" + x for x in ("mcmc.py", "forward.py", "measurements.py", "prior.py", "transforms.py", "utils.py", "uncertainty.py", "saving.py", "plotting.py"))
NOTE = ("Bounded: every value of the symbolic inputs within the sizes stated in the evidence file's bounds; floating-point numbers are treated as reals (differences "
        "at rounding level ignored). Trusts z3 (cvc5 as second opinion), the symbolic numpy/scipy layer in symx/ (cross-checked against the real package on a "
        "witness of the explored paths), and the installed numpy, pyssht and pys2let.")

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms
PROPS = [
 ("C01", "Langevin proposals have the right drift and noise",
  "From any state x, MYULA's next state and PxMALA's proposal are x - (delta/lambda)(x - prox(x)) - delta*grad(x) plus fresh Gaussian noise of covariance 2*delta per "
  "(real and, for complex parameters, imaginary) component. The gradient and proximal map are those of the current state, and the noise of different iterations and components is independent.",
  ["inputs", "histories"], "every state, step size, smoothing parameter, user operator and random draw; several consecutive steps",
  "Tests compare one step with hard-coded numbers; drift, noise scale and independence for all inputs and later iterations are not sampled.",
  [M], [("chain step", "MYULA.chain_step"), ("loop", "MYULA.run, PxMALA.run")]),
 ("C02", "Exactly the thinned post-burn-in states are saved",
  "A run saves exactly the requested number of samples, and the k-th saved sample is the chain's state after burn-in plus k thinning intervals, in the order visited, for every burn-in and thinning setting. "
  "Burn-in and thinning only select states: they do not change the chain itself. Running a sampler again gives a full new set of samples.",
  ["configurations", "histories"], "every burn-in length, thinning interval, number of samples and accept/reject pattern",
  "Tests run a couple of fixed schedules and look at array shapes; off-by-one errors in which state is saved go unnoticed.",
  [M], [("loop and save condition", "MYULA.run, PxMALA.run, SKROCK.run"), ("recording", "PxMCMC._tracking")]),
 ("C03", "Recorded diagnostics are those of the recorded sample",
  "The log posterior, data misfit, prior value and predictions saved with a sample are the values at that same sample. Which variables are tracked and how often progress is printed "
  "never changes the saved values, and a variable is saved exactly when it is tracked.",
  ["configurations", "inputs", "histories"], "every subset of tracked variables, verbosity, schedule, accept/reject pattern and (real or complex) data",
  "Tests use one tracking configuration and never recompute the diagnostics from the saved chain.",
  [M], [("recording", "PxMCMC._tracking"), ("allocation", "PxMCMC._initialise_tracking_arrays"), ("progress", "PxMCMC._print_progress")]),
 ("C04", "PxMALA accepts with the Metropolis-Hastings probability",
  "PxMALA accepts a proposal x' from x exactly when a uniform draw is below min(1, pi(x')q(x|x') / (pi(x)q(x'|x))), where pi is the posterior it reports and q the density of its own Gaussian proposal with the step size in force. "
  "Otherwise the chain stays at x; each decision uses its own fresh uniform draw.",
  ["inputs", "histories"], "every state, proposal, posterior value, step size, uniform draw and accept/reject history",
  "Tests check the sign of one transition density; detailed balance is a statement about all pairs of states.",
  [M], [("decision", "PxMALA.run"), ("proposal density", "PxMALA.calc_logtransition"), ("posterior", "PxMCMC.logpi")]),
 ("C05", "Accept/reject bookkeeping of PxMALA is exact",
  "PxMALA records for each iteration whether the proposal was accepted, and the saved sample, predictions and diagnostics are those of the proposal after an acceptance and those of the unchanged current state after a rejection. "
  "The acceptance trace has one entry per iteration, burn-in included, in order, and with tuning the step-size trace one entry per iteration after the initial one.",
  ["histories"], "every accept/reject pattern, burn-in, thinning and tuning setting",
  "Tests never force a given accept/reject pattern.",
  [M], [("loop", "PxMALA.run")]),
 ("C06", "Step-size adaptation moves towards the target and stays bounded",
  "With tuning on, iteration i (from 0) multiplies PxMALA's step size by 1 + (a - 0.5)/(i+1)^0.75, where a is 1 after an acceptance and 0 after a rejection, and keeps it between 1e-8 and 1/2 of the smoothing parameter; "
  "with tuning off the step size never changes. The step-size trace holds the initial step size and then the one after each iteration.",
  ["histories", "inputs"], "every accept/reject pattern, initial step size and smoothing parameter",
  "Tests do not look at the step size after a run.",
  [M], [("rule", "PxMALA._tune_delta"), ("loop", "PxMALA.run")]),
 ("C07", "SKROCK performs the stabilised Runge-Kutta-Chebyshev step",
  "From any state, SKROCK's next state is that of the s-stage first-order stochastic Runge-Kutta-Chebyshev scheme applied to the gradient of the smoothed log posterior, with the Gaussian increment of covariance 2*delta entering as the scheme prescribes and s gradient evaluations at the scheme's stages. "
  "Its coefficients satisfy the scheme's consistency conditions for every number of stages.",
  ["inputs", "configurations"], "every state, number of stages, step size, gradient, proximal map and draw",
  "Tests check the shape of a step and one coefficient; the scheme is not recomputed.",
  [M], [("stages", "SKROCK.chain_step, SKROCK._K_recursion"), ("coefficients", "SKROCK._recursion_coefs"), ("Chebyshev polynomials", U + " chebyshev1, cheb1der")]),
 ("C08", "Log posterior and gradient describe the same posterior",
  "The log posterior reported for (x, predictions) is minus the regularisation parameter times the prior minus half the covariance-weighted squared residual, a real number. "
  "The data gradient used by the samplers is the exact gradient of that half squared residual with respect to the parameters, and the full gradient adds the Moreau-smoothed prior's.",
  ["inputs"], "every linear model, data, noise description, state and setting, real and complex",
  "Tests evaluate fixed numbers; consistency between the reported density and the gradient is never compared.",
  [M, F], [("log posterior", "PxMCMC.logpi"), ("gradient", "PxMCMC._gradlogpi, ForwardOperator.calc_gradg")]),
 ("C09", "Chains start where they are told to",
  "A chain starts exactly at the start point given, or at independent standard Laplace draws (real and imaginary parts for complex parameters) when none is given. "
  "A start point that is not a one-dimensional array of the right size is refused before any sampling.",
  ["inputs"], "every start point, size and sampler",
  "Tests try one start point and one wrong size on one sampler.",
  [M], [("start", "PxMCMC._initial_sample")]),
 ("C10", "Callers' objects are never modified; samplers are independent",
  "Sampling, proximal maps, transforms, measurements, gradients and uncertainty estimates leave the arrays, lists and parameter objects passed to them unchanged. "
  "Samplers built from the same objects do not influence one another, and saved samples do not change when later iterations run.",
  ["inputs", "histories"], "every input value and accept/reject pattern, for each listed operation",
  "Tests do not compare arguments before and after.",
  [M, P, T, ME, F, U, UN], [("copying", "soft, SphericalWaveletTransform.forward, WeakLensing.mask_forward, PxMCMC._tracking, S2_Wavelets_L1.__init__")]),
 ("C11", "Forward operators compose transform and measurement",
  "In the synthesis setting predictions are the measurement of the image synthesised from the parameters, in the analysis setting the measurement of the parameters themselves, and the gradient is the composed adjoint of the weighted residual. "
  "This holds for the generic operator and for the ready-made wavelet and path-integral operators; unknown settings are refused.",
  ["inputs", "configurations"], "every transform, measurement, parameter vector, data and noise level, both settings",
  "Tests cover fixed random arrays on a few settings.",
  [F], [("composition", "ForwardOperator.forward, ForwardOperator.calc_gradg"), ("ready-made operators", "SphericalWaveletTransformOperator, PathIntegralOperator")]),
 ("C12", "Data are weighted by the inverse noise covariance",
  "The weighting matrix of an operator is the exact inverse of the noise covariance: diagonal 1/sigma^2 for a scalar or per-datum noise level, the matrix inverse for a covariance matrix. "
  "It can be applied to real and complex residuals alike; a noise vector of the wrong length or a non-square covariance is refused.",
  ["inputs"], "every noise level, positive definite covariance and data size, real and complex data",
  "Tests use one diagonal example.",
  [F], [("inverse covariance", "ForwardOperator._build_inverse_covariance_matrix")]),
 ("C13", "Identity and path-integral measurements are linear with exact adjoints",
  "The identity measurement returns its input (its leading pixels when there are fewer data) and the path-integral measurement returns the path matrix times the image; in both cases the adjoint is the conjugate transpose. "
  "Images and data of the wrong length are refused.",
  ["inputs"], "every vector and path matrix, real and complex, rectangular shapes included",
  "Tests use one random matrix with real entries.",
  [ME], [("measurements", "Identity, PathIntegral")]),
 ("C14", "Harmonic lensing kernel, adjoint and inversion are right",
  "Harmonic lensing multiplies each coefficient of degree l by -sqrt((l+2)(l-1)/(l(l+1))), and by zero below degree two; the adjoint uses the same kernel and the Kaiser-Squires estimate inverts it for every degree from two on. "
  "Bandlimits below one are refused.",
  ["inputs", "configurations"], "every coefficient vector and bandlimit within bounds",
  "Tests check a dot-product identity on one random vector.",
  [ME], [("kernel", "WeakLensingHarmonic.compute_harmonic_kernel"), ("maps", "harmonic_mapping, harmonic_inverse_mapping")]),
 ("C15", "Pixel lensing with mask and galaxy weights has an exact adjoint",
  "Pixel-space lensing maps a convergence map to the shear of the unmasked pixels in map order, weighted by the inverse noise from the galaxy counts, and its adjoint is the exact conjugate transpose of that operator. "
  "Masking keeps exactly the pixels marked 1, its adjoint puts zeros elsewhere, and masks of the wrong shape are refused.",
  ["inputs", "configurations"], "every map, mask and galaxy count within bounds",
  "Tests use a mask of ones or one fixed pattern.",
  [ME], [("operator", "WeakLensing.forward, WeakLensing.adjoint"), ("mask", "mask_forward, mask_adjoint"), ("weights", "ngal_to_inv_cov, cov_weight")]),
 ("C16", "Wavelet transforms reconstruct exactly and have exact adjoints",
  "For every band-limited signal, synthesising its wavelet coefficients gives the signal back, in pixel and harmonic space; the adjoint methods are the exact adjoints of analysis and synthesis. "
  "Coefficient vectors hold the scaling coefficients first and then the wavelets, with the advertised counts; real and complex arrays are treated alike.",
  ["inputs", "configurations"], "every signal and coefficient vector, several bandlimits, scale parameters, minimum scales, directions and spins",
  "Tests try random vectors at one configuration.",
  [T, U], [("transform", "SphericalWaveletTransform"), ("packing", "flatten_mlm, expand_mlm")]),
 ("C17", "Soft thresholding is the proximal map of the L1 norm",
  "Soft thresholding sets entries of modulus up to the threshold to zero and shrinks the modulus of the others by the threshold, keeping sign or phase, for scalar and per-entry thresholds. "
  "The result is the unique minimiser of threshold*|u| + |u-x|^2/2.",
  ["inputs"], "every vector, real and complex, zeros included, and every non-negative threshold",
  "Tests check a few vectors.",
  [U], [("soft thresholding", "soft, _sign")]),
 ("C18", "The L1 prior and its proximal map belong together",
  "In the synthesis setting the prior is the sum of moduli of the parameters and its proximal map soft-thresholds them. In the analysis setting the prior is the sum of moduli of the parameters' coefficients, and the proximal map adds to the parameters the back-transformed change that thresholding makes to those coefficients; "
  "for an orthogonal transform this is the exact proximal map. Unknown settings are refused.",
  ["inputs"], "every parameter vector, threshold and transform",
  "Tests use one identity transform.",
  [P], [("prior", "L1.prior"), ("prox", "L1.proxf")]),
 ("C19", "Wavelet priors weight norm and threshold alike",
  "The spherical wavelet priors evaluate the weighted L1 norm with one weight per coefficient and threshold each coefficient at T times that same weight. The weights are the exact quadrature weights of each scale's map, or for the power-weighted prior the pixel-area, wavelet-power and decay weights of the published formula. "
  "They cover every scale and orientation of the matching transform; the analysis setting is refused.",
  ["inputs", "configurations"], "every coefficient vector and threshold; several bandlimits, scale parameters, directions and decay exponents",
  "Tests only check that some configurations can be constructed.",
  [P, U], [("weights", "S2_Wavelets_L1.__init__, S2_Wavelets_L1_Power_Weights._get_weights"), ("bandlimits", "_multires_bandlimits")]),
 ("C20", "Packing and unpacking wavelet coefficients are inverse to each other",
  "Packing puts the scaling coefficients first and then one wavelet scale after the other; unpacking with the number of scales or of scaling coefficients returns exactly what was packed. "
  "Giving neither or both of the two layouts is refused.",
  ["inputs"], "every coefficient array within size bounds",
  "Tests use one random array per layout.",
  [U], [("packing", "flatten_mlm, expand_mlm")]),
 ("C21", "Chebyshev polynomials and derivatives are exact",
  "The first- and second-kind Chebyshev functions and the derivative function return the exact polynomials of every order for every real argument. Negative orders are refused.",
  ["inputs"], "every real argument, orders within bounds",
  "Tests compare with one library value on a few points.",
  [U], [("recurrences", "chebyshev1, chebyshev2, cheb1der")]),
 ("C22", "Areas on the sphere are exact and cover it",
  "The area of a spherical rectangle and of a polar cap are the exact areas, additive in both directions. The pixel areas of a sampling are non-negative, each pixel spans from the ring above to its own ring, and they add up to the area of the sphere of the given radius.",
  ["inputs", "configurations"], "every radius and angle; bandlimits within bounds",
  "Tests check the total for one bandlimit.",
  [U], [("areas", "pixel_area, polar_cap_area, calc_pixel_areas")]),
 ("C23", "Spherical quadrature is exact for band-limited signals",
  "Integrating any signal band-limited at the sampling's bandlimit gives its exact integral over the sphere. There is one weight per pixel, constant along each ring, and the weights sum to the area of the unit sphere.",
  ["inputs", "configurations"], "every band-limited signal; bandlimits within bounds",
  "Tests integrate a handful of functions.",
  [U], [("weights", "mw_weights, weights_theta, mw_map_weights"), ("integration", "s2_integrate")]),
 ("C24", "Credible interval ranges are the central quantile ranges",
  "For each parameter the credible interval range is the difference between the 1-alpha/2 and alpha/2 quantiles of its own samples, whatever their order in the chain. "
  "For wavelet chains every scale's map has that scale's shape and holds the ranges of that scale's own coefficients.",
  ["inputs"], "every chain and confidence level within size bounds",
  "There are no tests of the uncertainty estimates.",
  [UN, U], [("quantiles", "credible_interval_range"), ("partition", "wavelet_credible_interval_range, _multires_bandlimits")]),
 ("C25", "The credible region holds the samples of highest posterior",
  "The threshold is the alpha quantile of the log posteriors, and a sample is in the credible region exactly when its log posterior reaches the threshold. "
  "The region therefore holds the samples of highest posterior, a fraction 1-alpha of the samples up to one sample.",
  ["inputs"], "every list of log posteriors and confidence level within size bounds",
  "There are no tests of the uncertainty estimates.",
  [UN], [("threshold", "credible_region_threshold"), ("membership", "in_credible_region")]),
 ("C26", "A saved run holds exactly what was recorded",
  "Saving a run writes one file, at the place asked for, with every recorded variable unchanged (real or complex, in full precision) and nothing that was not recorded, together with all run parameters as the caller set them and all extra values given. "
  "Saving again under the same name replaces the file; saving under another name leaves it alone.",
  ["inputs", "histories", "configurations"], "every recorded value, subset of tracked variables, sampler and accept/reject pattern; sequences of two saves",
  "There are no tests of saving.",
  [S], [("writer", "save_mcmc")]),
 ("C27", "Hard thresholding keeps exactly the largest entries",
  "Hard thresholding with fraction T keeps the floor(T*n) entries of largest modulus unchanged and sets the others to zero. The signal-to-noise ratio is 20 log10 of the ratio of the Euclidean norms.",
  ["inputs"], "every vector of distinct moduli, fraction and pair of vectors within size bounds",
  "Tests check one vector.",
  [U], [("hard thresholding", "hard"), ("ratio", "snr, norm")]),
 ("C28", "Plots show the data they are given",
  "A map plot draws every unmasked pixel with its own value, leaves masked pixels blank, uses the colour limits asked for (symmetric about zero when centred) and does not change the caller's map; the wavelet plots draw one map per scale (and orientation, for directional wavelets) holding that scale's own coefficients. "
  "Chain plots draw the given traces, marking a sample of highest posterior, and the real and imaginary parts of a sample. Oversampling evaluates the same band-limited signal on the finer grid.",
  ["inputs"], "every map, mask among those listed, colour limits and trace within size bounds; axisymmetric wavelets",
  "There are no tests of plotting.",
  [PL], [("maps", "plot_map, _oversample"), ("wavelet maps", "plot_wavelet_maps"), ("traces", "plot_evolution, plot_chain_sample")]),
 ("C29", "Sky masks cover exactly the equator and the galactic plane",
  "The mask of a given half-width in degrees is 0 exactly at the pixels whose distance from the equator or from the galactic plane is below the width, and 1 elsewhere.",
  ["inputs", "configurations"], "every width away from the pixel distances themselves; bandlimits within bounds",
  "There are no tests of the mask.",
  [U], [("mask", "build_mask")]),
]

NA = [
 ("C90", "Chains converge to the smoothed posterior",
  "Over many iterations the saved samples are distributed according to the (smoothed) posterior.",
  ["histories"], "every posterior and seed, in the limit of long chains",
  "A statistical limit statement.", [M], [("samplers", "MYULA, PxMALA, SKROCK")],
  "A statement about distributions in the limit of infinitely many iterations; no bounded symbolic execution or SMT query expresses it. Its deterministic ingredients (drift, noise, acceptance rule, adaptation) are claimed as C01, C04, C06, C07."),
 ("C91", "Experiment scripts reproduce the published results",
  "Running the experiment scripts on their data sets gives the published maps and uncertainties.",
  ["configurations"], "the shipped experiments", "The tests do not run the experiments.",
  ["experiments/earthtopography/main.py", "experiments/phasevel/main.py", "experiments/weaklensing/main.py"], [("scripts", "experiments/*/main.py")],
  "The scripts are command-line programs over external data (downloads, large bandlimits, 10^6 iterations) with no stated result to decide; no solver encoding is in reach."),
 ("C92", "Results do not depend on floating-point rounding or overflow",
  "For all finite inputs the computed quantities agree with the exact ones to relative precision.",
  ["inputs"], "all finite floating-point inputs", "Tests use moderate numbers.",
  [M, U, P], [("arithmetic", "all modules")],
  "The checks reason over real numbers; bit-precise floating-point encodings of the transforms and sums are out of the solvers' reach, so rounding and overflow are outside all claims."),
]


def rec(p):
    i, title, st, over, qt, why, files, mech = p[:8]
    assert len(title) <= 80, (i, len(title))
    return {"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps(rec(p)) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py",
         "checks": [{"property": p[0], "quick_cmd": f"/opt/venv/bin/python run.py {p[0]} quick", "thorough_cmd": f"/opt/venv/bin/python run.py {p[0]} thorough",
                     "technique": "symbolic execution of the real source (all paths within bounds), assertions decided by SMT (z3, cvc5), counterexamples replayed on the real package",
                     "level": "model_checking", "level_note": NOTE} for p in PROPS],
         "not_applicable": [{"property": p[0], "reason": p[8]} for p in NA],
         "notes": "No hooks in /repo; the fix: commits repair genuine defects listed in known_findings.json. Exit codes: 0 held, 1 violation, 2 a harness got no answer."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
