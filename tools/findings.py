import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "PxMALA transition density": ("C04", "the proposal density used in the acceptance ratio was not the Gaussian density of the proposal (wrong normalisation of the exponent), so detailed balance failed"),
 "log posterior uses half": ("C08", "the reported log posterior used the full weighted squared residual while its gradient is that of half of it"),
 "PxMALA records the current": ("C05", "after a rejection nothing was recorded, so the saved samples were the accepted states only instead of the thinned chain"),
 "SKROCK stage": ("C07", "stage coefficients and recursion were not those of the Runge-Kutta-Chebyshev scheme"),
 "progress printing": ("C03", "printing progress crashed unless logposterior, L2 and prior were all tracked"),
 "tracked predictions keep": ("C03", "imaginary part of complex predictions was dropped"),
 "2D covariance matrix": ("C12", "a two-dimensional numpy covariance was refused"),
 "inverse covariance stays real": ("C12", "complex data turned the weighting matrix complex and the log posterior with it"),
 "multiresolution bandlimits": ("C24", "wrong bandlimits when a wavelet scale is empty"),
 "weight the threshold": ("C19", "norm and threshold of the wavelet priors used different weights, and the caller's threshold array was modified"),
 "power weights can be built": ("C19", "power-weighted prior failed for most numbers of scales"),
 "analysis prior is": ("C18", "the analysis prior was not the norm whose proximal map is used"),
 "credible region holds": ("C25", "the threshold selected the samples of lowest posterior"),
 "mask of the wrong shape": ("C15", "a mask of the wrong shape failed with an unrelated error"),
 "hard thresholding keeps": ("C27", "kept everything instead of nothing when the kept fraction rounds down to zero"),
 "colour map up through": ("C28", "plot_map used an API removed from matplotlib"),
 "every orientation": ("C19", "weights of directional wavelets did not cover all orientations"),
 "masked map leaves": ("C28", "plotting with a mask overwrote the caller's map with NaN"),
 "harmonic-space wavelet": ("C16", "coefficient counts in harmonic space were those of pixel space, so synthesis failed"),
 "highest log posterior occurs": ("C28", "plot_evolution crashed when the best log posterior occurs twice (usual after a PxMALA rejection)"),
 "without oversampling": ("C28", "plot_wavelet_maps crashed with oversample=False"),
 "each scale's own": ("C28", "with more than one direction the map drawn for a scale showed another scale's or orientation's coefficients"),
}
KNOWN = [dict(status="known", property="C19", harness="finite", config=dict(cls="S2_Wavelets_L1_Power_Weights", L=4, B=3, J=0),
              what="S2_Wavelets_L1_Power_Weights has undefined (0/0) weights for a scale whose wavelets vanish identically (L=4, B=3, J_min=0; any L = B^k + 1), "
                   "so its prior is NaN even for vanishing coefficients")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    hsh, _, sub = l.partition(" ")
    if not sub.startswith("fix:"):
        continue
    k = [k for k in T if k in sub]
    assert len(k) == 1, (sub, k)
    p, what = T[k[0]]
    out.append({"status": "fixed", "property": p, "commit": hsh, "what": what, "entry": f"fixed: property={p} {hsh} {what}"})
json.dump({"findings": out + KNOWN}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out))
