#!/usr/bin/env python3
"""Writes known_findings.json (open findings + record of repaired defects)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C14 a68f823 loading a .nc file path always failed: the flag saying whether xarray is available was never defined
C02 c1b3bfc setting the observed density after an answer left the old updated density in use
C02 2ca477e density plots drew the updated curve with a stale or unweighted ratio
C04 b8fdcc6 fitting a domain to given bounds padded the caller's array in place
C01 84c3f39 pad_domain was ignored when a density problem fitted its own domain
C01 22711b8 a custom predicted density of a multi-component observable was summed over the wrong shape instead of multiplied
C01 f640735 one-dimensional parameter samples were read as one sample of many parameters
C05 e7cba61 logarithm mode accepted a posterior that vanishes everywhere and refused valid ones
C05 eebce93 Bayesian plots used a stale or logarithmic posterior as kernel weights
C08 7525b90 the data term of the functionals ignored the offset of the affine map
C08 051366b the stand-alone data norm failed for a scalar observed mean
C09 3a8542e column-shaped data broke the weighted mean error by broadcasting
C19 986699b adding noise to a multi-dimensional signal flattened it
C19 e23f7f9 the rank decomposition returned wrong updates for non-square matrices
C10 1def6c4 iterative solves did not pass the prior mean and covariances to the one-row problems
C10 3e941ac errors were cached and stale after further epochs or for another reference
C17 ef194d2 contour lines did not pass through the reference point and default options were invalid
C04 37fea74 plotting a solution wrote the label into the caller's option dictionary
C11 a1a55d3 setting a domain compared the parameter samples with the old domain
C11 a96c95d reference parameters were not initialised and accepted any length
C14 64abf4d drawing measurements bypassed the shape check of direct assignment
C12 7c00986 masking sensors failed for sensors that are not two-dimensional
C13 68513db data weights were applied per sample instead of per datum
C13 6a33dac the weighted mean error of spatio-temporal data was scaled by the number of samples
C13 2de8f20 an unknown data map raised an unrelated error late
C14 0507fcc loading ignored renamed fields and assigned in an order that refused valid data sets
C15 5487bff the data-driven wrapper could not run with its default sample distribution
C17 095b5c8 plotted marginals were those of another component for two or more dimensions
C17 b3eac2e 2-D parameter plots showed the wrong columns
C17 2b19d62 several plots drew on the current axes instead of those given
C05 a60bf6c the likelihood of two or more observables could not be plotted
C09 7602d67 negative noise levels of distinct observations were accepted
C10 d4becc7 errors for a flat reference parameter were those of a broadcast matrix
C18 2fb2072 the options documented to reach the singular value decomposition were dropped
C17 f8cc82c contour lines of the rows after an all-zero row were drawn along another direction
C17 9628f14 sensor contour plots of masked sensors failed unless their values were given
C17 0df5cce Bayesian observable plots refused a range given as a list
C03 897035e a sample of weight zero (or of zero observed or initial density) became the MUD point, with a NaN ratio, where the predicted density vanishes
C17 e846c0f observable plots failed for a predicted density given as an object with pdf only
C17 b402e87 plot_params_2d dropped its keyword arguments
C01 5033e07 samples and QoI values given as integers kept fractional domain padding and results truncated to integers
C03 3476197 large whole-number sample weights overflowed when stacked
C06 4473e28 unsigned or small integer A, b, y wrapped around in the linear Gaussian problem
C04 9d36931 plot_contours without a reference advanced an iterative problem's estimate
C09 3c54286 transformed linear maps lost precision for data of small integer types and refused nested lists
C09 3630240 noise levels given as numpy numbers were refused or used in single precision
C09 b147ecd fewer noise levels, operators or data than quantities silently dropped quantities
C10 03dc4ec an iterative solve with zero epochs failed, and so did get_errors before solving
C13 214bbda unsigned residuals wrapped around and integer data weights were used in half precision
C09 2179f7a the weighted mean error of unsigned or small integer data wrapped around or lost precision
C08 a1a1c90 norms refused numpy-number covariances and wrapped around on unsigned arrays
C16 df530d0 padding a domain of small integers wrapped around
C18 2b307bf principal components of data with over 500 rows or columns were approximate and drew from the global random state
"""
OPEN = [
    dict(id="C16-integer-padding", property="C16", status="open", clauses=["fit-domain"],
         what="fit_domain on integer samples or bounds truncates a fractional padding towards zero (e.g. [[0, 1]] with ratio 0.1 stays "
              "[[0, 1]]); not repaired: the stable test test_identity_mud_problem_1D_plot_params and a doctest rely on integer results"),
]
EX = "not repaired: it is in src/mud/examples, which the commits allowed here may not touch"
def ex(id, clauses, what):
    OPEN.append(dict(id="C20-" + id, property="C20", status="open", clauses=clauses, what=what + "; " + EX))


ex("poisson-solve-figures", ["cli:figures"], "poisson-solve writes none of the figures chosen with -p (the tuple from the command line is not recognised)")
ex("poisson-trials-sigma", ["cli:option-has-effect"], "poisson-trials ignores --sigma (the noise level is fixed at 0.05)")
ex("adcirc-sigma", ["cli:option-has-effect"], "adcirc-solve ignores --sigma (the noise level is fixed at 0.05)")
ex("adcirc-learned-qoi-name", ["cli:figures"], "adcirc-solve -p learned_qoi writes a file literally named qoi_{num_components}_{ndata}.png")
ex("adcirc-mesh-value", ["cli:option-has-effect"], "adcirc-solve --mesh-value names the file after the value but draws wind_speed_mult_0")
ex("load-poisson-std", ["load-poisson-noise:model"], "load_poisson_prob ignores std_dev")
ex("load-adcirc-std", ["load-adcirc-noise:model"], "load_adcirc_prob ignores std_dev")
ex("poisson-solve-seed", ["poisson-solve:reproducible"], "run_2d_poisson_sol with a seed orders the sensors by an unseeded draw")
ex("poly-sigma", ["poly:noise-level"], "polynomial_1D_data draws noise with standard deviation sigma**2")
ex("poly-domain", ["poly:domain"], "polynomial_1D_data ignores domain (samples are uniform on [0, 1])")
ex("rotation-seed", ["rotation-map:other-seed"], "rotation_map seeds with 24 whatever seed is given")
ex("rotation-trials", ["rotation-trials:runs"], "rotation_map_trials passes an argument IterativeLinearProblem does not have and fails")
ex("temporal", ["identity-temporal:runs"], "identity_1D_temporal_prob fails for every argument (field names and values are not those load expects)")
ex("decay-2d", ["decay-2d:runs"], "exp_decay_2D fails for every argument (the true values are computed with an argument missing)")
ex("high-dim-tall", ["high-dim:runs"], "run_high_dim_linear fails when the output dimension exceeds the input dimension (more ranks than there are)")
F = list(OPEN)
for n, l in enumerate(FIXED.strip().splitlines(), 1):
    p, c, what = l.split(" ", 2)
    F.append(dict(id=f"fixed-{n}", property=p, status="fixed", commit=c,
                  line=f"fixed: property={p} {c} {what}"))
json.dump(dict(findings=F), open(os.path.join(here, "known_findings.json"), "w"), indent=1)
