A_NUM = ("numbers observed from the code are matched to exact rationals within 1e-9 relative "
         "(inputs are exactly representable; expected denominators <= 40000)")
A_SCIPY = "scipy.stats densities and gaussian_kde, numpy.linalg are trusted"
PROPS = {
    "C01": dict(note="Call lifecycle exhaustively model checked for 3 weights, 3 initial, 3 observed and 4 predicted settings; "
                     "recorded problems re-evaluated exactly in TLA+; default (kernel) problems compared with the terms' denotation.",
                mc=[("MC_Density", "MC_Density")], assume=[A_NUM, A_SCIPY]),
    "C02": dict(note="Every labelled step of the lifecycle model (all reachable states) executed on the real class from a "
                     "deep copy of the state it leaves, plus random long walks and exact recorded histories.",
                mc=[("MC_Density", "MC_Density")], edges=[("MC_Density", "MC_DensityEmit", "density")],
                assume=[A_NUM, A_SCIPY]),
    "C03": dict(note="Recorded weighted histories (stacks, normalisation, refused lengths) re-evaluated exactly in TLA+; "
                     "invariances replayed as pairs of runs.",
                mc=[("MC_Density", "MC_Density")], assume=[A_NUM, A_SCIPY]),
}
PROPS["C04"] = dict(note="Ownership model: every interleaving of construction, setters, questions and later writes by the caller, model checked and "
                         "executed on the density, Bayesian and linear Gaussian classes; random histories over every class and function, with all "
                         "arguments, option dictionaries, function defaults and problem inputs fingerprinted after each call, judged in TLA+.",
                    mc=[("MC_Alias", "MC_Alias_density")],
                    edges=[("MC_Alias", "MC_Alias_densityEmit", "alias_density"), ("MC_Alias", "MC_Alias_bayesEmit", "alias_bayes"),
                           ("MC_Alias", "MC_Alias_linEmit", "alias_lin")],
                    assume=[A_NUM, "scipy's frozen distributions keep the arrays they were made from: those are not written to"])
PROPS["C05"] = dict(note="Every labelled step of the Bayesian lifecycle model (prior, likelihood, mode, refused posteriors) executed on "
                         "the real class, plus exact recorded histories and problems with many observables.",
                    mc=[("MC_Bayes", "MC_Bayes")], edges=[("MC_Bayes", "MC_BayesEmit", "bayes")], assume=[A_NUM, A_SCIPY])
LG = ("Closed forms proved optimal over all small integer problems by TLC (MC_LinGauss); recorded solves (random maps up to "
      "3x3 of any rank, covariances, offsets, omitted arguments, list/flat/column spellings) recomputed exactly in TLA+; larger "
      "random problems by their defining equations.")
A_LIN = "maps up to 3x3 with small entries in the exact traces; larger ones only numerically"
for _i in ("C06", "C07", "C08"):
    PROPS[_i] = dict(note=LG, mc=[("MC_LinGauss", "MC_LinGauss", "MC_LinGaussT")], assume=[A_NUM, A_LIN])
PROPS["C09"] = dict(note="The transformed linear map is proved by TLC to be the weighted mean error of linear predictions for all small "
                         "operators, data, noise levels and parameters; recorded calls (every accepted and refused shape) are recomputed "
                         "exactly in TLA+, larger ones numerically.",
                    mc=[("MC_Wme", "MC_Wme", "MC_WmeT")], assume=[A_NUM, "values are recorded times sqrt(N) so that they are rational"])
PROPS["C10"] = dict(note="The chain of one-row solutions as a state machine, model checked over all small systems, orders and call histories "
                         "(own row met, Fejer monotone, calls compose); recorded solves, chains, sub-problems, errors and function "
                         "spellings are recomputed exactly in TLA+; larger systems by the same invariants numerically.",
                    mc=[("MC_IterLin", "MC_IterLin", "MC_IterLinT")], assume=[A_NUM, A_LIN])
_SP = [("MC_Spatio", "MC_Spatio_param"), ("MC_Spatio", "MC_Spatio_data")]
PROPS["C11"] = dict(note="Assignment of the parts as a state machine (palettes of consistent and inconsistent values); every labelled step "
                         "of every reachable state executed on the real class from a copy of the state it leaves, refusals and all "
                         "readable parts compared; longer random histories judged in TLA+.",
                    mc=_SP, edges=[("MC_Spatio", "MC_Spatio_paramEmit", "spatio_param"), ("MC_Spatio", "MC_Spatio_dataEmit", "spatio_data")],
                    assume=[A_NUM])
PROPS["C12"] = dict(note="Selection laws model checked over all masks of small problems; recorded sub-samplings and nearest samples, with "
                         "every mask spelling on every axis, recomputed exactly in TLA+.",
                    mc=[("MC_Select", "MC_Select", "MC_SelectT")], assume=[A_NUM])
PROPS["C13"] = dict(note="Residual maps recomputed exactly in TLA+ from recorded problems (weighted mean error for any selection, principal "
                         "directions for two selected data); more data numerically by the eigenvectors of the standardised residuals.",
                    mc=[("MC_Select", "MC_Select", "MC_SelectT")], assume=[A_NUM, "numpy.linalg.eigh is trusted as the reference for more than two data"])
PROPS["C14"] = dict(note="Loading as a fold of the assignment machine, model checked (each part from its name, its new name or its value; "
                         "validation names what is missing); recorded loads, validations and reference draws judged in TLA+.",
                    mc=[("MC_Select", "MC_Select", "MC_SelectT")], assume=[A_NUM, "numpy's legacy generator is trusted as the noise source"])
PROPS["C15"] = dict(note="Wrapper semantics (first observables, groups, refused numbers) model checked over small problems; recorded calls, with "
                         "the drawn noise taken out, recomputed exactly in TLA+; answers compared with the class-level spelling.",
                    mc=[("MC_Wrap", "MC_Wrap", "MC_WrapT")], assume=[A_NUM, "numpy's legacy generator is trusted as the noise source"])
PROPS["C16"] = dict(note="Fitted boxes and mesh/grid layouts specified exactly and model checked (coverage, tightness, lexicographic product); recorded "
                         "calls over spellings, integer and real bounds, sizes and dimensions recomputed exactly in TLA+.",
                    mc=[("MC_Mesh", "MC_Mesh", "MC_MeshT")], assume=[A_NUM])
PROPS["C17"] = dict(note="A canvas machine (drawing only adds to the axes given) and the exact content of every plot: marginals of gridded densities with unit "
                         "area, contour lines, chains, selected columns, rows and series, with laws model checked; what was drawn is read back from the "
                         "axes and judged in TLA+ (kernel-estimate curves by the driver, against the weights the specification gives).",
                    mc=[("MC_Plot", "MC_Plot", "MC_PlotT")], assume=[A_NUM, "matplotlib artists hold what is shown", A_SCIPY])
A_FIX = "irrational results are judged in thousandths with rounding tolerances in the recorded traces; to 1e-7 in the larger numeric cases"
PROPS["C18"] = dict(note="Decompositions judged in TLA+ by their defining relations (fixed-point outputs, exact inputs) for small data, the "
                         "relations themselves validated by TLC; larger data numerically by the same relations.",
                    mc=[("MC_Decomp", "MC_Decomp", "MC_DecompT")], assume=[A_FIX, "numpy.linalg.eigh is the reference for leading directions"])
PROPS["C19"] = dict(note="Rank and null space exact in TLA+ and model checked over all small matrices; recorded bases, rank sequences, noise (drawn part "
                         "removed, exact) and tolerance conversions judged by the same relations; larger matrices numerically.",
                    mc=[("MC_Decomp", "MC_Decomp", "MC_DecompT")], assume=[A_FIX, "numpy's legacy generator is trusted as the noise source"])
PROPS["C20"] = dict(note="The command line as a machine over a results folder, model checked (refusals leave figures alone, only the figures named are "
                         "written, seeded runs repeat and commute); recorded histories of runs judged in TLA+: figures present, equal for equal "
                         "effective options and seed, different where an option or seed matters; example generators recomputed exactly.",
                    mc=[("MC_Cli", "MC_Cli", "MC_CliT"), ("MC_Example", "MC_Example", "MC_ExampleT")], assume=[A_NUM, "matplotlib writes the same bytes for the same figure"])
PROPS["C21"] = dict(note="Agreement of the views proved by TLC for all small problems (updated and posterior densities are the Gaussians of the closed forms, "
                         "push-forward, one pass over orthogonal rows, weighted mean error of repeated data); one recorded problem asked through samples, closed "
                         "forms, functionals, row by row and through residual maps, every answer recomputed exactly from the same TLA+ problem.",
                    mc=[("MC_Views", "MC_Views", "MC_ViewsT")], assume=[A_NUM, A_SCIPY, A_LIN])
PROPS["C22"] = dict(note="The stream of random numbers as a state machine (seeds, noise through every entry point, choices, quiet calls), model checked (no number "
                         "drawn twice or skipped, same seed same numbers, quiet calls leave the stream to others); every labelled step executed on the real generator in "
                         "random walks; recorded histories over every class and function say where in which stream the generator is after each call, judged in TLA+.",
                    mc=[("MC_Rng", "MC_Rng", "MC_RngT")], edges=[("MC_Rng", "MC_RngEmit", "rng")],
                    assume=["numpy's legacy generator is trusted as the noise source", "settings watched: numpy error handling and print options, matplotlib parameters, "
                            "environment, Python's generator, working folder and its files"])
