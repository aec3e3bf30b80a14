INIT Init
NEXT Next
CONSTANTS
  Seeds = {"0", "1", "77"}
  Quiets = {"wme", "density", "bayes", "linear", "iterative", "lwme", "iterated", "load", "sample", "nearest", "map:wme", "map:pca", "map:svd", "pca", "svd", "big", "norms", "rank", "nullspace", "transform", "domain", "meshes", "dist", "params", "observed", "params2d", "scatter", "contour", "contours", "chain", "vecs", "equipment", "data_prob", "refused", "styled"}
  Takes = {"mud", "split", "map"}
  Gives = {"add_noise", "reference"}
  Sizes = {1, 2, 3}
  MaxPos = 7
  Emit = TRUE
INVARIANTS Undisturbed Gapless NoReuse SplitLaw Repeats SeedLaw
CHECK_DEADLOCK FALSE
