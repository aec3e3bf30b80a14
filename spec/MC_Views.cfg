CONSTANTS
  Dims <- DimsQ
  Ys <- YsQ
  Gs <- GsQ
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS UpdatedGaussian PosteriorGaussian PushForward OnePass Nearest Repeated
