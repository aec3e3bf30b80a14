CONSTANTS
  Dims <- DimsT
  Ys <- YsT
  Gs <- GsT
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS UpdatedGaussian PosteriorGaussian PushForward OnePass Nearest Repeated
