CONSTANTS
  Ent <- EntQ
  Dims <- DimsT
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Forms Consistent Stationary Closest ScaleFree AltAgrees MapMinimises MudMinimises LsOptimal CovPush StepExact StepCloser
