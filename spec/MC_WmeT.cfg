CONSTANTS
  Ns = {1, 2, 3}
  Ds = {1, 2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Same Repeat ZeroAtTruth Order Scaling ScaleRow VarOK
