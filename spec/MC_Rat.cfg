CONSTANT N = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inv2 PinvInv Field
