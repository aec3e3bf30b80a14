CONSTANTS
  MaxEpochs = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Shape Counts Composes OwnRow Closer Fixed Idem
