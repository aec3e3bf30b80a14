CONSTANT B = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OddPowersIncrease EvenPowersForgetSigns Linear Repeats RotationsAccepted OthersRejected
