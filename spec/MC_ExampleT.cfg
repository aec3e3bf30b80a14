CONSTANT B = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OddPowersIncrease EvenPowersForgetSigns Linear Repeats RotationsAccepted OthersRejected
