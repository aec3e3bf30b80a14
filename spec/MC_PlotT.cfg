SPECIFICATION Spec
CONSTANTS MaxV = 3
 MaxM = 5
 Coef <- CoefSet
 MaxDraw = 6
INVARIANTS Area Proportional Mass Swap Product Contour Once Where Grown
PROPERTY Kept
CHECK_DEADLOCK FALSE
