SPECIFICATION Spec
CONSTANTS MaxV = 2
 MaxM = 4
 Coef <- CoefSet
 MaxDraw = 4
INVARIANTS Area Proportional Mass Swap Product Contour Once Where Grown
PROPERTY Kept
CHECK_DEADLOCK FALSE
