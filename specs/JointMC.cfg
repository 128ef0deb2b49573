SPECIFICATION Spec
INVARIANTS DegreeOK JacIsDerivative CostSlope
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
