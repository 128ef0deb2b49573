SPECIFICATION Spec
INVARIANTS ConstructionOK ConstructionMeans ConvexExact
CHECK_DEADLOCK FALSE
