SPECIFICATION MCSpec
CONSTANTS MaxKey = 3
 MaxCap = 4
 InitCaps = {0, 1, 2, 3}
 Depth = 40
 Emit = FALSE
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK KeyUnique OutHidden LruExact SizeBound
PROPERTIES ExclusiveOut GrowOnlyWhenOut EvictLast
CHECK_DEADLOCK FALSE
