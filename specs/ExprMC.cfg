SPECIFICATION Spec
CONSTANTS
 Depth = 2
 Wide = TRUE
INVARIANTS MeaningIsValue AffStaysAff
PROPERTIES StepMeans ValueLaws
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
