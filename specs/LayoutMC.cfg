SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Covered Sized Clipped Stacked
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
