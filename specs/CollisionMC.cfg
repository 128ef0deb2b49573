SPECIFICATION MCSpec
CONSTANTS Cap = 3
 States1 = {1, 2, 3, 4}
 States2 = {1, 2}
 Refill = TRUE
 Emit = TRUE
VIEW View
INVARIANTS Fresh Sound Small
ACTION_CONSTRAINT PrintScn
CHECK_DEADLOCK FALSE
