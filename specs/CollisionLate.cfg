SPECIFICATION MCSpec
CONSTANTS Cap = 3
 States1 = {1, 2, 3, 4}
 States2 = {1, 2}
 Refill = FALSE
 Emit = FALSE
VIEW View
INVARIANT Fresh
CHECK_DEADLOCK FALSE
