CONSTANTS
  SHARED = TRUE
  WORKERS = {1, 2}
  INPUTS = {1, 2, 3}
  COMING = 3
SPECIFICATION Spec
INVARIANTS AsAlone Different Whole

CHECK_DEADLOCK FALSE
