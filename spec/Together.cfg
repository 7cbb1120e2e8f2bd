CONSTANTS
  SHARED = FALSE
  WORKERS = {1, 2, 3}
  INPUTS = {1, 2, 3}
  COMING = 3
SPECIFICATION Spec
INVARIANTS AsAlone Different Whole
PROPERTIES AllDone
CHECK_DEADLOCK FALSE
