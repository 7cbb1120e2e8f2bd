SPECIFICATION Spec
CONSTANTS MaxOps = 7
          CloseFirst = TRUE
INVARIANTS InOrder Owned AtRest NoCrash OneError Ended
PROPERTY Closes
CHECK_DEADLOCK FALSE
