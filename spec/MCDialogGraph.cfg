INIT Init
NEXT Next
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitEdge
VIEW ViewH
INVARIANTS TypeOK C01a C03a C04a C10a
PROPERTIES C01b C01c C02 C03b C03c C04b C04c C05 C06 C07 C08 C09 C10b C10c
CHECK_DEADLOCK FALSE
