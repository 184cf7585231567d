SPECIFICATION Spec
CONSTANTS MaxBatches = 4 MaxProcs = 4
PROPERTY Refines
CHECK_DEADLOCK FALSE
