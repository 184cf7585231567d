SPECIFICATION Spec
CONSTANTS MaxBatches = 5 MaxProcs = 5
PROPERTY Refines
CHECK_DEADLOCK FALSE
