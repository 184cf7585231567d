SPECIFICATION Spec
CONSTANTS MaxRows = 7 Batch = 2 MaxThreads = 5 MaxProcs = 4
INVARIANTS Partition Disjoint NoneLeft
PROPERTIES Refines Returns
