SPECIFICATION Spec
CONSTANTS MaxRows = 5 Batch = 2 MaxThreads = 4 MaxProcs = 3
INVARIANTS Partition Disjoint NoneLeft
PROPERTIES Refines Returns
