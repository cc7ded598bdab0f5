INIT Init
NEXT Next
INVARIANTS Conserved Whole Fewer Kept
CHECK_DEADLOCK FALSE
