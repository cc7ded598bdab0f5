INIT Init
NEXT Next
CONSTANTS
  SC = 2
  NV = 2
INVARIANTS Adds Subs Lts Times
CHECK_DEADLOCK FALSE
