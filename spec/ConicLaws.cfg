CONSTANTS NV = 2
 SC = 2
 Coefs = {1, 3}
 Exps = {0, 2}
 MaxP = 3
INIT Init
NEXT Next
INVARIANTS Faithful Telling
CHECK_DEADLOCK FALSE
