INIT Init
NEXT Next
CONSTANTS
  SC = 1
  NV = 2
  Exps <- SmallExps
  Coefs <- TwoHalf
INVARIANTS Below Slopes Mono
