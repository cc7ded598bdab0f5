INIT Init
NEXT Next
CONSTANTS
  SC = 1
  NV = 2
  Exps = {0, 1}
  Coefs <- RatCoefs
INVARIANTS Meaning GPOnly Equal
