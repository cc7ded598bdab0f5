SPECIFICATION Spec
CONSTANTS
  Limit = 6
  Costs = {1, 2, 3, 10, 11}
  TolNum = 1
  TolDen = 20
  Errors = {"primal", "dual", "unknown", "license"}
INVARIANTS WithinLimit Converged First Rises LimitHonest
PROPERTY Ends
CHECK_DEADLOCK FALSE
