SPECIFICATION Spec
CONSTANTS
  As <- SmallAs
  Gs <- SmallGs
  Lo <- Left
  Hi = 3
  Tol = 8
INVARIANTS Bounded GapLaw OnePoint Few
PROPERTY Terminates
CHECK_DEADLOCK FALSE
