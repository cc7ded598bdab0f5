SPECIFICATION Spec
CONSTANTS
  SC = 2
  NV = 3
  MAXLEN = 6
INVARIANT Laws
