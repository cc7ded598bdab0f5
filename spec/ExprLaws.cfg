INIT Init
NEXT Next
CONSTANTS
  SC = 1
  NV = 2
INVARIANTS RavelLaws UnitLaws
