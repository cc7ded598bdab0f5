SPECIFICATION Spec
CONSTANTS
  SC = 2
  NV = 13
VIEW View
