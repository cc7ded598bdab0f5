SPECIFICATION Spec
CONSTANTS
  SC = 4
  NV = 4
VIEW View
