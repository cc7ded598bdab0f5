SPECIFICATION Spec
CONSTANTS
  SC = 4
  NV = 9
VIEW View
