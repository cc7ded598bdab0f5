SPECIFICATION Spec
CONSTANTS
  SC = 2
  NV = 3
VIEW View
