SPECIFICATION Spec
CONSTANTS
  SC = 2
  NV = 10
VIEW View
