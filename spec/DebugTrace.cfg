SPECIFICATION DSpec
CONSTANTS
  SC = 4
  NV = 22
  Symbolic <- DebugSymbolic
VIEW View
