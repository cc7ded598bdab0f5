SPECIFICATION RSpec
CONSTANTS
  SC = 4
  NV = 17
VIEW View
