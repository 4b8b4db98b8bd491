SPECIFICATION Spec
CONSTANTS
  ItemNames = {"On", "high_low", "zB", "x1"}
  Ids = {"0", "1", "7", "2147483647"}
  Max = 4
INVARIANTS Inverse Unknown Apart Case
PROPERTY Stays
