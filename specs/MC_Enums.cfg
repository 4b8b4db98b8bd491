SPECIFICATION Spec
CONSTANTS
  ItemNames = {"On", "high_low", "zB"}
  Ids = {"0", "1", "7"}
  Max = 3
INVARIANTS Inverse Unknown Apart Case
PROPERTY Stays
