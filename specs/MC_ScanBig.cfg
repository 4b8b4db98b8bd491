SPECIFICATION Spec
VIEW View
CONSTANTS
  Num = 4
  Str = 3
  RawN = 4
  Com = 5
  Id = 4
  Start = 4
INVARIANTS Tiling Apart Decimal SameText Returns Begins Ends Twice Told
