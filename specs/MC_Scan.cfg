SPECIFICATION Spec
VIEW View
CONSTANTS
  Num = 3
  Str = 2
  RawN = 3
  Com = 4
  Id = 3
  Start = 3
INVARIANTS Tiling Apart Decimal SameText Returns Begins Ends Twice Told
