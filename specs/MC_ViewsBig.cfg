SPECIFICATION Spec
CONSTANTS
  MaxPosition = 3
  MaxSlots = 2
INVARIANTS NoneTwice OnlyKnown Which FrontOrder RestOrder FrontFirst Plain Cases
