SPECIFICATION Spec
CONSTANTS
  MaxPosition = 2
  MaxSlots = 1
INVARIANTS NoneTwice OnlyKnown Which FrontOrder RestOrder FrontFirst Plain Cases
