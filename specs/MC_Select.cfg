SPECIFICATION Spec
CONSTANTS
  MaxCount = 3
  MaxClicks = 2
INVARIANTS Head2 None2 Twice Alone Cases
CHECK_DEADLOCK FALSE
