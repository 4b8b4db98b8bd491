SPECIFICATION Spec
CONSTANTS
  MaxCount = 4
  MaxClicks = 3
INVARIANTS Head2 None2 Twice Alone Cases
CHECK_DEADLOCK FALSE
