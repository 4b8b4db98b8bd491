SPECIFICATION Spec
CONSTANTS
  Max = 4
INVARIANTS SameAsRun SameAsDoc Cut Cases
PROPERTIES AfterTag
CHECK_DEADLOCK FALSE
