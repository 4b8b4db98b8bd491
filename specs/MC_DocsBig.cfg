SPECIFICATION Spec
CONSTANTS
  Max = 5
INVARIANTS SameAsRun SameAsDoc Cut Cases
PROPERTIES AfterTag
CHECK_DEADLOCK FALSE
