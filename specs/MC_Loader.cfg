SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"}
          Ghosts = {"ghost"}
INVARIANTS TypeOK Confluent Refuses Needed
PROPERTY Progress
