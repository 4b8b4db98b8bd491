SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANT Report
INVARIANT Isolated
PROPERTY Monotone
