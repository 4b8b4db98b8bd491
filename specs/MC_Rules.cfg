SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANT Report
INVARIANT Isolated
PROPERTY Monotone
