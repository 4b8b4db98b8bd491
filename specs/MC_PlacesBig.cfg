SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANT Placed
INVARIANT Real
INVARIANT Apart
