SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANT Placed
INVARIANT Real
INVARIANT Apart
