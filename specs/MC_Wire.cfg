SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANTS RoundTrip OwnKeys NoNulls NullIsAbsent
