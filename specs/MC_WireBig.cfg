SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANTS RoundTrip OwnKeys NoNulls NullIsAbsent
