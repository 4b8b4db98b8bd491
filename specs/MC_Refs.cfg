SPECIFICATION Spec
CONSTANT Texts = {"To.it", "To.no", "No.it", "To", "To.it.it", ".it", "it", "To.", ""}
VIEW View
INVARIANT Local
INVARIANT Once
INVARIANT Order
INVARIANT Lawful
INVARIANT Told
PROPERTY Helps
