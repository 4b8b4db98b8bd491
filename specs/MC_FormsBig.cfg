SPECIFICATION Spec
CONSTANTS MaxFormats = 2
  Emitting = TRUE
INVARIANTS Known NullRule ServerAgrees Refused SameAsTyped NoSurprise LangsAgree
