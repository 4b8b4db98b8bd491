SPECIFICATION Spec
CONSTANTS MaxFormats = 1
  Emitting = TRUE
INVARIANTS Known NullRule ServerAgrees Refused SameAsTyped NoSurprise LangsAgree
