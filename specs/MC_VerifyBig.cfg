SPECIFICATION Spec
CONSTANTS MaxFormats = 3
  Emitting = TRUE
INVARIANTS Known NullRule AllHold FirstFails PlainIgnored MoreIsStricter
