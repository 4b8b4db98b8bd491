SPECIFICATION Spec
CONSTANTS MaxFormats = 2
  Emitting = TRUE
INVARIANTS Known NullRule AllHold FirstFails PlainIgnored MoreIsStricter
