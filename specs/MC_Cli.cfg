SPECIFICATION Spec
VIEW View
CONSTANTS
  Short = 2
  Long = 2
INVARIANTS Spelling Default Rest Ends Complete Shown Told
