SPECIFICATION Spec
VIEW View
CONSTANTS
  Short = 3
  Long = 2
INVARIANTS Spelling Default Rest Ends Complete Shown Told
