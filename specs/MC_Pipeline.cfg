SPECIFICATION SpecX
CONSTANTS Files <- F3
          Targets = {"t1"}
          Good = {"v1", "v2"}
          Bad = {"bad"}
          Graphs <- G3
          Depth = 0
INVARIANTS OnlyGood UpToDate
PROPERTIES Idempotent Untouched
