SPECIFICATION Spec
CONSTANTS Files <- F3
          Targets = {"go", "ts", "dart", "java"}
          Good = {"v1", "v2", "v3"}
          Bad = {}
          Graphs <- G3
          Depth = 9
INVARIANTS OnlyGood UpToDate
