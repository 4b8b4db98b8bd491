SPECIFICATION Spec
CONSTANTS MaxRows = 3
  Fake = TRUE
  Ids = {1,2,3}
  Qtys = {0,1}
INVARIANTS ListIsVisible ReadsAgree Stats
VIEW RowsOnly
