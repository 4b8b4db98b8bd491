SPECIFICATION Spec
CONSTANTS MaxRows = 2
  Fake = FALSE
  Ids = {1,2}
  Qtys = {0}
INVARIANTS OthersStay CountsRows DelHides DelKeeps RmRemoves
