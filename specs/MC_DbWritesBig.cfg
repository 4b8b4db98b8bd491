SPECIFICATION Spec
CONSTANTS MaxRows = 2
  Fake = TRUE
  Ids = {1,2,3}
  Qtys = {0,1}
INVARIANTS InsertReads OthersStay UpdateReads SetReads CountsRows DelHides DelKeeps RmRemoves
