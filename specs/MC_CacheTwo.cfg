SPECIFICATION Spec
CONSTANTS Queries = {q1, q2}
  MaxVersion = 4
  Clients = {c1, c2}
INVARIANTS Fresh Unlocked ReadsFresh
