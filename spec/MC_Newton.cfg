SPECIFICATION Spec
CONSTANTS
  MaxItersSet = {0, 1, 2, 3}
  MaxSolves = 3
  Fatal = {"ill", "cont"}
  RetryLimit = TRUE
  KeepHist = FALSE
INVARIANTS TypeOK N01 N02 N03 N04 N05 N06 N07 JcurAgrees
PROPERTY Terminates
CHECK_DEADLOCK FALSE
