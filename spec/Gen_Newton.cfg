SPECIFICATION Spec
CONSTANTS
  MaxItersSet = {0, 1, 2, 3}
  MaxSolves = 1
  Fatal = {"fatal"}
  RetryLimit = TRUE
  KeepHist = TRUE
INVARIANTS EmitScripts
CHECK_DEADLOCK FALSE
