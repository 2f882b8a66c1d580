SPECIFICATION Spec
INVARIANTS NoObjection RestIsFine
CHECK_DEADLOCK FALSE
CONSTANTS
  Scenarios <- Quick
  Keys = {1, 2}
  MaxKeys = 2
  MaxResizes = 0
  EnvStops = {"cancel", "fault"}
  Bugs = {"noread"}
